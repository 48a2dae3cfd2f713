"""P41: equation numbers of the web editions (docs/_webtex.py and the pages built with it), judged by spec/WebTexTrace.tla."""
import importlib.util, itertools, os, re, shutil, subprocess, sys, tempfile

from . import common, tlc

KEYS = ("eq:a", "eq:long-name_2", "eq:x:y", "eq:A b", "eq:", "eq:1", "eq:a1", "eq:schur.score")
TEXTS = ("word ", "\n", "\n\n", "$x$ ", "\\alpha + \\beta ", "% remark\n", "\\begin{equation*} y \\end{equation*} ", "\\label{fig:one} ", "\\ref{sec:two} ",
         "\\begin{align} a \\end{align} ", "{ } ", "x_{n} = \\frac{1}{2} ", "\\eqref{other} ", "\\section{Three}\n", "\\tag{7} ", "\\[ z \\] ", "\u03a3 ", "(1) ",
         "\\1 \\g<0> ", "\\begin {equation} ", "   ", "\\label {eq:a} ")


def repo():
    return os.environ.get("PRECISE_REPO", "/repo")


def source(doc):
    form = {"begin": "\\begin{equation}", "end": "\\end{equation}"}
    return "".join(form.get(p["k"]) or ("\\label{%s}" % p["s"] if p["k"] == "label" else "\\eqref{%s}" % p["s"] if p["k"] == "ref" else p["s"]) for p in doc)


def tokens(tex):
    """A paper as pieces."""
    out, at = [], 0
    for m in re.finditer(r"\\begin\{equation\}|\\end\{equation\}|\\label\{(eq:[^}]*)\}|\\eqref\{(eq:[^}]*)\}", tex):
        if m.start() > at:
            out.append({"k": "text", "s": "."})
        at = m.end()
        g = m.group(0)
        out.append({"k": "begin", "s": ""} if g.startswith("\\b") else {"k": "end", "s": ""} if g.startswith("\\en") else
                   {"k": "label", "s": m.group(1)} if m.group(1) is not None else {"k": "ref", "s": m.group(2)})
    return out


def convert(main, doc, scratch, n):
    src, dst = os.path.join(scratch, f"{n}.tex"), os.path.join(scratch, f"{n}.out")
    with open(src, "w", newline="") as fh:
        fh.write(source(doc))
    t = {"kind": "convert", "doc": doc, "stopped": False, "named": []}
    try:
        said = ""
        with common.limit(30):
            if main is None:
                r = subprocess.run([sys.executable, os.path.join(repo(), "docs", "_webtex.py"), src, dst], capture_output=True, text=True)
                t["stopped"], said = r.returncode != 0, r.stderr
            else:
                try:
                    main(src, dst)
                except SystemExit as ex:
                    t["stopped"], said = ex.code not in (None, 0), str(ex.code)
        t["named"] = sorted({p["s"] for p in doc if p["k"] == "ref" and p["s"] in said})
        t["wrote"] = os.path.exists(dst)
        if t["wrote"]:
            with open(dst, newline="") as fh:
                t["out"] = fh.read()
        with open(src, newline="") as fh:
            if fh.read() != source(doc):
                t["err"] = "source_changed"
    except Exception as ex:
        t["err"] = common.errname(ex)
    for f in (src, dst):
        if os.path.exists(f):
            os.unlink(f)
    return t


def random_doc(rng, n, keys):
    doc, opened = [], False
    tidy = rng.random() < .7
    for _ in range(n):
        u = rng.random()
        if tidy and u < .3:
            doc.append({"k": "end" if opened else "begin", "s": ""})
            opened = not opened
        elif u < .15:
            doc.append({"k": "begin", "s": ""})
        elif u < .3:
            doc.append({"k": "end", "s": ""})
        elif u < .5 and (not tidy or opened):
            doc.append({"k": "label", "s": keys[int(rng.integers(len(keys)))]})
        elif u < .7:
            doc.append({"k": "ref", "s": keys[int(rng.integers(len(keys)))]})
        else:
            doc.append({"k": "text", "s": TEXTS[int(rng.integers(len(TEXTS)))]})
    if tidy and opened:
        doc.append({"k": "end", "s": ""})
    if rng.random() < .75:          # references that resolve
        have = [p["s"] for p in doc if p["k"] == "label"]
        doc = [p if p["k"] != "ref" else {"k": "ref", "s": have[int(rng.integers(len(have)))]} if have else {"k": "text", "s": "-"} for p in doc]
    return doc


def pages():
    out = []
    script = os.path.join(repo(), "docs", "build_paper.sh")
    if not os.path.exists(script):
        return out
    for tex, slug in re.findall(r"^build_one (\S+) (\S+)", open(script).read(), re.M):
        paper, page = os.path.join(repo(), "papers", tex + ".tex"), os.path.join(repo(), "docs", "papers", slug, "index.html")
        t = {"kind": "page", "name": slug}
        try:
            html = open(page).read()
            t.update(doc=tokens(open(paper).read()) or [{"k": "text", "s": "."}], tags=[int(x) for x in re.findall(r"\\tag\{(\d+)\}", html)],
                     left=len(re.findall(r"\\label\{?eq:|\\eqref|\[eq:[^\]]*\]|\\labeleq", html)))
        except Exception as ex:
            t["err"] = common.errname(ex)
        out.append(t)
    return out


def p41(ctx):
    rng = ctx.rng
    most = ctx.pick(5, 6)
    r = tlc.run("WebTexMC", cfg_text=f"SPECIFICATION Spec\nCONSTANT Most = {most}\nINVARIANTS Balanced Ordered Number Maximal Tagged\nCHECK_DEADLOCK FALSE\n")
    ctx.model("WebTexMC", r, f"every document of at most {most} pieces over two keys: Balanced Ordered Number Maximal Tagged")
    path = os.path.join(repo(), "docs", "_webtex.py")
    spec = importlib.util.spec_from_file_location("_webtex_under_test", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    main = getattr(m, "main", None)
    scratch = tempfile.mkdtemp(prefix="webtex-")
    kinds = [{"k": "begin", "s": ""}, {"k": "end", "s": ""}, {"k": "text", "s": "t "}, {"k": "label", "s": "eq:a"}, {"k": "label", "s": "eq:b"}, {"k": "ref", "s": "eq:a"}]
    try:
        calls = []
        if main is not None:
            for n in range(1, ctx.pick(4, 5) + 1):
                for doc in itertools.product(kinds, repeat=n):
                    calls.append(convert(main, list(doc), scratch, len(calls)))
            for _ in range(ctx.pick(1500, 15000)):
                keys = [KEYS[i] for i in rng.permutation(len(KEYS))[:int(rng.integers(1, 6))]]
                calls.append(convert(main, random_doc(rng, int(rng.integers(1, 40)), keys), scratch, len(calls)))
        for _ in range(ctx.pick(30, 300) if main is not None else ctx.pick(400, 2000)):
            calls.append(convert(None, random_doc(rng, int(rng.integers(1, 20)), list(KEYS)), scratch, len(calls)))
        calls += pages()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    scens = [{"calls": calls[k:k + 20]} for k in range(0, len(calls), 20)]
    fails, results = tlc.validate("WebTexTrace", scens, lambda s: len(s["calls"]))
    ctx.validated("WebTexTrace", len(calls), results)
    for f in fails:
        t = scens[f["sc"]]["calls"][f["l"] - 1]
        ctx.violation("+".join(f["fails"]), f"{t['kind']}: {', '.join(f['fails'])}", t)
    for s in scens[:: max(1, len(scens) // 3)]:
        ctx.sample({"call": s["calls"][0]})
