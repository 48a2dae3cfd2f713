"""P39: histories of processes (spec/ProcGen.tla) replayed in real interpreters (proc_server.py), judged by spec/ProcTrace.tla."""
import json, os, pkgutil, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

from . import common, tlc
from .est import DEFAULTS

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PRECISE_REPO", "/repo")
CLASSES = [*DEFAULTS, "ConditionalCovariance"]
JUDGES = ["LogLikelihood", "BlockPseudoLikelihood", "SchurLikelihood", "SteinLoss", "FrobeniusToTruth", "GMVVariance", "VariogramScore"]
FEATURES = [f"{k}:{c}" for c in CLASSES for k in ("est", "var")] + [f"judge:{j}" for j in JUDGES] + [
    *(f"{k}:{c}" for k in ("fixed", "dynamic") for c in ("", "BlockCovariance", "FactorCovariance", "SchurCovariance", "TylerCovariance")),
    "frame:fixed", "frame:dynamic", "skater:", "suggest:", "features:", "registry:", "reject:"]
STATELESS = {"ConditionalCovariance"}          # no state dictionary; pickles only
GO_ON = 4


def modules():
    """Every module of the package but the removed ones."""
    out = ["precise"]
    for m in pkgutil.walk_packages([os.path.join(REPO, "precise")], "precise.", onerror=lambda _: None):
        if not m.name.startswith("precise.skaters"):
            out.append(m.name)
    return sorted(set(out))


def q(xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"


ENVS = "Envs"


def generate(ctx, depth, feats, mods, classes, hows, num=None, seed=None, envs=ENVS, what=""):
    d = tempfile.mkdtemp(prefix="pg-")
    try:
        with open(os.path.join(d, "ProcGenB.tla"), "w") as f:
            f.write(f"---- MODULE ProcGenB ----\nEXTENDS ProcGen\nF == {q(feats)}\nM == {q(mods)}\nC == {q(classes)}\nH == {q(hows)}\nE == {envs}\n====\n")
        cfg = (f"SPECIFICATION Spec\nCONSTANTS\n Depth = {depth}\n Features <- F\n Modules <- M\n Classes <- C\n Hows <- H\n Chunks = {GO_ON}\n EnvSet <- E\n"
               "CHECK_DEADLOCK FALSE\nINVARIANTS Isolated Bare Blocked Ordered" + (" Emit" if num else "") + "\n")
        if num is None:
            r = tlc.run("ProcGenB", cfg_text=cfg, moddir=d)
            ctx.model(what, r, "every history of this length: Isolated Bare Blocked Ordered")
        else:
            r = tlc.run("ProcGenB", cfg_text=cfg, workers=1, moddir=d, args=("-simulate", f"num={num}", "-depth", str(depth + 2), "-seed", str(seed)))
        return [b["acts"] for b in r.marked("BEH")]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def process(env, acts, scratch, cwd, seed):
    """One interpreter; what it reports."""
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(PYTHONHASHSEED=str([0, 1, 4242][env["hash"]]), PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
    todo = [{**a, "path": os.path.join(scratch, f"{a['c']}.{a['how']}")} if a["op"] == "go" else a for a in acts]
    plan = {"env": {"blocked": sorted(env["blocked"]), "rng": env["rng"]}, "dir": cwd[env["dir"]], "seed": seed, "acts": todo}
    cmd = [sys.executable] + (["-O"] if env["opt"] else []) + [os.path.join(HERE, "proc_server.py")]
    try:
        r = subprocess.run(cmd, input=json.dumps(plan), capture_output=True, text=True, env=e, timeout=300)
    except subprocess.TimeoutExpired:
        return [{"outcome": "no_answer", "loaded": [], "changed": [], "printed": False, "val": [], "names": [], "val2": [], "names2": []} for _ in acts]
    try:
        return json.loads(r.stdout)
    except ValueError:
        if "proc_server" in r.stderr and f"{REPO}/" not in r.stderr:
            raise tlc.Machinery("proc_server failed:\n" + r.stderr[-1500:])
        return [{"outcome": "process_died", "loaded": [], "changed": [], "printed": False, "why": r.stderr[-300:]} for _ in acts]


def replay(acts, seed):
    """The history with what happened added to every event."""
    scratch = tempfile.mkdtemp(prefix="proc-")
    try:
        cwd = [os.path.join(scratch, x) for x in ("here", "there")]
        for x in cwd:
            os.mkdir(x)
        out, i = [], 0
        while i < len(acts):
            j = i + 1
            while j < len(acts) and acts[j]["op"] != "start":
                j += 1
            out.append(acts[i])
            if j > i + 1:
                got = process(acts[i]["env"], acts[i + 1:j], scratch, cwd, seed)
                for a, g in zip(acts[i + 1:j], got):
                    base = {"val": [], "names": [], "val2": [], "names2": []}
                    out.append({**a, **base, **g})
            i = j
        return {"acts": out}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


PLAIN = {"blocked": [], "hash": 0, "rng": 0, "opt": 0, "dir": 0}


def p39(ctx):
    rng = ctx.rng
    small = "{[blocked |-> {}, hash |-> 0, rng |-> 0, opt |-> 0, dir |-> 0], [blocked |-> Optional, hash |-> 1, rng |-> 1, opt |-> 0, dir |-> 0]}"
    generate(ctx, ctx.pick(5, 6), ["frame:fixed", "est:EwaCovariance"], ["precise"], ["EwaCovariance"], ["pickle"], envs=small,
             what="ProcGen, two features, one class, two environments")
    mods = modules()
    hows = [(c, h) for c in CLASSES for h in ("pickle", "state") if not (h == "state" and c in STATELESS)]
    # each answer in a process of its own
    refs = [[{"op": "start", "env": PLAIN}, {"op": "use", "f": f}] for f in FEATURES]
    refs += [[{"op": "start", "env": PLAIN}] + [{"op": "go", "c": c, "how": "pickle", "k": k} for k in range(1, GO_ON + 1)] for c in CLASSES]
    # every feature alone where nothing optional is installed, under another hash seed and without assertions
    bare = [[{"op": "start", "env": {"blocked": ["others", "pandas"], "hash": 1 + i % 2, "rng": i % 2, "opt": 1, "dir": 1}}, {"op": "use", "f": f}]
            for i, f in enumerate(FEATURES)]
    firsts = [[{"op": "start", "env": {**PLAIN, "blocked": ["others", "pandas"]}}, {"op": "import", "m": m}] for m in mods]
    # every class from process to process
    walks = []
    for c, h in hows:
        w = []
        for k in range(1, GO_ON + 1):
            w += [{"op": "start", "env": {"blocked": ["others", "pandas"] if k % 2 else [], "hash": k % 3, "rng": k % 2, "opt": int(k == 3), "dir": 0}},
                  {"op": "go", "c": c, "how": h, "k": k}]
        walks.append(w)
    pick = [CLASSES[int(i)] for i in rng.choice(len(CLASSES), size=4, replace=False)]
    histories = []
    for k in range(ctx.pick(4, 16)):
        feats = [FEATURES[int(i)] for i in rng.choice(len(FEATURES), size=12, replace=False)] + ["frame:fixed", "dynamic:"]
        histories += generate(ctx, ctx.pick(14, 22), feats, mods, [c for c in pick if c not in STATELESS], ["pickle", "state"],
                              num=ctx.pick(25, 120), seed=ctx.seed * 100 + k)
    ctx.counts["simulated_histories"] = len(histories)
    todo = refs + bare + firsts + walks + histories
    seed = int(rng.integers(1 << 20))
    with ThreadPoolExecutor(8) as ex:
        scens = list(ex.map(lambda a: replay(a, seed), todo))
    ref = {}
    for s in scens[:len(refs)]:
        for e in s["acts"][1:]:
            if e["outcome"] == "ok":
                ref[e["f"] if e["op"] == "use" else f"{e['c']}@{e['k']}"] = {"val": e["val"], "names": e["names"]}
    fd, path = tempfile.mkstemp(suffix=".json", prefix="ref-")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(ref, f)
        fails, results = tlc.validate("ProcTrace", scens, lambda s: len(s["acts"]), env0={"REF": path})
    finally:
        os.unlink(path)
    ctx.validated("ProcTrace", len(scens), results)
    ctx.counts["reference_answers"] = len(ref)
    for f in fails:
        acts = scens[f["sc"]]["acts"]
        e = acts[f["l"] - 1]
        what = e.get("f") or e.get("c") or e.get("m")
        start = next(a["env"] for a in reversed(acts[:f["l"]]) if a["op"] == "start")
        ctx.violation("+".join(f["fails"]), f"{e['op']} {what} in {start}: {', '.join(f['fails'])} {e.get('why', '')} {e.get('packages', '')}",
                      {"history": [{k: v for k, v in a.items() if k not in ("val", "names", "val2", "names2")} for a in acts[:f["l"]]],
                       "answer": {k: e.get(k) for k in ("val", "names")}})
    ctx.sample({"history": [{k: v for k, v in a.items() if k not in ("val", "names", "val2", "names2")} for a in scens[-1]["acts"][:8]]})
