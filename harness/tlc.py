"""Running TLC: compile the arithmetic overrides, run a model, read its statistics."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JAVA = os.path.join(ROOT, "java")
TLA = "/opt/veriftools/tla"
JARS = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"


class Machinery(Exception):
    """The checking machinery itself failed (exit 2), which says nothing about the code."""


def classes():
    """Directory of compiled overrides (built once per source digest)."""
    h = hashlib.sha256()
    srcs = sorted(f for f in os.listdir(JAVA) if f.endswith(".java"))
    for f in srcs:
        h.update(open(os.path.join(JAVA, f), "rb").read())
    out = os.path.join(ROOT, "build", "classes-" + h.hexdigest()[:12])
    if not os.path.isdir(out):
        os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.join(ROOT, "build"))
        r = subprocess.run(["javac", "-d", tmp, "-cp", JARS] + [os.path.join(JAVA, f) for f in srcs],
                           capture_output=True, text=True)
        if r.returncode:
            raise Machinery("javac failed:\n" + r.stderr)
        try:
            os.rename(tmp, out)
        except OSError:            # someone else built it meanwhile
            shutil.rmtree(tmp, ignore_errors=True)
    return out


class Result:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        self.generated, self.distinct, self.left = map(int, m[-1]) if m else (0, 0, -1)
        self.ok = "No error has been found" in out
        self.marks = [ln for ln in out.splitlines() if ln.startswith('"@@')]

    def marked(self, tag):
        """JSON payloads printed as  @@TAG {...}."""
        out = []
        for ln in self.marks:
            s = json.loads(ln)          # TLC prints strings quoted with \\ escapes
            if s.startswith("@@" + tag + " "):
                out.append(json.loads(s[len(tag) + 3:]))
        return out

    def error(self):
        i = self.out.find("Error:")
        return self.out[i:i + 3000] if i >= 0 else self.out[-3000:]


def run(module, cfg=None, env=None, workers=8, args=(), timeout=850, heap="4g", moddir=None, cfg_text=None,
        check=True):
    """Run TLC on spec/<module>.tla; returns a Result (raises Machinery on a TLC failure)."""
    work = tempfile.mkdtemp(prefix="tlc-")
    try:
        if cfg_text is not None:
            cfg = os.path.join(work, "model.cfg")
            open(cfg, "w").write(cfg_text)
        elif cfg is None:
            cfg = os.path.join(SPEC, module + ".cfg")
        elif not os.path.isabs(cfg):
            cfg = os.path.join(SPEC, cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + work,
               "-cp", f"{JARS}:{classes()}:{SPEC}", "tlc2.TLC", "-config", cfg, "-metadir",
               os.path.join(work, "meta"), "-nowarning", "-noGenerateSpecTE", "-workers", str(workers), *args,
               os.path.join(moddir or SPEC, module + ".tla")]
        t = time.time()
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=work, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery(f"TLC timed out on {module}")
        out = "\n".join(ln for ln in r.stdout.splitlines()
                        if not ln.startswith(("Parsing ", "Semantic ", "Linting ", "Loading ")))
        res = Result(out, r.returncode, time.time() - t)
        if check and not res.ok and "-simulate" not in args:
            raise Machinery(f"TLC did not complete {module}:\n{res.error()}\n{r.stderr[-500:]}")
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


def unreadable(res, part, steps):
    """The (1-based) scenario and step at which evaluating the trace specification failed, if that is what stopped TLC."""
    if "OutOfMemory" in res.out or "StackOverflow" in res.out or "Attempted to" not in res.out:
        return None
    sc, l = re.findall(r"^/\\ sc = (\d+)$", res.out, re.M), re.findall(r"^/\\ l = (\d+)$", res.out, re.M)
    if not sc or not l:
        return None
    sc, l = int(sc[-1]), int(l[-1])
    return (sc, l) if 1 <= sc <= len(part) and 1 <= l <= steps(part[sc - 1]) else None


def validate(module, scenarios, steps, chunks=1, env0=None, **kw):
    """Validate recorded scenarios with a trace specification.

    Every scenario must be consumed to its end: the number of distinct states (the view is
    <<scenario, position>>) has to equal the sum of steps(s) + 1.  Returns (failures, Result list)
    where a failure is {"sc": 0-based index, "l": 1-based step, "fails": [...]}."""
    if not scenarios:
        raise Machinery(f"no scenarios for {module}")
    fails, results = [], []
    chunks = max(chunks, -(-len(scenarios) // 4000))     # TLC cannot spill states holding reals to disk
    size = -(-len(scenarios) // chunks)
    for lo in range(0, len(scenarios), size):
        part = scenarios[lo:lo + size]
        fd, path = tempfile.mkstemp(suffix=".json", prefix="trace-")
        try:
            with os.fdopen(fd, "w") as f:
                json.dump(part, f)
            res = run(module, env={**(env0 or {}), "TRACE": path}, check=False, **kw)
        finally:
            os.unlink(path)
        if not res.ok:
            stuck = unreadable(res, part, steps)
            if stuck is None:
                raise Machinery(f"TLC did not complete {module}:\n{res.error()}")
            # a recording the specification cannot even be evaluated on is not one of its behaviours
            fails += [{"sc": lo + f["sc"] - 1, "l": f["l"], "fails": f["fails"]} for f in res.marked("FAIL")] + [
                {"sc": lo + stuck[0] - 1, "l": stuck[1], "fails": ["recording_outside_the_specification"]}]
            results.append(res)
            continue
        want = sum(steps(s) + 1 for s in part)
        if res.distinct != want:
            raise Machinery(f"{module}: {res.distinct} states for {want} trace positions\n{res.error()}")
        for f in res.marked("FAIL"):
            fails.append({"sc": lo + f["sc"] - 1, "l": f["l"], "fails": f["fails"]})
        results.append(res)
    fails.sort(key=lambda f: (f["sc"], f["l"]))
    return fails, results
