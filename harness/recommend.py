"""P30, P31: recorded calls of covariance_features and suggest, judged by spec/RecommendTrace.tla."""
import json, os

import numpy as np

from . import common, tlc
from .common import enc, fenc

TREE = {"TREE": os.path.join(tlc.SPEC, "tree.json")}


def window(rng, big=False):
    """A data window of a random shape, structure, tail and scale."""
    if big:
        p = int(rng.choice([1, 2, 5, 10, 15, 15, 20, 25, 30, 40, 50, 60]))
        n = max(int(p * rng.choice([0.3, 0.5, 0.8, 1.0, 1.5, 2.0, 3.0, 6.0])), int(rng.choice([1, 3, 10])))
    else:
        p = int(rng.integers(1, 7))
        n = int(rng.choice([1, 2, 3, 4, 6, 9, 14, 25]))
    k = int(rng.integers(7))
    if k == 0:
        A = np.eye(p)
    elif k == 1:
        A = np.diag(np.sqrt(rng.uniform(0.1, 5.0, p)))
    elif k == 2:
        A = np.linalg.cholesky(0.6 * np.ones((p, p)) + 0.4 * np.eye(p))
    elif k == 3:
        f = int(rng.integers(1, 4))
        B = rng.normal(size=(p, f))
        A = np.linalg.cholesky(B @ B.T + np.diag(rng.uniform(0.05, 1.0, p)))
    elif k == 4:
        i = np.arange(p)
        A = np.linalg.cholesky(float(rng.choice([0.3, 0.7, 0.95])) ** np.abs(i[:, None] - i[None, :]))
    elif k == 5:
        A = np.linalg.cholesky(common.spd(rng, p, 10.0 ** rng.uniform(0, 3)))
    else:
        q, _ = np.linalg.qr(rng.normal(size=(p, p)))
        A = q * np.sqrt(np.concatenate([rng.uniform(8, 15, min(p, 3)), np.full(max(p - 3, 0), 0.4)]))
    z = rng.normal(size=(n, p))
    t = rng.random()
    if t < .35:
        z = z * np.sqrt(5 / rng.chisquare(float(rng.choice([3, 5])), size=(n, 1)))
    elif t < .5:
        z = rng.uniform(-1.7, 1.7, size=(n, p))
    elif t < .6:
        z[rng.integers(0, n)] *= 30.0
    X = z @ A.T
    u = rng.random()
    if not big:
        if u < .12:
            X[:, int(rng.integers(p))] = 0.75                        # a constant column
        elif u < .24 and p > 1:
            i, j = rng.permutation(p)[:2]
            X[:, i] = -2.0 * X[:, j]                                 # rank deficient
        elif u < .3:
            X = np.round(X)                                          # ties
        X = X * float(rng.choice([1.0, 1.0, 1.0, 10.0, 1e-2, 1e-4]))
        if rng.random() < .2:
            X = X + float(rng.choice([1.0, -3.0]))
    elif u < .25:
        X = X * float(rng.choice([10.0, 0.02]))
    return np.ascontiguousarray(np.round(X, 6))


def directed(rng, p, n):
    """A window whose population covariance has a chosen spectrum, with a chosen heaviness of tails."""
    z = rng.normal(size=(n, p)) * np.exp(rng.normal(size=(n, 1)) * float(rng.choice([0.0, 0.2, 0.4, 0.6])))
    z -= z.mean(axis=0)
    q, _ = np.linalg.qr(z)
    k = int(rng.integers(4))
    ev = np.ones(p)
    if k == 0:
        ev[0] = 1 / rng.uniform(1, 120)                 # nearly flat but for one small eigenvalue
    elif k == 1:
        ev[0] = rng.uniform(1, 6)                       # one spike: sphericity about 0.6
    elif k == 2:
        ev = rng.uniform(0.2, 3.0, p)
    u, _ = np.linalg.qr(rng.normal(size=(p, p))) if rng.random() < .5 else (np.eye(p), 0)
    return (q * np.sqrt(ev * n)) @ u.T


def edges(rng, count, steps=26):
    """Pairs of windows on the two sides of a change of the code's own ranking, found by bisection along a path."""
    from precise import suggest
    for _ in range(count):
        if rng.random() < .5:
            p = int(rng.integers(3, 10))
            n = 4 * p + int(rng.integers(0, 3 * p))
            A, B = directed(rng, p, n), directed(rng, p, n)
        else:
            A = window(rng, big=True)
            B = window(rng, big=True)
            n, p = min(len(A), len(B)), min(A.shape[1], B.shape[1])
            A, B = A[:n, :p], B[:n, :p]
        names = lambda X: [c.__name__ for c in suggest(X, top=17)]  # noqa: E731
        lo, hi = 0.0, 1.0
        a, b = names(A), names(B)
        if a == b:
            continue
        for _ in range(steps):
            mid = (lo + hi) / 2
            m = names((1 - mid) * A + mid * B)
            if m == a:
                lo = mid
            else:
                hi, b = mid, m
        yield (1 - lo) * A + lo * B
        yield (1 - hi) * A + hi * B


def features(X):
    from precise import covariance_features
    a = X.copy()
    with common.limit(20):
        f = covariance_features(a)
    return f, np.array_equal(a, X)


def call(kind, fn, **base):
    t = {"kind": kind, **base}
    try:
        t.update(fn())
    except Exception as ex:
        t["err"] = common.errname(ex)
    return t


def judge(ctx, scens, what):
    fails, results = tlc.validate("RecommendTrace", scens, lambda s: len(s["calls"]), env0=TREE)
    ctx.validated("RecommendTrace", len(scens), results)
    ctx.counts[what] = sum(len(s["calls"]) for s in scens)
    for f in fails:
        t = scens[f["sc"]]["calls"][f["l"] - 1]
        ctx.violation("+".join(f["fails"]), f"{t['kind']}: {', '.join(f['fails'])}", t)
    return results


def model(ctx):
    invs = "InTree TotalOrder Invariant CountsAddUp"
    r = tlc.run("RecommendMC", env=TREE, cfg_text=f"SPECIFICATION Spec\nCONSTANT NRows = {ctx.pick(4, 6)}\nINVARIANTS {invs}\nCHECK_DEADLOCK FALSE\n")
    ctx.model("RecommendMC", r, "every leaf of the tree under every rule outcome; features of every small integer window: " + invs)


def p30(ctx):
    rng = ctx.rng
    model(ctx)
    scens = []
    for i in range(ctx.pick(500, 6000)):
        X = window(rng)
        n, p = X.shape

        def direct(Y, kind="features"):
            f, kept = features(Y)
            return {"got": enc(f), "kept": kept, "mag": enc(float(np.abs(Y).max()))}
        calls = [call("features", lambda: direct(X), X=fenc(X))]

        def pair(law, Y, tol, cond):
            def go():
                a, k1 = features(X)
                b, k2 = features(Y)
                return {"a": enc(a), "b": enc(b), "kept": k1 and k2}
            return call("same", go, law=law, tol=enc(tol), cond=cond, X=fenc(X))
        S = np.atleast_2d(np.cov(X, rowvar=False, bias=True))
        ev = np.linalg.eigvalsh(S)
        mag = float(np.abs(X).max())
        if ev[0] > 1e-6 * ev[-1] and ev[0] > 1e-8:
            calls += [pair("row_order", X[rng.permutation(n)], 1e-7, True),
                      pair("column_order", X[:, rng.permutation(p)], 1e-7, True),
                      pair("shift", X + np.round(rng.normal(size=p) * max(mag, 1), 3), 1e-5, True),
                      pair("rescale", X * float(rng.choice([2.0, 0.5, 7.0, -3.0])), 1e-6, True),
                      pair("again", X, 0.0, True)]
        scens.append({"calls": calls})
    judge(ctx, scens, "calls_judged")
    ctx.sample({"X": scens[0]["calls"][0]["X"][:2], "got": scens[0]["calls"][0].get("got")})


def p31(ctx):
    import precise
    from precise import covariance_features, suggest, all_estimators
    rng = ctx.rng
    model(ctx)
    exported(ctx)
    scens = []
    stream = [window(rng, big=rng.random() < .8) for _ in range(ctx.pick(700, 10000))]
    near = list(edges(rng, ctx.pick(250, 4000)))
    ctx.counts["windows_at_a_change_of_ranking"] = len(near)
    for X in stream + near:

        def go(top, X=X):
            a = X.copy()
            with common.limit(30):
                got = suggest(a, top=top) if top != 3 or rng.random() < .5 else suggest(a)
                f = covariance_features(X)
                again = suggest(X, top=top)
            return {"got": [c.__name__ for c in got], "again": [c.__name__ for c in again], "f": enc(f), "top": top,
                    "classes": all(any(c is e for e in all_estimators()) for c in got), "kept": bool(np.array_equal(a, X))}
        tops = [3, 17, int(rng.integers(1, 17))] if rng.random() < .3 else [int(rng.choice([1, 17, 20]))]
        scens.append({"calls": [call("suggest", lambda: go(t), shape=list(X.shape)) for t in tops]})
    results = judge(ctx, scens, "rankings_judged")
    leaves = {(m["leaf"], m["hard"], m["heavy"]) for r in results for m in r.marked("LEAF")}
    ctx.notes.append(f"leaves of the tree reached: {len({a for a, _, _ in leaves})} of "
                     f"{sum(1 for k in json.load(open(TREE['TREE']))['feature'] if k == -2)}; with rule outcomes: {len(leaves)}")
    ctx.sample({"leaf_and_rules_reached": sorted(map(str, leaves))[:6]})


EXPORT = """
import sys, json, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
import numpy as np
from sklearn.tree import DecisionTreeClassifier
import research.train_recommender as t
X, y, names = t.generate(n_problems=int(sys.argv[2]), seed=int(sys.argv[3]))
mean, std = X.mean(0), X.std(0) + 1e-9
clf = DecisionTreeClassifier(max_depth=5, min_samples_leaf=3, random_state=0).fit((X - mean) / std, y)
t.export(clf, mean, std)
import importlib.util
spec = importlib.util.spec_from_file_location("exported", sys.argv[1] + "/precise/_recommender_model.py")
m = importlib.util.module_from_spec(spec)
try:
    spec.loader.exec_module(m)
except Exception as ex:
    print(json.dumps({"err": type(ex).__name__ + ": " + str(ex)})); sys.exit(0)
tree = {"features": list(m.FEATURES), "mean": [repr(float(v)) for v in m.MEAN], "std": [repr(float(v)) for v in m.STD],
        "classes": list(m.CLASSES), "feature": list(m.FEATURE), "threshold": [repr(float(v)) for v in m.THRESHOLD],
        "left": list(m.LEFT), "right": list(m.RIGHT), "value": [list(v) for v in m.VALUE]}
print(json.dumps({"tree": tree, "x": [[float(v).hex() for v in r] for r in X], "y": [str(v) for v in y]}))
"""


def exported(ctx):
    """Train and export in a scratch copy of the package; the exported model is judged by ExportTrace.tla."""
    import importlib.util, shutil, subprocess, sys, tempfile
    if importlib.util.find_spec("sklearn") is None:
        ctx.notes.append("scikit-learn is not installed: the export was not exercised")
        return
    repo = os.environ.get("PRECISE_REPO", "/repo")
    for k in range(ctx.pick(1, 6)):
        d = tempfile.mkdtemp(prefix="export-")
        try:
            for sub in ("precise", "research"):
                shutil.copytree(os.path.join(repo, sub), os.path.join(d, sub),
                                ignore=shutil.ignore_patterns("__pycache__", "data", "legacy*"))
            r = subprocess.run([sys.executable, "-c", EXPORT, d, str(ctx.pick(70, 250)), str(ctx.seed * 100 + k)],
                               capture_output=True, text=True, timeout=400, cwd=d)
            if r.returncode:
                ctx.violation("export_raised", "training or export failed: " + r.stderr.strip().splitlines()[-1], {"stderr": r.stderr})
                continue
            out = json.loads(r.stdout.strip().splitlines()[-1])
            if "err" in out:
                ctx.violation("exported_model_does_not_load", out["err"], out)
                continue
            with open(os.path.join(d, "tree.json"), "w") as f:
                json.dump(out.pop("tree"), f)
            with open(os.path.join(d, "run.json"), "w") as f:
                json.dump(out, f)
            res = tlc.run("ExportTrace", env={"TREE": f.name.replace("run.json", "tree.json"), "TRACE": f.name},
                          cfg_text="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
            if res.distinct != len(out["x"]) + 2:
                raise tlc.Machinery(f"ExportTrace: {res.distinct} states for {len(out['x'])} problems")
            ctx.validated("ExportTrace", 1, [res])
            for m in res.marked("FAIL"):
                ctx.violation("export:" + "+".join(m["fails"]), f"exported model: {', '.join(m['fails'])}",
                              {"problems": len(out["x"]), "seed": ctx.seed * 100 + k})
        finally:
            shutil.rmtree(d, ignore_errors=True)


def golden():
    """The shipped model in the form of spec/tree.json."""
    from precise import _recommender_model as m
    return {"features": list(m.FEATURES), "mean": [repr(v) for v in m.MEAN], "std": [repr(v) for v in m.STD],
            "classes": list(m.CLASSES), "feature": list(m.FEATURE), "threshold": [repr(v) for v in m.THRESHOLD],
            "left": list(m.LEFT), "right": list(m.RIGHT), "value": [list(v) for v in m.VALUE]}


