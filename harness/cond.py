"""P20: composed estimators, trace-validated against spec/Conditional.tla (CondTrace.tla)."""
import pickle

import numpy as np

from . import common, tlc
from .common import enc, fenc
from .est import DEFAULTS, burn, canon


# ------------------------------------------------------- the univariate forecaster
class Dist:
    def __init__(self, mean, std):
        self.mean, self.std = mean, std


class Forecaster:
    """Conditional.tla's SkStep as a skater: f(y, state) -> ([one step ahead, further ahead], state)."""

    def __init__(self, a, b):
        self.a, self.b, self.calls = a, b, []

    def __call__(self, y, state):
        self.calls.append(float(y))
        m, s = (0.0, 1.0) if state is None else state
        s = (1 - self.b) * s + self.b * (abs(y - m) + 0.125)
        m = (1 - self.a) * m + self.a * y
        return [Dist(m, s), Dist(m + 7.0, 3.0 * s + 5.0)], (m, s)


# ----------------------------------------------------------------- model descriptions
def spec_of(m):
    """The model as the specification sees it."""
    if m[0] == "est":
        return {"kind": "est", "cls": m[1], "prm": canon(m[1], m[2])}
    if m[0] == "skater":
        return {"kind": "skater", "a": enc(m[1]), "b": enc(m[2])}
    return {"kind": "cond", "vol": spec_of(m[1]), "corr": spec_of(m[2])}


def recorder(cls):
    """Subclass of a real estimator noting what each instance is fed."""
    log = []

    def partial_fit(self, X, y=None):
        A = np.array(X, dtype=float)
        if not hasattr(self, "_rid"):
            recorder.count += 1
            object.__setattr__(self, "_rid", recorder.count)
        for x in (A[None, :] if A.ndim == 1 else A):
            log.append({"id": self._rid, "v": fenc(x)})
        return cls.partial_fit(self, X)
    return type(cls.__name__, (cls,), {"partial_fit": partial_fit, "__init__": cls.__init__}), log


recorder.count = 0


def construct(m, logs, role):
    import precise
    if m[0] == "est":
        cls = getattr(precise, m[1])
        if logs is not None:
            cls, logs[role] = recorder(cls)
        return cls(**m[2])
    if m[0] == "skater":
        f = Forecaster(m[1], m[2])
        if logs is not None:
            logs["calls"] = f.calls
        return precise.from_skater(f)
    return precise.ConditionalCovariance(vol=construct(m[1], None, ""), corr=construct(m[2], None, ""))


def trained(proto):
    return hasattr(proto, "_rid") or getattr(proto, "n_samples_", 0) > 0


def show(m):
    if m[0] == "est":
        return f"{m[1]}({m[2]})"
    return f"skater{m[1:]}" if m[0] == "skater" else f"Cond({show(m[1])}, {show(m[2])})"


def reading(est):
    return {"n": int(est.n_samples_), "cov": fenc(est.covariance_), "corr": fenc(est.correlation_),
            "mean": fenc(est.location_)}


def record(vol, corr, X, mode, rng, watch, share=False):
    """One run of the real composition.  watch: recording sub-models."""
    import precise
    n, p = X.shape
    steps = [{"x": fenc(x)} for x in X]
    model = {"kind": "cond", "vol": spec_of(vol), "corr": spec_of(corr)}
    logs = {} if watch else None
    i = 0
    try:
        with common.limit(60):
            pv = construct(vol, logs, "vol")
            pc = pv if share else construct(corr, logs, "eps")
            if share:
                logs = None
            est = precise.ConditionalCovariance(vol=pv, corr=pc)
            twin = precise.ConditionalCovariance(vol=pv, corr=pc) if mode == "twin" else None
            if mode == "refit":
                est.partial_fit(np.arange(12.0).reshape(4, 3) ** 2)
                for v in (logs or {}).values():
                    del v[:]
            while i < n:
                if mode == "batches":
                    j = min(n, i + int(rng.integers(1, 6)))
                elif mode == "refit" and i == 0:
                    j = int(rng.integers(1, n + 1))
                else:
                    j = i + 1
                if mode == "refit" and i == 0:
                    est.fit(X[:j])
                elif j == i + 1:
                    est.partial_fit(X[i] if rng.random() < .7 else X[i:j])
                else:
                    est.partial_fit(X[i:j])
                if twin is not None:
                    keep = {k: list(v) for k, v in (logs or {}).items()}
                    twin.partial_fit(-3.0 * X[i] + 1.0)
                    for k, v in (logs or {}).items():
                        v[:] = keep[k]
                if mode == "pickle" and rng.random() < .3:
                    est = pickle.loads(pickle.dumps(est))
                if logs is not None:
                    for k in range(i, j):
                        a, b = k - i, j - i
                        for what, v in logs.items():
                            part = len(v) // b if len(v) % b == 0 else None
                            mine = v[a * part:(a + 1) * part] if part is not None else list(v)
                            steps[k][what] = ([{"id": e["id"], "v": e["v"]} for e in mine] if what == "vol" else
                                              [e["v"] for e in mine] if what == "eps" else fenc(mine))
                    for v in logs.values():
                        del v[:]
                steps[j - 1].update(reading(est))
                if isinstance(vol, tuple) and vol[0] != "skater":
                    steps[j - 1]["trained"] = bool(trained(pv) or trained(pc))
                else:
                    steps[j - 1]["trained"] = bool(trained(pc))
                i = j
    except Exception as ex:
        steps[min(i, n - 1)]["err"] = common.errname(ex)
    return {"model": model, "p": int(p), "steps": steps,
            "label": f"ConditionalCovariance(vol={show(vol)}, corr={show(corr)}) {mode}"
                     f"{' recorded' if watch else ''}{' shared prototype' if share else ''} n={n}"}


def stream(rng, n, p, kind, scale):
    X = common.rows(rng, n, p, kind, scale)
    X[0] += scale * 0.37 * np.arange(p)          # distinct values in the first row
    while len(set(X[0])) < p:
        X[0] += scale * rng.normal(size=p)
    return X


def p20(ctx):
    rng = ctx.rng

    def e(cls, **kw):
        kw = dict(kw)
        if "n_blocks" in DEFAULTS[cls]:
            kw.setdefault("n_blocks", 2)
        return ("est", cls, kw)
    all_ = [c for c in DEFAULTS]
    rs = (0.3, 0.15)

    def any_(k):
        c = all_[k % len(all_)]
        return e(c, r=rs[(k // len(all_)) % 2]) if "r" in DEFAULTS[c] else e(c)
    ewa, dia = e("EwaCovariance", r=0.3), e("DiagonalCovariance", r=0.2)
    sk = ("skater", 0.25, 0.125)
    pairs = [(any_(k), ewa) for k in range(2 * len(all_))] + [(ewa, any_(k)) for k in range(2 * len(all_))]
    pairs += [(dia, any_(k)) for k in range(len(all_))] + [(sk, any_(k)) for k in range(len(all_))]
    pairs += [(any_(k), any_(5 * k + 3)) for k in range(len(all_))]
    pairs += [(sk, ("cond", ewa, e("LedoitWolfCovariance", r=0.3))), (("cond", ewa, ewa), ewa), (("cond", sk, ewa), dia),
              (e("EwaCovariance"), e("EwaCovariance"))]
    modes = ("rows", "batches", "refit", "pickle", "twin")
    scens = []
    for rep in range(ctx.pick(8, 40)):
        for k, (v, c) in enumerate(pairs):
            p = int(rng.integers(1, 5))
            n = int(rng.integers(8, 22)) if rep % 4 else int(rng.integers(22, 40))
            nested = "cond" in (v[0], c[0])
            watch = not nested and rng.random() < .6
            ms = modes if not watch else ("rows", "batches", "refit", "twin")
            X = stream(rng, n, p, ("gauss", "jump", "heavy", "outlier")[int(rng.integers(4))], (1.0, 0.01, 100.0)[int(rng.integers(3))])
            scens.append(record(v, c, X, ms[int(rng.integers(len(ms)))], rng, watch))
    for k in range(ctx.pick(6, 40)):           # one object in both roles
        v = any_(3 * k + 1)
        X = stream(rng, 16, 3, "gauss", 1.0)
        scens.append(record(v, v, X, modes[k % 5], rng, False, share=True))
    for k, (v, c) in enumerate([(ewa, dia), (sk, ewa), (dia, e("LedoitWolfCovariance", r=0.3))]):     # long, and wide
        scens.append(record(v, c, stream(rng, 700, 2, "gauss", 1.0), modes[k % 2], rng, False))
        scens.append(record(v, c, stream(rng, 14, 9 + k, "gauss", 1.0), "rows", rng, k == 0))
    fails, results = tlc.validate("CondTrace", scens, lambda s: len(s["steps"]), heap="8g")
    ctx.validated("CondTrace", len(scens), results)
    ctx.counts["readings_compared"] = sum(1 for s in scens for t in s["steps"] if "n" in t)
    ctx.counts["readings_unconstrained"] = sum(len(r.marked("SKIP")) for r in results)
    for f in fails:
        s = scens[f["sc"]]
        ctx.violation(f"ConditionalCovariance:{'+'.join(f['fails'])}", f"{s['label']} at row {f['l']}: {', '.join(f['fails'])}",
                      {"model": s["model"], "steps": s["steps"][:f["l"]]})
    for s in scens[:: max(1, len(scens) // 4)]:
        ctx.sample({"run": s["label"], "p": s["p"]})
