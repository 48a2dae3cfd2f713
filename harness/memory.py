"""P22: sizes of saved states along long streams, judged by spec/MemTrace.tla."""
import gc, numbers, pickle, types, weakref

import numpy as np

from . import common, tlc
from .cond import Forecaster
from .est import DEFAULTS, build, canon


def scalars(v):
    if isinstance(v, dict):
        return sum(scalars(x) for x in v.values())
    if isinstance(v, (list, tuple, set, frozenset)):
        return sum(scalars(x) for x in v)
    if isinstance(v, np.ndarray):
        return int(v.size)
    if isinstance(v, numbers.Number):
        return 1
    return 0


def reach(obj, skip=()):
    """Numbers reachable from an object (its own attributes, containers and sub-objects)."""
    seen, todo, n = {id(s) for s in skip}, [obj], 0
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType,
                                           types.MethodType, str, bytes)):
            continue
        seen.add(id(o))
        if isinstance(o, np.ndarray):
            n += int(o.size)
            if o.base is not None:
                todo.append(o.base)
            if o.dtype == object:
                todo.extend(o.ravel().tolist())
        elif isinstance(o, numbers.Number):
            n += 1
        elif isinstance(o, dict):
            todo.extend(o.keys())
            todo.extend(o.values())
        else:
            todo.extend(r for r in gc.get_referents(o))
    return n


def size(est):
    o = {"n": int(est.n_samples_), "pickle": len(pickle.dumps(est)), "reach": reach(est)}
    try:
        o["scalars"] = scalars(est.get_state())
    except NotImplementedError:
        pass
    return o


def watched(cls):
    """Subclass that lets the harness count which instances are alive and trained."""
    live = weakref.WeakSet()

    def init(self, *a, **k):
        cls.__init__(self, *a, **k)
        live.add(self)
    init.__signature__ = __import__("inspect").signature(cls.__init__)
    return type(cls.__name__, (cls,), {"__init__": init}), live


def p22(ctx):
    import precise
    rng = ctx.rng
    scens = []

    def run(label, s, make, p, marks, chunk):
        obs, last = [], 0
        try:
            with common.limit(200):
                est = make()
                A = np.linalg.cholesky(common.spd(rng, p, 20.0))
                for m in marks:
                    while last < m:
                        k = min(chunk, m - last)
                        X = rng.normal(size=(k, p)) @ A.T
                        if k == 1:
                            est.partial_fit(X[0])
                        else:
                            est.partial_fit(X)
                        last += k
                    obs.append(size(est))
        except Exception as ex:
            obs.append({"err": common.errname(ex)})
        scens.append({**s, "p": p, "obs": obs, "label": f"{label} p={p}"})

    settled = 300
    far = ctx.pick(2000, 20000)
    for cls in DEFAULTS:
        for kw in ([{"r": 0.05}, {"r": 0.3}] if "r" in DEFAULTS[cls] else [{}]):
            for p in ctx.pick((1, 3, 8, 20), (1, 2, 3, 5, 8, 13, 20, 30)):
                for nb in ((2, 4) if "n_blocks" in DEFAULTS[cls] else (None,)):
                    for k in ((1, 3) if cls == "FactorCovariance" else (None,)):
                        prm = dict(kw)
                        if nb:
                            prm["n_blocks"] = nb
                        if k:
                            prm["k"] = k
                        heavy = cls in ("GeodesicEwaCovariance", "TylerCovariance", "HuberCovariance", "AdaptiveEwaCovariance", "BlockCovariance")
                        end = far if p == 3 and not ctx.quick else (900 if heavy or ctx.quick and p != 3 else far)
                        run(f"{cls}({prm})", {"what": "estimator", "cls": cls, "prm": canon(cls, prm), "settled": settled, "slack": 64},
                            lambda: build(cls, prm, diff=bool(rng.random() < .3)), p, (1, 7, 60, 150, settled, 600, end), int(rng.choice([1, 50])))
    vols = ("EwaCovariance", "HuberCovariance", "DiagonalCovariance")
    for i, corr in enumerate(("EwaCovariance", "LedoitWolfCovariance", "FactorCovariance", "TylerCovariance", "DiagonalCovariance")):
        for vol in ("skater", vols[i % 3]):
            def make():
                v = precise.from_skater(Quiet(0.2, 0.1)) if vol == "skater" else getattr(precise, vol)(r=0.1)
                return precise.ConditionalCovariance(vol=v, corr=getattr(precise, corr)(r=0.1))
            run(f"ConditionalCovariance({vol},{corr})", {"what": "composed", "cls": "ConditionalCovariance", "prm": {"none": 0},
                                                       "settled": settled, "slack": 200}, make, 3, (1, 7, 60, settled, 600, 900), 1)
    # keyed adapters
    for rep in range(ctx.pick(6, 40)):
        cls = ("EwaCovariance", "EmpiricalCovariance", "LedoitWolfCovariance", "DiagonalCovariance")[rep % 4]
        sub, live = watched(getattr(precise, cls))
        maxu = int(rng.integers(1, 6))
        names = [chr(97 + i) for i in range(6)]
        dynamic = rep % 3 != 2
        obs, n, err = [], 0, None
        kw = {} if cls == "EmpiricalCovariance" else {"r": 0.1}
        try:
            with common.limit(100):
                proto = sub(**kw)
                ad = precise.keyed(proto, dynamic=True, max_universes=maxu, max_staleness=int(rng.choice([2, 10, 1000]))) if dynamic else \
                    precise.keyed(proto, dynamic=False, keys=names)
                for m in ctx.pick((1, 5, 30, 120, 300, 600, 1500), (1, 5, 30, 120, 300, 420, 600, 1500, 3000)):
                    while n < m:
                        sel = [k for k in names if rng.random() < .5] or ["a"]
                        ad.learn_one({k: float(rng.normal()) for k in sel})
                        n += 1
                        if rng.random() < .1:
                            ad.cov_array(sel)
                    gc.collect()
                    held = sum(1 for e in list(live) if e.n_samples_ > 0)
                    obs.append({"n": n, "universes": held, "reach": reach(ad)})
        except Exception as ex:
            obs.append({"err": common.errname(ex)})
        # any six name sets may be held at the settled mark and six larger ones later
        scens.append({"what": "adapter", "cls": cls, "prm": {"none": 0}, "p": 6, "max": maxu if dynamic else 1, "settled": settled,
                      "slack": 400 * maxu, "obs": obs, "label": f"{'Dynamic' if dynamic else 'Fixed'}Universe({cls}) max {maxu}"})
    fails, results = tlc.validate("MemTrace", scens, lambda s: len(s["obs"]))
    ctx.validated("MemTrace", len(scens), results)
    for f in fails:
        s = scens[f["sc"]]
        ctx.violation(f"{s['cls']}:{'+'.join(f['fails'])}", f"{s['label']}: {', '.join(f['fails'])} at {s['obs'][f['l'] - 1]}",
                      {"what": s["label"], "sizes": s["obs"]})
    for s in scens[:: max(1, len(scens) // 4)]:
        ctx.sample({"run": s["label"], "sizes": s["obs"][-1]})


class Quiet(Forecaster):
    """A forecaster that keeps no log."""

    def __call__(self, y, state):
        out = Forecaster.__call__(self, y, state)
        del self.calls[:]
        return out
