"""P21: equivariance of the real estimators, pairs of runs judged by spec/EquivTrace.tla."""
import numpy as np

from . import common, tlc
from .common import fenc
from .est import DEFAULTS, build, burn, canon, spread, tyler_rows
from .cond import construct

BLOCK = ("BlockCovariance", "SchurCovariance", "SchurConditionalCovariance", "SchurLedoitWolfCovariance")
ZERO_START = ("DiagonalCovariance", "PartialMomentsCovariance", "TylerCovariance", "DCCCovariance", "FactorCovariance")
NOT_SCALE_FREE = BLOCK + ("GeodesicEwaCovariance", "FactorCovariance")
PROMISE = {"relabel": [c for c in DEFAULTS if c not in BLOCK],
           "rescale": [c for c in DEFAULTS if c not in NOT_SCALE_FREE],
           "shift": [c for c in DEFAULTS if c not in ZERO_START],
           "affine": ["EmpiricalCovariance", "EwaCovariance", "HuberCovariance", "AdaptiveEwaCovariance"]}


def settings(cls):
    base = [{}]
    if "r" in DEFAULTS[cls]:
        base = [{"r": 0.3}, {"r": 0.12}, {}]
    if "n_blocks" in DEFAULTS[cls]:
        base = [{**b, "n_blocks": nb} for b in base[:2] for nb in (2, 3)]
    if cls == "ShrunkCovariance":
        base = [{"r": 0.3, "delta": 0.4, "target": t} for t in ("identity", "constant_correlation")]
    if cls == "SchurCovariance":
        base += [{"r": 0.3, "n_blocks": 2, "gamma": 0.7, "interpolation": "geodesic"}]
    if cls == "HuberCovariance":
        base += [{"r": 0.3, "c": 0.7}]
    if cls == "DCCCovariance":
        base += [{"r": 0.3, "vol_r": 0.5}]
    if cls == "FactorCovariance":
        base += [{"k": 1, "r": 0.3}, {"k": 3, "r": 0.15}]
    return base


ABSOLUTE_FLOORS = ("TylerCovariance", "DCCCovariance")   # variances below 1e-12 are floored


def transform(kind, cls, p, rng):
    A, b = np.eye(p), np.zeros(p)
    if kind == "relabel":
        A = np.eye(p)[rng.permutation(p)]
    elif kind == "rescale":
        far = [1e4, 1e6, 1e-4] if cls in ABSOLUTE_FLOORS else [1e-4, 1e-5, 1e-6, 1e-9, 1e5, 1e8]
        A = A * float(rng.choice([2.0, 0.5, 3.0, 100.0, 1e-3] if rng.random() < .4 else far))
    elif kind == "shift":
        b = np.round(rng.normal(size=p) * float(rng.choice([1.0, 10.0, 300.0])), 2)
    else:
        while True:
            A = np.round(rng.normal(size=(p, p)), 2)
            if np.linalg.cond(A) < 25:
                break
        b = np.round(rng.normal(size=p) * 2, 2)
    return A, b


def p21(ctx):
    rng = ctx.rng
    r = tlc.run("EquivMC", cfg_text="SPECIFICATION Spec\nVIEW View\nCONSTANT Depth = %d\nINVARIANT Kept\nCHECK_DEADLOCK FALSE\n"
                % ctx.pick(6, 8))
    ctx.model("EquivMC", r, "the specification's own equivariance: every method, transformation kind and stream over 3 rows")
    scens, rows_of = [], []
    for rep in range(ctx.pick(8, 40)):
        for kind, classes in PROMISE.items():
            for cls in classes:
                for kw in settings(cls):
                    p = int(rng.integers(1, 5)) if kind != "relabel" else int(rng.integers(2, 6))
                    rr = kw.get("r", DEFAULTS[cls].get("r", 0.2))
                    n = burn(rr) + int(rng.integers(3, 20))
                    geo = cls == "GeodesicEwaCovariance" or kw.get("interpolation") == "geodesic"
                    p = min(p, 3) if geo else p          # its floor of 1e-8 meets rounding error sooner
                    A, b = transform(kind, cls, p, rng)
                    if geo:
                        b = b / 10.0
                    if cls == "TylerCovariance":
                        X = tyler_rows(rng, n, p, "heavy", 1.0)
                    else:
                        X = common.rows(rng, n, p, "gauss" if geo else ("gauss", "jump", "outlier", "heavy")[rep % 4], 1.0, (0.0, 3.0)[rep % 2])
                    Y = X @ A.T + b
                    reads = set(spread(n, 14))
                    obs = [[] for _ in range(n)]
                    i = 0
                    try:
                        with common.limit(60):
                            one, two = build(cls, kw), build(cls, kw)
                            for i in range(n):
                                one.partial_fit(X[i])
                                two.partial_fit(Y[i])
                                if i + 1 in reads:
                                    obs[i] = {"cov": fenc(one.covariance_), "mean": fenc(one.location_),
                                              "cov2": fenc(two.covariance_), "mean2": fenc(two.location_)}
                    except Exception as ex:
                        obs[i] = {"err": common.errname(ex)}
                    scens.append({"cls": cls, "prm": canon(cls, kw), "p": p, "kind": kind, "A": fenc(A), "b": fenc(b),
                                  "rows": fenc(X), "obs": obs, "tol": "1e-2" if geo else "1e-6", "label": f"{cls}({kw}) {kind} p={p} n={n}"})
    fails, results = tlc.validate("EquivTrace", scens, lambda s: len(s["rows"]), heap="8g")
    ctx.validated("EquivTrace", len(scens), results)
    ctx.counts["pairs_of_readings_compared"] = sum(1 for s in scens for o in s["obs"] if o)
    ctx.counts["readings_unconstrained"] = sum(len(r.marked("SKIP")) for r in results)
    for f in fails:
        s = scens[f["sc"]]
        ctx.violation(f"{s['cls']}:{'+'.join(f['fails'])}", f"{s['label']} at row {f['l']}: {', '.join(f['fails'])}",
                      {k: s[k] for k in ("cls", "prm", "kind", "A", "b")} | {"rows": s["rows"][:f["l"]], "obs": s["obs"][f["l"] - 1]})
    for s in scens[:: max(1, len(scens) // 4)]:
        ctx.sample({"pair": s["label"]})
