"""P09-P19: recorded runs of each estimator, validated against spec/Estimators.tla (EstTrace.tla)."""
import math

import numpy as np

from . import common, tlc
from .common import enc, fenc

DEFAULTS = {  # canonical parameter record of each class (every public parameter but diff)
    "EmpiricalCovariance": {}, "DiagonalCovariance": {"r": 0.05},
    "BlockCovariance": {"r": 0.05, "n_blocks": 4}, "EwaCovariance": {"r": 0.05},
    "AdaptiveEwaCovariance": {"r": 0.05, "max_r": 0.5}, "LedoitWolfCovariance": {"r": 0.05},
    "OASCovariance": {"r": 0.05},
    "ShrunkCovariance": {"r": 0.05, "delta": 0.1, "target": "constant_correlation"},
    "SchurCovariance": {"r": 0.05, "n_blocks": 4, "gamma": 0.5, "interpolation": "linear"},
    "SchurConditionalCovariance": {"r": 0.05, "n_blocks": 4},
    "SchurLedoitWolfCovariance": {"r": 0.05, "n_blocks": 4},
    "PartialMomentsCovariance": {"r": 0.05}, "HuberCovariance": {"r": 0.05, "c": 2.5},
    "TylerCovariance": {"r": 0.05}, "GeodesicEwaCovariance": {"r": 0.05},
    "DCCCovariance": {"r": 0.05, "vol_r": None}, "FactorCovariance": {"k": 2, "r": 0.05},
}


def build(cls, kw, diff=False):
    import precise
    kw = dict(kw)
    if diff:
        kw["diff"] = True
    return getattr(precise, cls)(**kw)


def canon(cls, kw):
    """The parameter record the specification sees."""
    prm = {**DEFAULTS[cls], **kw}
    if cls == "DCCCovariance" and prm["vol_r"] is None:
        prm["vol_r"] = prm["r"]
    out = {}
    for k, v in prm.items():
        out[k] = float(v).hex() if k in ("r", "max_r", "delta", "gamma", "c", "vol_r") else v
    return out or {"none": 0}


def burn(r):
    return int(min(250, max(5, math.ceil((1 - 1e-12) / r))))


def read(est, cls, extra=()):
    o = {"n": enc(est.n_samples_)}
    if o["n"] == 0:
        return o
    o["cov"] = fenc(est.covariance_)
    o["mean"] = fenc(est.location_)
    if cls in ("SchurLedoitWolfCovariance", "SchurConditionalCovariance"):
        o["gamma"] = enc(float(est.gamma_))
    if cls == "BlockCovariance":
        o["prec"] = fenc(est.precision_)
    if "state" in extra:
        st = est.get_state()
        if cls == "TylerCovariance" and "C" in st:
            o["C"] = fenc(st["C"])
        if cls == "PartialMomentsCovariance" and "quadrants" in st:
            o["quad"] = fenc(st["quadrants"])
    return o


def record(cls, kw, X, reads, diff=False, mode="rows", rng=None, extra=("state",), tol=None, label=""):
    """Run the real estimator over X, reading at the 1-based row positions in `reads`."""
    n = len(X)
    obs = [[] for _ in range(n)]
    reads = set(reads)
    try:
        with common.limit(60):
            est = build(cls, kw, diff)
            if mode == "refit" and n > 1:         # unrelated history, then reset and fit
                est.partial_fit(np.full((7, 3), 0.5) + np.arange(21).reshape(7, 3) % 5)
            i = 0
            while i < n:
                if mode == "rows":
                    j = i + 1
                elif mode in ("fit", "refit") and i == 0:
                    j = int(rng.integers(1, n + 1))
                else:
                    j = min(n, i + int(rng.integers(1, 6)))
                if mode in ("fit", "refit") and i == 0:
                    est.fit(X[i:j])
                elif j == i + 1:
                    est.partial_fit(X[i])
                else:
                    est.partial_fit(X[i:j])
                if any(k in reads for k in range(i + 1, j + 1)) or j == n:
                    obs[j - 1] = read(est, cls, extra)
                i = j
    except Exception as ex:
        obs[min(i, n - 1)] = {"err": common.errname(ex)}
    s = {"cls": cls, "prm": canon(cls, kw), "p": int(X.shape[1]), "diff": bool(diff),
         "rows": fenc(X), "obs": obs, "label": label or f"{cls}({kw}) {mode} n={n}"}
    if tol:
        s["tol"] = tol
    return s


def judge(ctx, scens, name="EstTrace"):
    fails, results = tlc.validate("EstTrace", scens, lambda s: len(s["rows"]))
    ctx.validated(name, len(scens), results)
    for f in fails:
        s = scens[f["sc"]]
        ctx.violation(f"{s['cls']}:{'+'.join(f['fails'])}",
                      f"{s['label']} at row {f['l']}: {', '.join(f['fails'])}",
                      {"class": s["cls"], "params": s["prm"], "diff": s["diff"],
                       "rows": s["rows"][:f["l"]], "reported": s["obs"][f["l"] - 1]})
    for s in scens[:: max(1, len(scens) // 3)]:
        ctx.sample({"run": s["label"], "rows": len(s["rows"]), "p": s["p"],
                    "readings": sum(1 for o in s["obs"] if o)})
    read_n = sum(1 for s in scens for o in s["obs"] if o)
    ctx.counts["readings_compared"] = ctx.counts.get("readings_compared", 0) + read_n


def spread(n, k):
    """About k positions of 1..n including the ends."""
    return sorted({1, n} | {int(round(v)) for v in np.linspace(1, n, k)})


MODES = ("rows", "batches", "fit", "refit")


def family(ctx, cls, settings, dims, extra_n=12, per=None, kinds=("gauss", "jump", "outlier", "lattice"),
           scales=((1.0, 0.0), (0.01, 0.0), (1.0, 5.0)), cap=60, tol=None, dense=30):
    """Scenarios: every parameter setting on every dimension, over varied streams and feeding modes."""
    rng = ctx.rng
    out = []
    per = per or ctx.pick(1, 4)
    for kw in settings:
        r = kw.get("r", DEFAULTS[cls].get("r"))
        if cls == "DCCCovariance":
            r = min(r, kw.get("vol_r") or r)
        b = 5 if r is None else burn(r)
        for p in dims:
            for _ in range(per):
                kind = kinds[len(out) % len(kinds)]
                sc, sh = scales[int(rng.integers(len(scales)))]
                n = min(b + int(rng.integers(3, extra_n + 1)), 300) if cap is None else \
                    min(b + int(rng.integers(3, extra_n + 1)), max(cap, b + 3))
                X = common.rows(rng, n, p, kind, sc, sh)
                near = [k for k in range(b - 1, b + 4) if k <= n]
                reads = list(range(1, n + 1)) if n <= dense else near + spread(n, 12)
                out.append(record(cls, kw, X, reads, mode=MODES[len(out) % 4], rng=rng, tol=tol))
    return out


RS = (1.0, 0.5, 0.3, 0.2, 0.13, 0.07, 0.05)


def rset(ctx):
    return [0.5, 0.3, 0.12] if ctx.quick else list(RS)


def p09(ctx):
    rng, cls = ctx.rng, "EmpiricalCovariance"
    out = []
    for p in ctx.pick((1, 2, 3, 5), (1, 2, 3, 4, 5, 8)):
        for kind in common.KINDS:
            for sc, sh in ((1.0, 0.0), (1e-5, 0.0), (1.0, 1e5), (1e4, -3e6)):
                n = int(rng.integers(1, 40))
                X = common.rows(rng, n, p, kind, sc, sh)
                out.append(record(cls, {}, X, range(1, n + 1), mode=MODES[len(out) % 4], rng=rng))
                out.append(record(cls, {}, X[rng.permutation(n)], [n], mode="batches", rng=rng,
                                  label=f"{cls} permuted rows n={n}"))
    for n in ctx.pick((600,), (600, 3000, 5000)):
        X = common.rows(rng, n, 2, "walk", 1.0, 1e4)
        out.append(record(cls, {}, X, spread(n, 40), mode="batches", rng=rng))
    # exhaustive small streams: every sequence over a 3-row alphabet up to length 6 (shared prefixes)
    out += lattice(ctx, cls, {}, ctx.pick(5, 6))
    out += marathon(ctx, cls, [{}])
    judge(ctx, out)


def lattice(ctx, cls, kw, depth, alphabet=((0.0, 1.0), (2.0, -1.0), (-1.0, 3.0))):
    """Every sequence over a small alphabet of rows, each read at every position."""
    if getattr(ctx, "round", 0):
        return []
    import itertools
    out = []
    for seq in itertools.product(alphabet, repeat=depth):
        X = np.array(seq)
        out.append(record(cls, kw, X, range(1, depth + 1), mode="rows",
                          label=f"{cls}({kw}) all streams of length {depth}"))
    return out


def marathon(ctx, cls, settings, wide=True, tol=None, kinds=("gauss", "jump", "heavy"), length=1100):
    """A stream several times longer than any warm-up, and a wide one: nothing may depend on the number of
    observations beyond the warm-up, or on the dimension.  (Once per run: these are the expensive ones.)"""
    if getattr(ctx, "round", 0):
        return []
    rng, out = ctx.rng, []
    for k, kw in enumerate(settings):
        X = common.rows(rng, length, 2, kinds[k % len(kinds)], 1.0, 0.0)
        out.append(record(cls, kw, X, spread(length, 50), mode=("rows", "batches")[k % 2], rng=rng, tol=tol))
        if wide:
            n = burn(kw.get("r", DEFAULTS[cls].get("r") or 0.2)) + 6
            X = common.rows(rng, n, 11 + k, "gauss", 1.0, 0.0)
            out.append(record(cls, kw, X, [2, n // 2, n - 6, n - 5, n - 4, n], mode="rows", tol=tol))
    return out


def p10(ctx):
    rng, cls = ctx.rng, "EwaCovariance"
    out = []
    for r in RS + (0.9, 0.25, 1 / 3, 0.011):
        for p in ctx.pick((1, 3), (1, 2, 3, 5)):
            out += family(ctx, cls, [{"r": r}], [p], scales=((1.0, 0.0), (1e-4, 0.0), (1.0, 1e4)), cap=130)
    for r, n in ((0.003, 262), (0.004, 258), (0.0005, 256)):     # the cap on the warm-up
        out.append(record(cls, {"r": r}, common.rows(rng, n, 2, "jump"), list(range(244, n + 1)), mode="rows"))
    out.append(record(cls, {}, common.rows(rng, 45, 3, "walk"), range(1, 46), mode="rows"))
    n = ctx.pick(800, 5000)
    out.append(record(cls, {"r": 0.02}, common.rows(rng, n, 2, "heavy"), spread(n, 60), mode="batches", rng=rng))
    out += lattice(ctx, cls, {"r": 0.5}, ctx.pick(7, 8), alphabet=((0.0, 1.0), (2.0, -1.0)))
    out += marathon(ctx, cls, [{"r": 0.2}, {"r": 0.013}])
    judge(ctx, out)


def p11(ctx):
    out = []
    out += family(ctx, "DiagonalCovariance", [{"r": r} for r in rset(ctx)] + [{}], ctx.pick((1, 2, 4), (1, 2, 3, 5, 8)),
                  per=ctx.pick(2, 4), scales=((1.0, 0.0), (1e-4, 0.0), (1.0, 100.0)))
    blocks = ctx.pick((1, 2, 3, 4, 7), (1, 2, 3, 4, 5, 6, 9))
    out += family(ctx, "BlockCovariance", [{"r": r, "n_blocks": nb} for r in (0.3, 0.12) for nb in blocks]
                  + [{}], ctx.pick((1, 4, 5, 7), (1, 2, 3, 4, 5, 6, 7, 9)), dense=10)
    out.append(record("DiagonalCovariance", {"r": 0.003}, common.rows(ctx.rng, 258, 2, "jump"), range(246, 259)))
    out.append(record("BlockCovariance", {"r": 0.003, "n_blocks": 2}, common.rows(ctx.rng, 256, 3, "jump"), range(247, 257)))
    out += marathon(ctx, "DiagonalCovariance", [{"r": 0.1}])
    out += marathon(ctx, "BlockCovariance", [{"r": 0.1, "n_blocks": 2}])
    judge(ctx, out)


def p12(ctx):
    out = []
    dims = ctx.pick((1, 2, 4, 6), (1, 2, 3, 4, 5, 8))
    for cls in ("LedoitWolfCovariance", "OASCovariance"):
        out += family(ctx, cls, [{"r": r} for r in rset(ctx) + [1.0, 0.8]] + [{}], dims, extra_n=25)
    for t in ("identity", "constant_correlation"):
        out += family(ctx, "ShrunkCovariance", [{"r": r, "delta": d, "target": t}
                                                for r in (0.3, 0.12) for d in (0.0, 0.35, 1.0)], ctx.pick((1, 2, 4), dims),
                      scales=((1.0, 0.0), (0.01, 0.0), (1e-5, 0.0), (1.0, 5.0)))
    out += family(ctx, "ShrunkCovariance", [{}], dims)
    for cls in ("LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance"):
        out += marathon(ctx, cls, [{"r": 0.15}])
    judge(ctx, out)


def p13(ctx):
    out = []
    dims = (1, 2, 3)
    kinds = ("gauss", "outlier", "heavy", "jump")
    out += family(ctx, "HuberCovariance", [{"r": r, "c": c} for r in rset(ctx) for c in (0.4, 1.3, 2.5, 8.0)] + [{}],
                  dims, extra_n=25, kinds=kinds)
    out += family(ctx, "AdaptiveEwaCovariance",
                  [{"r": r, "max_r": m} for r in rset(ctx) for m in (0.15, 0.4, 1.0)] + [{}],
                  dims, extra_n=25, kinds=kinds)
    out += family(ctx, "HuberCovariance", [{"r": 0.12}], (5,), kinds=kinds)
    out += family(ctx, "AdaptiveEwaCovariance", [{"r": 0.12}], (5,), kinds=kinds)
    out += marathon(ctx, "HuberCovariance", [{"r": 0.15, "c": 1.1}])
    out += marathon(ctx, "AdaptiveEwaCovariance", [{"r": 0.15, "max_r": 0.6}])
    judge(ctx, out)


def tyler_rows(rng, n, p, kind, scale, shift_after=0.0):
    """A stream whose first p rows open the coordinates one at a time, so that the shape matrix is
    regular on the coordinates seen (otherwise the recursion starts from a rank-one matrix whose
    numerical inverse is arbitrary)."""
    X = common.rows(rng, n, p, kind, scale)
    for i in range(min(p, n)):
        X[i, i + 1:] = 0.0
        X[i, i] = scale * (1.0 + 0.25 * i) * (1 if rng.random() < .5 else -1)
    return X


def p14(ctx):
    rng, cls, out = ctx.rng, "TylerCovariance", []
    for r in rset(ctx) + [0.05, 1.0]:
        for p in ctx.pick((1, 2, 3, 4), (1, 2, 3, 4, 5, 6)):
            for k in range(ctx.pick(2, 6)):
                n = burn(r) + int(rng.integers(6, 16))
                X = tyler_rows(rng, n, p, ("gauss", "heavy", "outlier")[k % 3], (1.0, 1e-3, 1e3, 1e-7)[k % 4])
                out.append(record(cls, {"r": r}, X, range(1, n + 1), mode=MODES[k % 3], rng=rng))
    for k in range(ctx.pick(3, 12)):          # a zero deviation has no direction
        X = tyler_rows(rng, 14, 2, "gauss", 1.0)
        X = np.vstack([np.zeros((1 + k % 2, 2)), X])
        out.append(record(cls, {"r": 0.3}, X, range(1, len(X) + 1)))
    # rescaling the data rescales only the location: checked in P21 as well; here through the spec
    out += marathon(ctx, cls, [{"r": 0.2}], wide=False, kinds=("gauss",))
    judge(ctx, out)


def p15(ctx):
    out = []
    rs = (0.3, 0.12)
    blocks = ctx.pick((1, 2, 3, 8), (1, 2, 3, 4, 5, 8))
    dims = ctx.pick((1, 3, 4, 5), (1, 2, 3, 4, 5, 7))
    out += family(ctx, "SchurCovariance", [{"r": r, "n_blocks": nb, "gamma": g} for r in rs for nb in blocks
                                           for g in ctx.pick((0.0, 0.6, 1.0), (0.0, 0.25, 0.6, 1.0))],
                  ctx.pick((3, 5), dims), dense=8)
    out += family(ctx, "SchurCovariance", [{"r": 0.2, "n_blocks": nb, "gamma": g, "interpolation": "geodesic"}
                                           for nb in blocks for g in (0.0, 0.4, 1.0)],
                  ctx.pick((1, 3, 4), (1, 2, 3, 4, 5)), kinds=("gauss", "jump"), tol="1e-5", dense=8,
                  scales=((1.0, 0.0), (0.1, 2.0)))
    for cls in ("SchurLedoitWolfCovariance", "SchurConditionalCovariance"):
        out += family(ctx, cls, [{"r": r, "n_blocks": nb} for r in rs for nb in blocks], dims, extra_n=25, dense=8,
                      kinds=("gauss", "jump", "outlier"), scales=((1.0, 0.0), (0.05, 0.0), (1.0, 5.0)))
    out += family(ctx, "SchurCovariance", [{}], (5, 6), dense=8)
    out += family(ctx, "SchurLedoitWolfCovariance", [{}], (5, 6), dense=8)
    out += family(ctx, "SchurConditionalCovariance", [{}], (5, 6), dense=8, kinds=("gauss", "jump"))
    out += marathon(ctx, "SchurCovariance", [{"r": 0.2, "n_blocks": 2, "gamma": 0.3}])
    for cls in ("SchurLedoitWolfCovariance", "SchurConditionalCovariance"):
        out += marathon(ctx, cls, [{"r": 0.2, "n_blocks": 2}])
    judge(ctx, out)


def p16(ctx):
    out = []
    st = [{"r": a, "vol_r": b} for a in (0.3, 0.12) for b in (None, 0.5, 0.1, 0.2)] + [{}, {"r": 0.5, "vol_r": 0.07},
                                                                                     {"r": 0.07, "vol_r": 0.6}]
    out += family(ctx, "DCCCovariance", st, ctx.pick((1, 2, 4), (1, 2, 3, 4, 6)), per=ctx.pick(2, 5), extra_n=20,
                  kinds=("gauss", "jump", "outlier", "heavy"))
    out.append(record("DCCCovariance", {"r": 0.2, "vol_r": 0.003}, common.rows(ctx.rng, 258, 2, "jump"), range(246, 259)))
    out += marathon(ctx, "DCCCovariance", [{"r": 0.1, "vol_r": 0.3}])
    judge(ctx, out)


def p17(ctx):
    out = []
    out += family(ctx, "GeodesicEwaCovariance", [{"r": r} for r in (0.3, 0.12, 0.05)] + [{"r": 1.0}, {}],
                  ctx.pick((1, 2, 3), (1, 2, 3, 4)), per=ctx.pick(2, 6), extra_n=14, kinds=("gauss", "jump"),
                  scales=((1.0, 0.0), (0.01, 0.0), (0.1, 1.0)))
    # large units: the floor is near the rounding error, so only the full step (which has to reach its
    # end point) is compared, to two digits
    out += family(ctx, "GeodesicEwaCovariance", [{"r": 1.0}], (2, 3), per=ctx.pick(2, 6), extra_n=14, kinds=("gauss",),
                  scales=((1e4, 0.0), (1e6, 0.0), (1e9, 0.0)), tol="0.05")
    out += marathon(ctx, "GeodesicEwaCovariance", [{"r": 0.3}], wide=False, kinds=("gauss",), length=600)
    judge(ctx, out)
    from . import linalg
    linalg.geodesics(ctx)


def p18(ctx):
    out = []
    out += family(ctx, "FactorCovariance", [{"k": k, "r": r} for k in (1, 2, 3, 5) for r in rset(ctx)] + [{}],
                  ctx.pick((1, 2, 4, 6), (1, 2, 3, 4, 6, 8)), extra_n=25,
                  kinds=("gauss", "jump", "outlier", "heavy"), dense=40)
    out += marathon(ctx, "FactorCovariance", [{"r": 0.1, "k": 2}])
    judge(ctx, out)


def p19(ctx):
    out = []
    out += family(ctx, "PartialMomentsCovariance", [{"r": r} for r in rset(ctx)] + [{}, {"r": 1.0}],
                  ctx.pick((1, 2, 3, 5), (1, 2, 3, 4, 5, 7)), per=ctx.pick(2, 4), extra_n=20)
    out.append(record("PartialMomentsCovariance", {"r": 0.003}, common.rows(ctx.rng, 258, 2, "jump"), range(247, 259)))
    out += marathon(ctx, "PartialMomentsCovariance", [{"r": 0.1}])
    judge(ctx, out)


DESIGN = {"p09": ["EmpiricalCovariance"], "p10": ["EwaCovariance"], "p11": ["DiagonalCovariance", "BlockCovariance"],
          "p12": ["LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance"],
          "p13": ["HuberCovariance", "AdaptiveEwaCovariance"], "p14": ["TylerCovariance"],
          "p15": ["SchurCovariance", "SchurLedoitWolfCovariance", "SchurConditionalCovariance"],
          "p16": ["DCCCovariance"], "p17": ["GeodesicEwaCovariance"], "p18": ["FactorCovariance"],
          "p19": ["PartialMomentsCovariance"]}


def design(ctx, fn, depth):
    """The specification itself: every stream of small integer rows to a length that crosses the warm-up."""
    cls = DESIGN[fn.__name__]
    r = tlc.run("EstMC", cfg_text="SPECIFICATION Spec\nVIEW View\nCONSTANTS\n Cls = {%s}\n Depth = %d\n Dims = {1, 2, 3}\n"
                "INVARIANTS Sound Plain Closed Structure Collapse\nCHECK_DEADLOCK FALSE\n"
                % (", ".join('"%s"' % c for c in cls), depth), heap="6g")
    ctx.model("EstMC", r, f"{', '.join(cls)}: every stream over three rows of 1, 2, 3 variables to length {depth}: "
              "Sound Plain Closed Structure Collapse")


def deep(fn, rounds):
    """The check at full size: once for quick, with that many further random samples for thorough."""
    def run(ctx):
        big = not ctx.quick
        design(ctx, fn, 8 if big else 7)
        ctx.pick = lambda q, t: t
        ctx.quick = False
        for k in range(rounds if big else 1):
            ctx.round = k
            fn(ctx)
    return run
