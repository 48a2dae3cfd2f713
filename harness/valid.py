"""P07 (validity), P08 (coherence), P22 (bounded memory)."""
import copy, gc, json, pickle

import numpy as np

from . import common, tlc
from .common import enc, fenc
from .est import DEFAULTS, build, canon
from .keyed import recording
from .stream import tla_set

KINDS = ("zero", "same", "neg", "axis", "axis2", "const", "line", "big", "small", "gauss")


def histories(ctx, depth, num=None, kinds=KINDS, seed=0):
    cfg = f"SPECIFICATION Spec\nCONSTANTS\n Kinds = {tla_set(kinds)}\n Depth = {depth}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    if num is None:
        r = tlc.run("RowGen", cfg_text=cfg, workers=1)
        ctx.model(f"RowGen depth {depth}", r, "every history of this length over the row kinds")
    else:
        r = tlc.run("RowGen", cfg_text=cfg, workers=1,
                    args=("-simulate", f"num={num}", "-depth", str(depth + 2), "-seed", str(ctx.seed * 77 + seed)))
    return r.marked("BEH")


def numbers(kinds, p, rng, scale):
    """Instantiate a symbolic history."""
    out, last = [], np.zeros(p)
    line = rng.normal(size=p)
    for k in kinds:
        if k == "zero":
            x = np.zeros(p)
        elif k == "same":
            x = last.copy()
        elif k == "neg":
            x = -last
        elif k == "axis":
            x = np.eye(p)[0] * 1.3
        elif k == "axis2":
            x = np.eye(p)[-1] * -0.7
        elif k == "const":
            x = np.full(p, 0.1)
        elif k == "line":
            x = line * rng.normal()
        elif k == "big":
            x = rng.normal(size=p) * 1e6
        elif k == "whole":
            x = np.round(rng.normal(size=p))
        elif k == "small":
            x = rng.normal(size=p) * 1e-6
        else:
            x = rng.normal(size=p)
        out.append(x)
        last = x
    return np.array(out) * scale


def settings():
    out = []
    for cls in DEFAULTS:
        base = {k: v for k, v in {"r": 0.3, "n_blocks": 2}.items() if k in DEFAULTS[cls]}
        out.append((cls, base))
        if "r" in base:
            out.append((cls, {**base, "r": 0.11}))
    out += [("ShrunkCovariance", {"r": 0.3, "delta": 0.9}), ("ShrunkCovariance", {"r": 0.3, "delta": 1.0}),
            ("SchurCovariance", {"r": 0.3, "n_blocks": 2, "gamma": 1.0}),
            ("SchurCovariance", {"r": 0.3, "n_blocks": 2, "interpolation": "geodesic"}),
            ("SchurCovariance", {"r": 0.3, "n_blocks": 3, "gamma": 0.8}),
            ("SchurConditionalCovariance", {"r": 0.2, "n_blocks": 3}),
            ("DCCCovariance", {"r": 0.3, "vol_r": 0.7}), ("DCCCovariance", {"r": 0.6, "vol_r": 0.2}),
            ("HuberCovariance", {"r": 0.3, "c": 0.6}), ("AdaptiveEwaCovariance", {"r": 0.2, "max_r": 0.95}),
            ("FactorCovariance", {"k": 1, "r": 0.3}), ("FactorCovariance", {"k": 4, "r": 0.4}),
            ("EwaCovariance", {"r": 1.0}), ("LedoitWolfCovariance", {"r": 1.0}), ("TylerCovariance", {"r": 1.0}),
            ("PartialMomentsCovariance", {"r": 1.0})]
    return out


def conditional(k):
    import precise
    v = ("EwaCovariance", "HuberCovariance", "EmpiricalCovariance", "DiagonalCovariance")[k % 4]
    c = ("EwaCovariance", "LedoitWolfCovariance", "TylerCovariance", "OASCovariance", "PartialMomentsCovariance")[k % 5]
    a, b = getattr(precise, v), getattr(precise, c)
    return f"ConditionalCovariance({v},{c})", lambda: precise.ConditionalCovariance(
        vol=a() if v == "EmpiricalCovariance" else a(r=0.3), corr=b(r=0.3))


def judge(ctx, scens, labels, shrink=True):
    fails, results = tlc.validate("ReadingTrace", scens, lambda s: len(s["obs"]), heap="8g")
    ctx.validated("ReadingTrace", len(scens), results)
    ctx.counts["readings_judged"] = sum(len(s["obs"]) for s in scens)
    skip = sum(len(r.marked("SKIP")) for r in results)
    if skip:
        ctx.counts["ill_conditioned_readings_not_judged"] = skip
    for f in fails:
        lab = labels[f["sc"]]
        o = scens[f["sc"]]["obs"][f["l"] - 1]
        ctx.violation(f"{lab['who'].split('(')[0]}:{'+'.join(f['fails'])}",
                      f"{lab['who']} {lab.get('kinds', '')} scale {lab['scale']:g} at reading {f['l']}: {', '.join(f['fails'])}",
                      {**lab, "reading": o})
    for i in range(0, len(scens), max(1, len(scens) // 3)):
        ctx.sample({k: v for k, v in labels[i].items() if k != "rows"})


def p07(ctx):
    rng = ctx.rng
    import precise
    scales = (1.0, 1.0, 1e-3, 1e3, 1e-8, 1e8, 1e-20, 1e20, 1e-60, 1e60)
    st = settings()
    plans = []
    short = histories(ctx, ctx.pick(3, 4))
    for i, h in enumerate(short):
        if ctx.quick:
            for k in range(3):
                plans.append((h, (3 * i + k) % (len(st) + 5)))
        else:
            for k in range(4):
                plans.append((h, (4 * i + k) % (len(st) + 5)))
    for d, n, seed in ((9, ctx.pick(60, 600), 1), (24, ctx.pick(40, 500), 2), (60, ctx.pick(6, 60), 3)):
        for h in histories(ctx, d, num=n, seed=seed):
            for k in range(len(st) + 5):
                if (k + len(plans)) % ctx.pick(4, 1) == 0 or d < 12:
                    plans.append((h, k))
    for d, n, kinds in ((14, ctx.pick(30, 300), ("gauss", "same", "zero")), (14, ctx.pick(30, 300), ("gauss", "axis", "axis2")),
                        (14, ctx.pick(30, 300), ("gauss", "const", "line")), (20, ctx.pick(20, 200), ("gauss",))):
        for h in histories(ctx, d, num=n, kinds=kinds, seed=10 + len(kinds)):
            for k in range(len(st) + 5):
                if (k + len(plans)) % ctx.pick(2, 1) == 0:
                    plans.append((h, k))
    scens, labels = [], []
    for h, k in plans:
        p = int(rng.integers(1, 5)) if len(h) > 3 else int(rng.integers(1, 4))
        scale = scales[int(rng.integers(len(scales)))]
        diff = False
        if k < len(st):
            cls, kw = st[k]
            diff = bool(rng.random() < .15)
            who, make = f"{cls}({kw}{', diff' if diff else ''})", lambda: build(cls, kw, diff)
            if cls == "GeodesicEwaCovariance" and len(h) > 30:
                continue
        else:
            who, make = conditional(int(rng.integers(20)))
        X = numbers(h, p, rng, scale)
        obs = []
        reads = set(range(len(h))) if len(h) <= 12 else set(rng.integers(0, len(h), size=8)) | {len(h) - 1}
        try:
            with common.limit(60):
                est = make()
                for i, x in enumerate(X):
                    est.partial_fit(x)
                    if i in reads and est.n_samples_ > 0:
                        obs.append({"p": p, "cov": fenc(est.covariance_), "corr": fenc(est.correlation_), "mean": fenc(est.location_)})
        except Exception as ex:
            obs.append({"err": common.errname(ex)})
        if obs:
            scens.append({"what": "valid", "obs": obs})
            labels.append({"who": who, "kinds": "-".join(h) if len(h) < 16 else f"{len(h)} rows", "scale": scale, "rows": fenc(X)})
    # keyed adapters
    for h in histories(ctx, 10, num=ctx.pick(120, 1200), seed=30):
        p = int(rng.integers(2, 5))
        scale = scales[int(rng.integers(len(scales)))]
        cls, kw = st[int(rng.integers(len(st)))]
        X = numbers(h, p, rng, scale)
        dynamic = bool(rng.random() < .6)
        names = list("abcdef")[:p]
        obs = []
        try:
            with common.limit(60):
                ad = precise.keyed(build(cls, kw), dynamic=dynamic, **({} if dynamic else {"keys": names}))
                for i, x in enumerate(X):
                    sub = [n for n in range(p) if rng.random() < .7] or [0]
                    ad.learn_one({names[n]: float(x[n]) for n in sub})
                    q = None if rng.random() < .5 else [names[n] for n in rng.permutation(p)[: int(rng.integers(1, p + 1))]]
                    cov, keys = ad.cov_array(q)
                    obs.append({"p": len(q) if q else (len(sub) if dynamic else p), "cov": fenc(cov), "corr": fenc(ad.get_corr(q))})
        except Exception as ex:
            obs.append({"err": common.errname(ex)})
        scens.append({"what": "valid", "obs": obs})
        labels.append({"who": f"{'Dynamic' if dynamic else 'Fixed'}Universe({cls}({kw}))", "kinds": "-".join(h), "scale": scale, "rows": fenc(X)})
    judge(ctx, scens, labels)


def reading(est, rng, p, scale):
    m = int(rng.integers(1, 5))
    probe = np.round(rng.normal(size=(m, p)) * 2, 3) * scale
    given = probe if rng.random() < .6 else probe.tolist()
    return {"p": p, "cov": fenc(est.covariance_), "mean": fenc(est.location_),
            "prec": fenc(est.precision_), "getprec": fenc(est.get_precision()),
            "probe": fenc(probe), "maha": fenc(np.atleast_1d(est.mahalanobis(given))),
            "maha1": fenc(np.atleast_1d(est.mahalanobis(given[0]))),
            "score": enc(float(est.score(given))), "score1": enc(float(est.score(given[0])))}


def p08(ctx):
    rng = ctx.rng
    st = settings()
    scens, labels = [], []
    for d, n, kinds in ((6, ctx.pick(12, 100), ("gauss", "gauss2")), (14, ctx.pick(20, 200), ("gauss", "axis", "line", "gauss2")),
                        (30, ctx.pick(8, 80), ("gauss", "gauss2", "big")), (12, ctx.pick(16, 160), ("gauss", "gauss2", "same", "zero")),
                            (3, ctx.pick(12, 100), ("gauss", "whole"))):
        for h in histories(ctx, d, num=n, kinds=kinds, seed=d):
            for k in range(len(st) + 3):
                p = int(rng.integers(1, 6)) if d != 30 or k % 2 else int(rng.integers(8, 13))
                # far from one, the determinant leaves the range of a double long before any entry does
                scale = (1.0, 1e-2, 1e3, 1e-5, 1e-2, 1e-45, 1e45)[int(rng.integers(7))]
                if k < len(st):
                    cls, kw = st[k]
                    who, make = f"{cls}({kw})", lambda: build(cls, kw)
                else:
                    who, make = conditional(int(rng.integers(20)))
                if d == 3:       # few rows of whole numbers: exactly singular covariances, beyond any absolute floor
                    scale = 10.0 ** int(rng.integers(3, 9))
                X = numbers(h, p, rng, scale) + (0.0 if rng.random() < .7 else 3.0 * scale)
                obs = []
                reads = set(rng.integers(0, len(h), size=3)) | {len(h) - 1}
                try:
                    with common.limit(60):
                        est = make()
                        for i, x in enumerate(X):
                            est.partial_fit(x)
                            if i in reads:
                                obs.append(reading(est, rng, p, scale))
                                turn = int(rng.integers(6))
                                # another history of the same length in its place: whatever was remembered of the first is stale
                                other = X[: i + 1] * np.linspace(.5, 2.0, p) + np.roll(X[: i + 1], 1, axis=0) * .3
                                if turn == 0:
                                    est.fit(other)
                                elif turn == 1 and k < len(st):
                                    est.set_state(json.loads(json.dumps(make().fit(other).get_state())))
                                elif turn == 2:
                                    est = pickle.loads(pickle.dumps(est))
                                if turn < 3:
                                    obs.append(reading(est, rng, p, scale))
                except Exception as ex:
                    obs.append({"err": common.errname(ex)})
                scens.append({"what": "coherent", "obs": obs})
                labels.append({"who": who, "kinds": "-".join(h) if len(h) < 16 else f"{len(h)} rows", "scale": scale, "rows": fenc(X)})
    judge(ctx, scens, labels)
    ctx.counts["coherent_readings"] = ctx.counts["readings_judged"] - ctx.counts.get("ill_conditioned_readings_not_judged", 0)
