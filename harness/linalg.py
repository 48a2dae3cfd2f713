"""P27 (and the geodesic map of P17): recorded calls of the matrix helpers, judged by spec/RepairTrace.tla."""
import numpy as np

from . import common, tlc
from .common import enc, fenc


def lattice(ctx, p, k):
    r = tlc.run("MatGen", cfg_text=f"SPECIFICATION Spec\nCONSTANTS\n P = {p}\n K = {k}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", workers=1)
    ctx.model(f"MatGen order {p} entries -{k}..{k}", r, "every symmetric integer matrix of this order and range")
    return [np.array(m, dtype=float) for m in r.marked("MAT")]


def call(f, fn, a, **rec):
    """Run one helper on a copy and note whether its argument survived."""
    t = {"f": f, "a": fenc(a), **{k: enc(v) for k, v in rec.items() if k != "b"}}
    arg = a.copy()
    args = [arg]
    if "b" in rec:
        b = rec["b"].copy()
        t["b"] = fenc(rec["b"])
        args.append(b)
    try:
        with common.limit(20):
            out = fn(*args)
        t["kept"] = bool(np.array_equal(arg, a) and ("b" not in rec or np.array_equal(b, rec["b"])))
        if f == "ispd":
            t["out"] = bool(out)
        else:
            t["out"] = fenc(out)
            if isinstance(out, np.ndarray) and np.shares_memory(out, arg):
                out[...] = 12345.0          # a result that aliases the argument lets callers modify it
                t["kept"] = bool(np.array_equal(arg, a))
        if f == "nearest":
            try:
                np.linalg.cholesky(np.array(out if t["kept"] else fn(a.copy())))
                t["chol"] = True
            except np.linalg.LinAlgError:
                t["chol"] = False
    except Exception as ex:
        t["err"] = common.errname(ex)
    return t


def symmetric(rng, p):
    """A symmetric matrix of some awkward kind."""
    k = int(rng.integers(9))
    q, _ = np.linalg.qr(rng.normal(size=(p, p)))
    if k == 0:
        ev = rng.normal(size=p)
    elif k == 1:
        ev = np.abs(rng.normal(size=p)) + 0.1
    elif k == 2:
        ev = np.where(rng.random(p) < .5, 0.0, rng.normal(size=p))
    elif k == 3:
        ev = np.full(p, rng.normal())
    elif k == 4:
        ev = 10.0 ** rng.uniform(-9, 3, size=p)
    elif k == 5:
        ev = 10.0 ** rng.uniform(-6, 2, size=p) * np.where(rng.random(p) < .5, 1, -1)
    elif k == 6:                       # a correlation-like matrix, perhaps inconsistent
        A = np.clip(rng.normal(size=(p, p)), -1, 1)
        A = (A + A.T) / 2
        np.fill_diagonal(A, 1.0)
        return A
    elif k == 7:                       # rank one and low rank
        X = rng.normal(size=(int(rng.integers(1, p + 1)), p))
        return X.T @ X
    else:
        ev = -np.abs(rng.normal(size=p)) - 0.01
    A = (q * ev) @ q.T
    return (A + A.T) / 2


def p27(ctx):
    from precise import _linalg as L
    rng = ctx.rng
    mats = lattice(ctx, 1, 3) + lattice(ctx, 2, ctx.pick(3, 4)) + lattice(ctx, 3, 1)
    for _ in range(ctx.pick(500, 6000)):
        A = symmetric(rng, int(rng.integers(1, 7))) * 10.0 ** int(rng.choice([0, 0, 0, -3, 3, -8, 8, -30, 30]))
        mats.append(A)
    scens = []
    for a in mats:
        eps = float(rng.choice([1e-8, 1e-8, 1e-3, 0.5, 1e-12]))
        calls = [call("floor", lambda m: L.make_pos_def(m), a, eps=1e-8) if rng.random() < .5 else
                 call("floor", lambda m: L.make_pos_def(m, eps), a, eps=eps),
                 call("nearest", L.nearest_pos_def, a),
                 call("shrink", lambda m: L.affine_shrink(m), a, phi=1.01, lam=0.01) if rng.random() < .4 else
                 call("shrink", lambda m: L.affine_shrink(m, phi=1.5, lmbd=0.25), a, phi=1.5, lam=0.25),
                 call("invert", L.try_invert, a),
                 call("ispd", L.is_positive_def, a)]
        if rng.random() < .3:          # slightly asymmetric argument
            b = a.copy()
            b[0, -1] += 0.25 * abs(b).max()
            calls.append(call("nearest", L.nearest_pos_def, b))
            calls.append(call("sym", L.to_symmetric, b))
        if np.linalg.eigvalsh(a)[0] > 0:
            calls.append(call("corr", L.cov_to_corrcoef, a))
        for c in calls:
            c["a"] = c["a"]
        scens.append({"calls": calls})
    judge(ctx, scens)


def geodesics(ctx):
    """Calls of the geodesic map: end points, interior, inversion and congruence."""
    from precise import _linalg as L
    rng = ctx.rng
    scens = []
    for _ in range(ctx.pick(300, 4000)):
        p = int(rng.integers(1, 5))
        a, b = common.spd(rng, p, 10.0 ** rng.uniform(0, 3)), common.spd(rng, p, 10.0 ** rng.uniform(0, 3)) * float(rng.choice([1, 4, 0.1]))
        s = float(rng.choice([1.0, 1.0, 1e-3, 1e3]))
        a, b = (a + a.T) / 2 * s, (b + b.T) / 2 * s
        g = float(rng.choice([0.0, 1.0, 0.5, 0.25, 0.9, round(rng.random(), 3)]))
        calls = [call("geo", lambda x, y: L.geodesic_step(x, y, g), a, b=b, g=g)]
        if s == 1.0:
            # inversion: the geodesic between the inverses is the inverse; congruence: T a T', T b T'
            ia, ib = np.linalg.inv(a), np.linalg.inv(b)
            calls.append(call("geo", lambda x, y: np.linalg.inv(L.geodesic_step(x, y, g)), a, b=b, g=g) | {"a": fenc(ia), "b": fenc(ib)})
            T = np.round(rng.normal(size=(p, p)), 2) + 2 * np.eye(p)
            if np.linalg.cond(T) < 10:
                ta, tb = T @ a @ T.T, T @ b @ T.T
                calls.append(call("geo", lambda x, y: T @ L.geodesic_step(x, y, g) @ T.T, a, b=b, g=g)
                             | {"a": fenc((ta + ta.T) / 2), "b": fenc((tb + tb.T) / 2)})
        scens.append({"calls": calls})
    judge(ctx, scens)


def judge(ctx, scens):
    fails, results = tlc.validate("RepairTrace", scens, lambda s: len(s["calls"]))
    ctx.validated("RepairTrace", len(scens), results)
    ctx.counts["helper_calls_judged"] = sum(len(s["calls"]) for s in scens)
    for f in fails:
        t = scens[f["sc"]]["calls"][f["l"] - 1]
        ctx.violation("+".join(f["fails"]), f"{t['f']} on a matrix of order {len(t['a'])}: {', '.join(f['fails'])}", t)
    for s in scens[:: max(1, len(scens) // 3)]:
        ctx.sample(s["calls"][0])
