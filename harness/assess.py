"""P28, P29: recorded calls of the assessors, judged by spec/AssessTrace.tla."""
import numpy as np

from . import common, tlc
from .common import enc, fenc

DATA = ("LogLikelihood", "BlockPseudoLikelihood", "SchurLikelihood", "SteinLoss", "GMVVariance", "VariogramScore")
ALL = ("LogLikelihood", "BlockPseudoLikelihood", "SchurLikelihood", "SteinLoss", "FrobeniusToTruth", "GMVVariance", "VariogramScore")


def make(name, rng, p):
    """An assessor with random parameters, and the parameters as the specification sees them."""
    from precise import assessment as A
    if name == "BlockPseudoLikelihood":
        b = int(rng.choice([1, 2, 3, 4, p, p + 3, 10]))
        return A.BlockPseudoLikelihood(block_size=b), {"block_size": b}
    if name == "SchurLikelihood":
        g, nb = float(rng.choice([0.0, 0.3, 0.5, 0.8, 1.0])), int(rng.choice([1, 2, 3, 4, 9]))
        how = str(rng.choice(["linear", "geodesic"]))
        return A.SchurLikelihood(gamma=g, n_blocks=nb, interpolation=how), {"gamma": enc(g), "n_blocks": nb, "interpolation": how}
    return getattr(A, name)(), {"none": 0}


def default(name):
    from precise import assessment as A
    prm = {"BlockPseudoLikelihood": {"block_size": 10},
           "SchurLikelihood": {"gamma": enc(0.5), "n_blocks": 4, "interpolation": "linear"}}.get(name, {"none": 0})
    return A.assessor_from_name(name), prm


def problem(rng, p=None, n=None):
    wide = rng.random() < .04
    p = p or int(rng.integers(8, 24) if wide else rng.integers(1, 7))       # wide: several default-sized blocks
    n = n or int(rng.integers(30, 200) if rng.random() < .06 else rng.integers(1, 14))
    s = float(rng.choice([1.0, 1.0, 1.0, 0.1, 10.0, 1e-3]))
    T = common.spd(rng, p, 10.0 ** rng.uniform(0, 2)) * s * s
    T = (T + T.T) / 2
    X = np.round(rng.normal(size=(n, p)) @ np.linalg.cholesky(T / s / s).T, 4) * s
    if rng.random() < .3:
        X = X + 0.5 * s
    k = int(rng.integers(4))
    if k == 0:
        C = common.spd(rng, p, 10.0 ** rng.uniform(0, 3)) * s * s
    elif k == 1:
        C = T + common.spd(rng, p, 3.0) * s * s * 0.2
    elif k == 2:
        C = np.diag(np.diag(T))
    else:
        C = T.copy()
    return (C + C.T) / 2, X, T


def run(a, C, X=None, T=None):
    """Score with exactly the inputs given; (value, arguments kept)."""
    kw, args = {}, [C.copy()]
    if X is not None:
        kw["X_test"] = X.copy()
    if T is not None:
        kw["true_cov"] = T.copy()
    with common.limit(20):
        v = float(a.score(args[0], **kw))
    kept = np.array_equal(args[0], C) and (X is None or np.array_equal(kw["X_test"], X)) and \
        (T is None or np.array_equal(kw["true_cov"], T))
    return v, bool(kept)


def inputs(name, X, T, rng, exact=False):
    """The inputs the assessor declares it needs (sometimes also the other one)."""
    both = not exact and rng.random() < .3
    return (X if name != "FrobeniusToTruth" or both else None), (T if name == "FrobeniusToTruth" or both else None)


def judge(ctx, scens):
    fails, results = tlc.validate("AssessTrace", scens, lambda s: len(s["calls"]))
    ctx.validated("AssessTrace", len(scens), results)
    ctx.counts["calls_judged"] = sum(len(s["calls"]) for s in scens)
    for f in fails:
        t = scens[f["sc"]]["calls"][f["l"] - 1]
        ctx.violation("+".join(f["fails"]), f"{t.get('name', 'registry')} {t.get('prm', '')}: {', '.join(f['fails'])}", t)
    for s in scens[:: max(1, len(scens) // 3)]:
        ctx.sample({k: v for k, v in s["calls"][0].items() if k not in ("X",)})


def base(name, prm, C, X, T):
    return {"name": name, "prm": prm, "C": fenc(C), "X": fenc(X), "T": fenc(T)}


def model(ctx):
    invs = "LikelihoodPeak SteinPeak GmvScale RowOrder Labels Bridges TruthZero"
    r = tlc.run("AssessMC", cfg_text=f"SPECIFICATION Spec\nCONSTANT NRows = {ctx.pick(3, 4)}\nINVARIANTS {invs}\nCHECK_DEADLOCK FALSE\n")
    ctx.model("AssessMC", r, "laws of the scores over all small matrices and held-out rows: " + invs)


def p28(ctx):
    rng = ctx.rng
    model(ctx)
    scens = []
    for i in range(ctx.pick(700, 8000)):
        C, X, T = problem(rng)
        calls = []
        for name in ALL:
            a, prm = make(name, rng, len(C)) if rng.random() < .85 else default(name)
            t = {**base(name, prm, C, X, T), "kind": "score"}
            try:
                v, t["kept"] = run(a, C, *inputs(name, X, T, rng))
                t["value"] = enc(v)
            except Exception as ex:
                t["err"] = common.errname(ex)
            calls.append(t)
        if np.linalg.cond(C) < 1e5 and np.linalg.eigvalsh(C)[0] > 1e-4:
            calls += bridges(C, X, T, rng)
        scens.append({"calls": calls})
    judge(ctx, scens)


def bridges(C, X, T, rng):
    """A block as large as the dimension, gamma one and gamma zero."""
    from precise import assessment as A
    p = len(C)
    nb = int(rng.integers(1, 6))
    pairs = [("block_of_full_dimension", A.BlockPseudoLikelihood(block_size=p + int(rng.integers(0, 3))), A.LogLikelihood()),
             ("gamma_one", A.SchurLikelihood(gamma=1.0, n_blocks=nb), A.LogLikelihood()),
             ("gamma_one", A.SchurLikelihood(gamma=1.0, n_blocks=nb, interpolation="geodesic"), A.LogLikelihood())]
    if p % 2 == 0:      # blocks of the same size under both conventions
        how = str(rng.choice(["linear", "geodesic"]))
        pairs.append(("gamma_zero", A.SchurLikelihood(gamma=0.0, n_blocks=2, interpolation=how), A.BlockPseudoLikelihood(block_size=p // 2)))
    out = []
    for law, a, b in pairs:
        t = {**base("LogLikelihood", {"none": 0}, C, X, T), "kind": "same", "law": law}
        try:
            t["a"], t["b"] = enc(run(a, C, X)[0]), enc(run(b, C, X)[0])
        except Exception as ex:
            t["err"] = common.errname(ex)
        out.append(t)
    return out


def p29(ctx):
    from precise import assessment as A
    rng = ctx.rng
    model(ctx)
    scens = []
    unknown = ""
    try:
        A.assessor_from_name("NoSuchScore")
        unknown = "none"
    except Exception as ex:
        unknown = common.errname(ex)
    t = {"kind": "names", "unknown": unknown, "listed": [], "found": [], "types": []}
    try:
        t["listed"] = [str(a.name) for a in A.all_assessors()]
        got = [A.assessor_from_name(nm) for nm in ALL]
        t["found"], t["types"] = [str(a.name) for a in got], [type(a).__name__ for a in got]
    except Exception:
        pass
    scens.append({"calls": [t]})
    for i in range(ctx.pick(500, 2500)):
        p = int(rng.integers(8, 16) if rng.random() < .04 else rng.integers(1, 7))
        C, X, T = problem(rng, p=p, n=int(rng.integers(p + 3, p + 14)))
        n = len(X)
        calls = []

        def pair(law, name, prm, kind, fa, fb, CC=C, XX=X, **kw):
            t = {**base(name, prm, CC, XX, T), "kind": kind, "law": law, **kw}
            try:
                (va, ka), (vb, kb) = fa(), fb()
                t["a"], t["b"], t["kept"] = enc(va), enc(vb), ka and kb
            except Exception as ex:
                t["err"] = common.errname(ex)
            calls.append(t)

        for name in ALL:
            a, prm = make(name, rng, p) if rng.random() < .7 else default(name)
            d, tr = bool(rng.random() < .5), bool(rng.random() < .5)
            t = {**base(name, prm, C, X, T), "kind": "usable", "data": d, "truth": tr, "ran": False}
            try:
                t["usable"] = bool(a.usable(have_data=d, have_truth=tr))
                if t["usable"]:
                    v, t["kept"] = run(a, C, X if d else None, T if tr else None)
                    t["ran"] = bool(np.isfinite(v))
            except Exception as ex:
                t["ran"] = False
                if "usable" not in t:
                    t["err"] = common.errname(ex)
            calls.append(t)
            ok = np.linalg.cond(C) < 1e5 and np.linalg.cond(np.atleast_2d(np.cov(X, rowvar=False, bias=True))) < 1e5 \
                and np.linalg.eigvalsh(C)[0] > 1e-9
            if not ok:
                continue
            xs, ts = inputs(name, X, T, rng)
            if xs is not None:
                o = rng.permutation(n)
                pair("depends_on_row_order", name, prm, "same", lambda: run(a, C, xs, ts), lambda: run(a, C, xs[o], ts))
                if i % 3 == 0:
                    pair("not_repeatable", name, prm, "same", lambda: run(a, C, xs, ts), lambda: run(a, C, xs, ts))
            if name not in ("BlockPseudoLikelihood", "SchurLikelihood"):
                s = rng.permutation(p)
                pair("depends_on_labels", name, prm, "same", lambda: run(a, C, xs, ts),
                     lambda: run(a, C[np.ix_(s, s)], None if xs is None else xs[:, s], None if ts is None else ts[np.ix_(s, s)]))
            # nearby and far competitors
            E = common.spd(rng, p, 4.0) * float(np.trace(C)) / p * float(rng.choice([0.01, 0.3]))
            E = (E + E.T) / 2 if rng.random() < .5 else -0.3 * np.linalg.eigvalsh(C)[0] * (E + E.T) / 2 / np.linalg.norm(E, 2)
            if name == "FrobeniusToTruth":
                calls.append({**base(name, prm, T, X, T), "kind": "score", "value": enc(run(a, T, None, T)[0])})
                pair("truth_is_not_the_strict_optimum", name, prm, "below", lambda: run(a, T + E, xs, T), lambda: (0.0, True), strict=True)
            S2 = X.T @ X / n
            S2 = (S2 + S2.T) / 2
            S = np.atleast_2d(np.cov(X, rowvar=False, bias=True))
            if name == "SteinLoss":
                pair("not_zero_at_sample_covariance", name, prm, "same", lambda: run(a, S, X), lambda: (0.0, True), CC=S)
                pair("positive", name, prm, "below", lambda: run(a, C, X), lambda: (0.0, True), strict=False)
                pair("sample_covariance_is_not_the_strict_optimum", name, prm, "below", lambda: run(a, S + 0.05 * np.diag(np.diag(S)), X),
                     lambda: run(a, S, X), strict=True)
            if name == "LogLikelihood" and np.linalg.cond(S2) < 1e5:
                pair("not_maximal_at_second_moment", name, prm, "below", lambda: run(a, C, X), lambda: run(a, S2, X), strict=False)
                pair("not_strictly_maximal_at_second_moment", name, prm, "below",
                     lambda: run(a, S2 + 0.05 * np.diag(np.diag(S2)), X), lambda: run(a, S2, X), strict=True)
            if name == "BlockPseudoLikelihood" and np.linalg.cond(S2) < 1e5:
                pair("not_maximal_at_second_moment", name, prm, "below", lambda: run(a, C, X), lambda: run(a, S2, X), strict=False)
            if name == "GMVVariance":
                c = float(rng.choice([0.01, 3.0, 100.0]))
                pair("depends_on_scale", name, prm, "same", lambda: run(a, C, X), lambda: run(a, c * C, X))
        scens.append({"calls": calls})
    judge(ctx, scens)
