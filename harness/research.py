"""P33, P34: the evaluation harnesses in research/, recorded and judged by RollingTrace.tla and BoardTrace.tla."""
import re

import numpy as np

from . import common, tlc
from .common import enc, fenc


# ------------------------------------------------------------------ rolling evaluation
def parse_report(text):
    """The table printed by oos_equity.report."""
    out = {"parsed": False}
    rows, num = [], r"(-?\d+\.\d+|inf|nan)"
    for ln in text.splitlines():
        m = re.match(r"^(\w+)\s+" + num + r"$", ln)
        if m and m.group(1) != "equal_weight":
            rows.append({"name": m.group(1), "vol": m.group(2)})
        elif m:
            out["ew"] = m.group(2)
        m = re.match(r"^ORACLE.*\)\s*" + num + r"$", ln)
        if m:
            out["oracle"] = m.group(1)
        m = re.match(r"^RECOMMENDER.*\)\s*" + num + r"\s+rank (\d+)/(\d+)$", ln)
        if m:
            out.update(rec=m.group(1), rank=int(m.group(2)), of=int(m.group(3)))
        m = re.match(r"^best single fixed\s*" + num + r"\s+\((\w+)\)$", ln)
        if m:
            out.update(best=m.group(1), bestname=m.group(2))
    out["rows"] = rows
    out["parsed"] = {"ew", "oracle", "rec", "best"} <= set(out) and bool(rows)
    return out


def rolling(ctx, rng, p, T, train, test, step, default=False, scale=1.0):
    from precise import all_estimators, suggest
    from research import oos_equity
    A = np.linalg.cholesky(common.spd(rng, p, 8.0))
    z = rng.normal(size=(T, p)) if rng.random() < .5 else rng.standard_t(4, size=(T, p))
    X = np.round(z @ A.T, 4) * scale
    if rng.random() < .5:
        X[T // 2:] *= 2.5
    names = [E.__name__ for E in all_estimators()]
    windows, t = [], 0
    while t + train + test <= T:
        tr = X[t:t + train].copy()
        covs, precs = [], []
        for E in all_estimators():
            with common.limit(30):
                e = E().fit(tr.copy())
                covs.append(fenc(e.covariance_))
                precs.append(fenc(e.precision_))
        windows.append({"start": t, "covs": covs, "precs": precs, "rec": suggest(tr, top=1)[0].__name__})
        t += step
    out = {}
    try:
        arg = X.copy() if rng.random() < .7 else X.tolist()
        with common.limit(200):
            fixed, rec, oracle, ew, counts = oos_equity.rolling_oos(arg) if default else \
                oos_equity.rolling_oos(arg, train_len=train, test_len=test, step=step)
            text = oos_equity.report(fixed, rec, oracle, ew, counts)
        out = {"fixed": [{"name": k, "vol": enc(float(v))} for k, v in fixed.items()], "rec": enc(float(rec)),
               "oracle": enc(float(oracle)), "ew": enc(float(ew)), "counts": [{"name": k, "n": int(v)} for k, v in counts.items()],
               "kept": bool(np.array_equal(np.asarray(arg), X)), "report": parse_report(text)}
    except Exception as ex:
        out = {"err": common.errname(ex)}
    return {"X": fenc(X), "train": train, "test": test, "step": step, "names": names, "windows": windows, "out": out}


def p33(ctx):
    rng = ctx.rng
    r = tlc.run("RollingMC", cfg_text=f"SPECIFICATION Spec\nCONSTANT N = {ctx.pick(14, 22)}\nINVARIANTS Inside Complete\nCHECK_DEADLOCK FALSE\n")
    ctx.model("RollingMC", r, "the schedule of windows for all small sizes: Inside, Complete")
    scens = []
    for _ in range(ctx.pick(120, 1200)):
        p = int(rng.integers(1, 6))
        train = int(rng.integers(max(6, 2 * p), 26)) if rng.random() < .6 else int(rng.integers(26, 70))
        test = int(rng.integers(1, 9))
        step = int(rng.choice([1, 2, 3, test, train, train + test, test + 2]))
        k = int(rng.integers(1, 5))
        T = train + test + (k - 1) * step + int(rng.integers(0, step))
        scens.append(rolling(ctx, rng, p, T, train, test, step, scale=float(rng.choice([1.0, 1.0, 0.01]))))
    for _ in range(ctx.pick(6, 60)):       # wider than tall: the laws that need no inverse
        p, train, test = int(rng.integers(5, 9)), int(rng.integers(3, 6)), int(rng.integers(1, 5))
        scens.append(rolling(ctx, rng, p, train + 3 * test, train, test, test))
    scens.append(rolling(ctx, rng, 3, 60 + 21 + 21 + int(rng.integers(0, 21)), 60, 21, 21, default=True))
    for i, s in enumerate(scens):
        if not s["windows"]:
            raise tlc.Machinery("no window")
    fails, results = tlc.validate("RollingTrace", scens, lambda s: len(s["windows"]) + 1)
    ctx.validated("RollingTrace", len(scens), results)
    did = [m for r in results for m in r.marked("DID")]
    ctx.notes.append(f"of {len(scens)} runs: oracle judged in {sum(m['orc'] for m in did)}, recommender in {sum(m['rec'] for m in did)}, "
                     f"{sum(m['can'] for m in did)} of {17 * len(did)} fixed volatilities (the others need a numerically singular inverse)")
    for f in fails:
        s = scens[f["sc"]]
        if "harness_window" in f["fails"]:
            raise tlc.Machinery(f"windows of the harness differ from the specification's: {s['train'], s['test'], s['step'], len(s['X'])}")
        ctx.violation("+".join(f["fails"]), f"rolling_oos(train_len={s['train']}, test_len={s['test']}, step={s['step']}) on {len(s['X'])} rows: "
                      + ", ".join(f["fails"]), {k: v for k, v in s.items() if k != "windows"})
    ctx.sample({"lengths": [[len(s["X"]), s["train"], s["test"], s["step"], len(s["windows"])] for s in scens[:12]]})
    ctx.sample({k: v for k, v in scens[0]["out"].items() if k not in ("report",)})


# ------------------------------------------------------------------------- bake-off
ASSESSORS = ("LogLikelihood", "BlockPseudoLikelihood", "SchurLikelihood", "SteinLoss", "FrobeniusToTruth", "GMVVariance", "VariogramScore")


def synthetic(rng):
    """A random table of scores: {estimator: {scenario: {assessor: score}}}, without ties unless missing or infinite."""
    n = int(rng.integers(1, 8))
    names = [f"Est{c}" for c in rng.permutation(list("ABCDEFGHIJ"))[:n]]
    if rng.random() < .3:
        names[0] = "SchurConditionalCovariance"
    scens = [f"scen_{i}" for i in range(int(rng.integers(1, 7)))]
    ass = [str(a) for a in rng.permutation(ASSESSORS)[:int(rng.integers(1, 6))]]
    primary = str(rng.choice(ass))
    if "SchurLikelihood" in ass and rng.random() < .5:
        primary = "SchurLikelihood"
    wild = rng.random() < .5
    res = {e: {} for e in names}
    for i, s in enumerate(scens):
        for e in names:
            res[e][s] = {}
        for a in ass:
            vals = np.round(rng.choice(4001, size=n, replace=False) / 100.0 - 25.0, 4)
            for j, e in enumerate(names):
                v = float(vals[j])
                u = rng.random()
                if wild and u < .12:
                    v = -np.inf
                elif wild and u < .17:
                    v = np.inf
                elif wild and u < .27 and (i or j):
                    continue
                res[e][s][a] = v
    return res, names, scens, ass, primary


def column(res, names, scens, a):
    return [[enc(res[e][s][a]) if a in res[e][s] else "none" for e in names] for s in scens]


def parse_board(text, names):
    rows = []
    for ln in text.splitlines():
        w = ln.split()
        if len(w) >= 3 and w[0] in names:
            rows.append({"name": w[0], "avg": w[1], "means": w[2:]})
    return rows


def call(kind, fn, **base):
    t = {"kind": kind, **base}
    try:
        with common.limit(400):
            t.update(fn())
    except Exception as ex:
        t["err"] = common.errname(ex)
    return t


def boards(rng):
    from research import bakeoff
    res, names, scens, ass, primary = synthetic(rng)
    kw = {} if primary == "SchurLikelihood" and rng.random() < .6 else {"primary": primary}
    others = [a for a in ass if a != primary][:2]
    keep = {e: {s: dict(res[e][s]) for s in scens} for e in names}

    def board():
        rows = parse_board(bakeoff.leaderboard(res, **kw), names)
        if any(len(r["means"]) != 1 + len(others) for r in rows):
            rows = []
        return {"rows": rows}

    def winners():
        out = []
        for ln in bakeoff.per_scenario_winners(res, **kw).splitlines():
            m = re.match(r"^\s+(\S+)\s+->\s+(\S+)$", ln)
            if m:
                out.append({"scenario": m.group(1), "name": m.group(2)})
        return {"winners": out}
    T = column(res, names, scens, primary)
    a = call("board", board, names=names, T=T, cols=[column(res, names, scens, c) for c in (primary, *others)])
    b = call("winners", winners, names=names, T=T, scenarios=scens)
    if res != keep:
        a["err"] = "table_modified"
    return {"calls": [a, b]}


def table(seed):
    """The score table of a small bake-off, entry by entry."""
    from precise import all_estimators
    from precise.assessment import all_assessors
    from research import bakeoff
    kw = dict(d=4, n=80, n_test=30, seed=seed)

    def go():
        res = bakeoff.run(**kw)
        entries = []
        for name, train, test, truth in bakeoff.build_scenarios(**kw):
            if name.startswith("randomcov"):        # drawn afresh at every call
                continue
            for E in all_estimators():
                got = res[E.__name__][name]
                C = E().fit(train).covariance_
                want = []
                for a in all_assessors():
                    try:
                        v = float(a.score(C, X_test=test, true_cov=truth))
                    except Exception:
                        v = -np.inf
                    want.append(enc(v) if np.linalg.cond(C) < 1e7 else "skip")
                entries.append({"assessors": list(got), "got": [enc(v) for v in got.values()], "want": want})
        return {"estimators": list(res), "entries": entries}
    return {"calls": [call("table", go, names=[E.__name__ for E in all_estimators()], assessors=[a.name for a in all_assessors()])]}


# ----------------------------------------------------------------- validation protocol
def validation(rng, trained=False):
    """Run the leave-one-out validation with recording ensembles and a scripted assessor."""
    import precise, precise.recommend
    from precise import all_estimators
    from research import oos
    names = [E.__name__ for E in all_estimators()]
    saved = dict(oos.ENSEMBLES)
    heads = [str(k) for k in rng.permutation(sorted(saved))[:int(rng.integers(2, 5 if not trained else 4))]]
    trials, events = int(rng.integers(1, 5)), []

    class Scripted:
        name, needs_data, needs_truth = "Scripted", True, False
        left = []

        seen = []

        def score(self, cov, X_test=None, true_cov=None):
            if not self.left:
                self.seen = []
                self.left = [float(v) for v in rng.permutation(len(names)) * 1.5 - 7.0]
                if rng.random() < .3:
                    self.left[int(rng.integers(len(names)))] = None
            v = self.left.pop(0)
            self.seen.append((np.array(cov), np.array(X_test)))
            events.append({"kind": "score", "value": "none" if v is None else enc(v)})
            if v is None:
                raise ValueError("scripted failure")
            return v

    def gen(name):
        def make(p, r):
            events.append({"kind": "problem", "name": name})
            return common.spd(rng, p, 5.0)
        return make

    def recommend(X, top=3):
        pick = [all_estimators()[int(i)] for i in rng.permutation(len(names))[:top]]
        ev = {"kind": "recommended", "name": pick[0].__name__, "window": enc(X), "tests": [enc(t) for _, t in scripted.seen[:1]],
              "same_test": bool(all(np.array_equal(t, scripted.seen[0][1]) for _, t in scripted.seen)), "fits": []}
        if len(scripted.seen) == len(names):
            for i in rng.permutation(len(names))[:3]:
                want = all_estimators()[int(i)]().fit(np.array(X)).covariance_
                if np.linalg.cond(want) < 1e8:
                    ev["fits"].append({"got": enc(scripted.seen[int(i)][0]), "want": enc(want)})
        events.append(ev)
        return pick
    scripted = Scripted()
    patched = [(m, m.suggest) for m in (oos, precise, precise.recommend) if hasattr(m, "suggest")]
    nfit = 0
    try:
        oos.ENSEMBLES.clear()
        oos.ENSEMBLES.update({h: (gen(h), saved[h][1]) for h in heads})
        for m, _ in patched:
            m.suggest = recommend
        kw = dict(p=int(rng.integers(2, 5)), n_train=int(rng.integers(6, 20)), n_test=int(rng.integers(2, 8)), trials=trials,
                  seed=int(rng.integers(1000)), assessor=scripted)

        def go():
            if trained:
                r = oos.leave_one_family_out_trained(n_problems=nfit, **kw)
            else:
                r = oos.leave_one_ensemble_out(**kw)
            return {"got": [{"name": k, "fixed": v["best_fixed"], "rec": enc(float(v["rank_recommender"])),
                             "fix": enc(float(v["rank_best_fixed"]))} for k, v in r.items()]}
        if trained:
            nfit = int(rng.integers(3, 6))
        end = call("results", go)
    finally:
        for m, f in patched:
            m.suggest = f
        oos.ENSEMBLES.clear()
        oos.ENSEMBLES.update(saved)
    return {"ensembles": heads, "names": names, "trials": trials, "nfit": nfit, "calls": events + [end]}


def summary(rng):
    from research import oos
    n = int(rng.integers(1, 9))
    keys = [f"ensemble_{i}" for i in range(n)]
    res = {k: {"best_fixed": str(rng.choice(["EwaCovariance", "SchurConditionalCovariance", "OASCovariance"])),
               "rank_recommender": float(np.round(rng.uniform(1, 17), 3)), "rank_best_fixed": float(np.round(rng.uniform(1, 17), 3))} for k in keys}
    if rng.random() < .3:
        res[keys[0]]["rank_best_fixed"] = res[keys[0]]["rank_recommender"]

    def go():
        rows, out = [], {"parsed": False}
        for ln in oos.report(res).splitlines():
            m = re.match(r"^(\S+)\s+(\S+)\s+(\d+\.\d+)\s+(\d+\.\d+)\s+(rec|fix)$", ln)
            if m:
                rows.append(dict(zip(("name", "fixed", "rec", "fix", "win"), m.groups())))
            m = re.match(r"^MEAN.*?\s(\d+\.\d+)\s+(\d+\.\d+)$", ln)
            if m:
                out.update(parsed=True, mrec=m.group(1), mfix=m.group(2))
        return {**out, "rows": rows}
    return {"calls": [call("summary", go, results=[{"name": k, "fixed": v["best_fixed"], "rec": enc(v["rank_recommender"]),
                                                    "fix": enc(v["rank_best_fixed"])} for k, v in res.items()])]}


def p34(ctx):
    rng = ctx.rng
    for n, m in ((3, 2), (4, 1)) if ctx.quick else ((3, 2), (4, 1), (2, 3), (5, 1)):
        r = tlc.run("BoardMC", cfg_text=f"SPECIFICATION Spec\nCONSTANTS\n NEst = {n}\n NScen = {m}\nINVARIANTS Ranks Averages\nCHECK_DEADLOCK FALSE\n")
        ctx.model("BoardMC", r, f"every table of {n} estimators and up to {m} scenarios over six scores: Ranks, Averages")
    scens = [boards(rng) for _ in range(ctx.pick(600, 8000))]
    scens += [summary(rng) for _ in range(ctx.pick(100, 1500))]
    scens += [validation(rng) for _ in range(ctx.pick(25, 300))]
    try:
        import sklearn  # noqa: F401
        scens += [validation(rng, trained=True) for _ in range(ctx.pick(2, 15))]
    except ImportError:
        ctx.notes.append("scikit-learn is not installed: the trained validation was not exercised")
    scens += [table(int(rng.integers(10000))) for _ in range(ctx.pick(1, 6))]
    fails, results = tlc.validate("BoardTrace", scens, lambda s: len(s["calls"]))
    ctx.validated("BoardTrace", len(scens), results)
    for f in fails:
        s = scens[f["sc"]]
        t = s["calls"][f["l"] - 1]
        ctx.violation("+".join(f["fails"]), f"{t['kind']}: {', '.join(f['fails'])}",
                      {"scenario": {k: v for k, v in s.items() if k != "calls"}, "calls": s["calls"][max(0, f["l"] - 40):f["l"]]})
    ctx.sample({"board": scens[0]["calls"][0]})
    ctx.sample({"protocol_events": sum(len(s["calls"]) for s in scens if "ensembles" in s)})


# ------------------------------------------------------------------- theory of the Schur score
def partition(rng, p, parts=None):
    k = parts or int(rng.integers(1, p + 1))
    cuts = sorted(int(c) for c in rng.choice(np.arange(1, p), size=k - 1, replace=False)) if k > 1 else []
    return [int(v) for v in np.diff([0, *cuts, p])]


def theory_call(rng, kind):
    import research.schur_likelihood_theory as th
    import research.schur_godambe as gd
    import research.schur_gamma_star as gs
    import research.schur_spiked as sk
    p = int(rng.integers(2, 6))
    u = rng.random()
    g = 1.0 if u < .15 else 0.0 if u < .25 else float(np.round(rng.uniform(.01, 1), int(rng.integers(1, 5))))
    mat = lambda cond=None: common.spd(rng, p, cond or float(10 ** rng.uniform(0.2, 3))) * float(10 ** rng.uniform(-1.5, 1.5))  # noqa: E731
    if kind == "op":
        C, sizes = mat(), partition(rng, p)

        def go():
            W, Ld = gd.schur_operator(C.copy(), sizes, g)
            return {"W": enc(W), "Ld": enc(float(Ld))}
        return call(kind, go, C=enc(C), sizes=sizes, g=enc(g))
    if kind in ("snr", "mc"):
        T, A, B, sizes = mat(20.0), mat(30.0), mat(30.0), partition(rng, p)
        if rng.random() < .5:                    # candidates close to each other, from a fifth to a millionth of the truth
            B = A + float(rng.choice([0.2, 1e-2, 1e-4, 1e-6] if kind == "snr" else [0.2])) * common.spd(rng, p, 20.0) * np.trace(T) / p
        base = dict(T=enc(T), A=enc(A), B=enc(B), sizes=sizes, g=enc(g))
        if kind == "snr":
            return call(kind, lambda: {"ab": enc(float(gd.snr(A, B, T, sizes, g))), "ba": enc(float(gd.snr(B, A, T, sizes, g)))}, **base)
        n = 4000
        return call(kind, lambda: {"v": enc(float(gd.snr_montecarlo(A, B, T, sizes, g, n=n, seed=int(rng.integers(10 ** 6)))))}, n=n, **base)
    if kind == "ell":
        T, sizes = mat(), partition(rng, p)
        C = mat()
        if rng.random() < .4:                    # an inflated or indefinite candidate
            s = rng.normal(size=(p, p)) * float(10 ** rng.uniform(-1.5, 0)) * np.abs(C).max()
            C = C + s + s.T
            if any(np.linalg.cond(C[:k, :k]) > 1e5 for k in range(1, p)):
                C = mat()
        return call(kind, lambda: {"v": enc(float(th.expected_schur_loglik(T, C, sizes, g)))}, T=enc(T), C=enc(C), sizes=sizes, g=enc(g))
    if kind == "best":
        g = g or 0.5
        T, sizes = mat(), partition(rng, p)
        return call(kind, lambda: {"C": enc(th.closed_form_general(T, sizes, g))}, T=enc(T), sizes=sizes, g=enc(g))
    if kind == "two":
        g = g or 0.5
        a, s = (float(10 ** rng.uniform(-1.5, 1.5)) for _ in "as")
        b = float(rng.normal() * 10 ** rng.uniform(-1, 1))
        A, D = (float(10 ** rng.uniform(-1, 1)) for _ in "ad")
        cand = [A, float(rng.uniform(-1.5, 1.5) * np.sqrt(A * D)), D]

        def go():
            e = b * b * a
            thr = th._solve_spd_threshold(e / (e + s)) if hasattr(th, "_solve_spd_threshold") else None
            return {"best": [enc(float(v)) for v in th.closed_form_maximizer(a, b, s, g)], "holds": bool(th.spd_threshold_holds(a, b, s, g)),
                    "v": enc(float(th.schur_loglik_population(a, b, s, g, *cand))), "thr": "none" if thr is None else enc(float(thr))}
        return call(kind, go, a=enc(a), b=enc(b), s=enc(s), g=enc(g), cand=[enc(v) for v in cand])
    if kind == "canon":
        C, p1 = mat(), int(rng.integers(1, p))
        return call(kind, lambda: {"v": [enc(float(v)) for v in th.canonical_corr2(C, p1)]}, C=enc(C), p1=p1)
    if kind == "cone":
        T, sizes = mat(), partition(rng, p, 2)
        g = float(rng.uniform(.05, 1))
        return call(kind, lambda: {"spd": bool(np.linalg.eigvalsh(th.closed_form_general(T, sizes, g)).min() > 0)}, T=enc(T), sizes=sizes, g=enc(g))
    if kind == "trust":
        n, r = int(rng.integers(3, 500)), float(rng.uniform(0, 1) ** float(rng.choice([1, 3])))
        return call(kind, lambda: {"v": enc(float(gs.gamma_star(n, r)))}, n=n, r=enc(r))
    if kind == "risk":
        n, seed = int(rng.integers(20, 60)), int(rng.integers(10 ** 6))
        a, s, b = float(10 ** rng.uniform(-.5, .5)), float(10 ** rng.uniform(-.5, .5)), float(rng.normal())
        g = float(rng.uniform(0.05, 1))
        R = lambda h, m: enc(float(gs.residual_R(h, a, b, s, n, m, np.random.default_rng(seed))))  # noqa: E731
        return call(kind, lambda: {"zero": R(0.0, 5), "v": R(g, 4000)}, a=enc(a), b=enc(b), s=enc(s), g=enc(g), n=n)
    if kind == "delta":
        p = int(rng.integers(2, 5))
        T, sizes = common.spd(rng, p, 10.0), partition(rng, p)
        al, be, n = .5, .05, int(rng.integers(10, 400))

        def go():
            m, sd, r = sk.snr_delta(p, n, sizes, g, al, be, T)
            return {"mean": enc(float(m)), "sd": enc(float(sd)), "ratio": enc(float(r))}
        return call(kind, go, T=enc(T), sizes=sizes, g=enc(g), al=enc(al), be=enc(be), n=n)
    C, T = mat(), mat()
    return call("kl", lambda: {"v": enc(float(gd._kl(C, T) if hasattr(gd, "_kl") else 0))}, C=enc(C), T=enc(T))


def p35(ctx):
    rng = ctx.rng
    for dim3, diags, off in ((False, 3, 1), (True, 3, 1)) if ctx.quick else ((False, 3, 1), (True, 4, 2)):
        r = tlc.run("SchurMC", cfg_text="SPECIFICATION Spec\nCONSTANTS\n Dim3 = %s\n Diags = {%s}\n OffMax = %d\nINVARIANTS Endpoints BlockByBlock "
                    "Recovers Maximises Cone Divergence Trusts\nCHECK_DEADLOCK FALSE\n"
                    % (str(dim3).upper(), ",".join(str(v) for v in range(2, diags + 1)), off))
        ctx.model("SchurMC", r, "every small positive definite integer matrix, ordered partition and four couplings: Endpoints, BlockByBlock, Recovers, "
                  "Maximises, Cone, Divergence, Trusts")
    n = {"op": 150, "snr": 100, "mc": 10, "ell": 200, "best": 120, "two": 200, "canon": 80, "cone": 120, "trust": 60, "risk": 10, "kl": 30, "delta": 16}
    calls = [theory_call(rng, k) for k, m in n.items() for _ in range(ctx.pick(m, 12 * m))]
    fails, results = tlc.validate("SchurTrace", calls, lambda s: 1)
    ctx.validated("SchurTrace", len(calls), results)
    for f in fails:
        t = calls[f["sc"]]
        ctx.violation("+".join(f["fails"]), f"{t['kind']}: {', '.join(f['fails'])}", t)
    ctx.sample({"calls": n})
    ctx.sample(calls[0])


# --------------------------------------------------------------------------- power of judges
def judge_call(rng):
    from research import metric_power as mp
    p = int(rng.integers(2, 6))
    n = p + int(rng.integers(2, 9))
    names = list(mp.METRICS) + ["projected", "blockwise", "damped"]
    name = str(rng.choice(names))
    worst = 5 if name in ("blockwise", "damped") else 2     # these two floor the eigenvalues at a thousandth of the largest
    C = common.spd(rng, p, float(10 ** rng.uniform(.1, worst))) * float(10 ** rng.uniform(-1, 1))
    X = rng.multivariate_normal(np.zeros(p), common.spd(rng, p, 5.0), size=n)
    o = {"none": 0}
    if name == "projected":
        k = int(rng.integers(1, p + 1))
        subs = [np.linalg.qr(rng.normal(size=(p, k)))[0][:, :k].T for _ in range(int(rng.integers(1, 4)))]
        o, fn = {"subs": enc(np.array(subs))}, lambda: mp._kproj_loglik(C, X, subs)
    elif name == "blockwise":
        size = int(rng.integers(1, p + 3))
        o, fn = {"size": size}, lambda: mp.block_pseudo_loglik(C, X, size)
    elif name == "damped":
        ids = rng.integers(0, 3, size=p)
        g = float(rng.choice([0.0, 1.0, np.round(rng.random(), 3)]))
        o, fn = {"ids": [int(i) for i in ids], "g": enc(g)}, lambda: mp._schur_loglik(C, X, ids, g)
    else:
        dirs = rng.normal(size=(int(rng.integers(1, 5)), p))
        dirs /= np.linalg.norm(dirs, axis=1, keepdims=True)
        o, fn = {"dirs": enc(dirs)}, lambda: mp.METRICS[name](C, X, dirs)
    if name in ("projected", "damped") and not hasattr(mp, {"projected": "_kproj_loglik", "damped": "_schur_loglik"}[name]):
        return None
    return {"calls": [call("judge", lambda: {"v": enc(float(fn()))}, name=name, C=enc(C), X=enc(X), o=o)]}


def power_run(rng):
    from research import metric_power as mp
    events = []
    if not hasattr(mp, "_spd_factor"):
        return None                               # the truths cannot be observed
    saved, gen, perturb = dict(mp.METRICS), mp._spd_factor, getattr(mp, "_perturb", None)
    p, trials, grid = int(rng.integers(2, 5)), int(rng.integers(3, 12)), sorted({int(v) for v in rng.integers(6, 20, size=2)})
    min_gap = float(rng.choice([0.0, 0.02, 0.2]))

    def truth(*a, **k):
        T = gen(*a, **k)
        events.append({"kind": "truth", "T": enc(T)})
        return T

    def cand(*a, **k):
        C = perturb(*a, **k)
        events.append({"kind": "cand", "C": enc(C)})
        return C

    def watch(nm):
        def score(C, X, dirs):
            v = saved[nm](C, X, dirs)
            events.append({"kind": "scored", "name": nm, "n": len(X), "how": enc(float(np.sum(dirs))), "first": enc(X[0]), "sum": enc(X.sum(axis=0)), "C": enc(C), "v": enc(float(v))})
            return v
        return score
    keep = [str(k) for k in rng.permutation(sorted(saved))[:int(rng.integers(1, 4))]]
    try:
        mp._spd_factor = truth
        if perturb is not None:
            mp._perturb = cand
        mp.METRICS.clear()
        mp.METRICS.update({k: watch(k) for k in keep})

        def go():
            power, gap, _ = mp.run(p=p, n_grid=tuple(grid), trials=trials, n_dirs=3, min_gap=min_gap, seed=int(rng.integers(10 ** 6)))
            return {"gap": enc(float(gap)), "power": [{"name": m, "n": int(n), "v": enc(float(v))} for m, d in power.items() for n, v in d.items()]}
        end = call("done", go, trials=trials, min_gap=enc(min_gap), judges=keep, grid=grid)
    finally:
        mp._spd_factor = gen
        if perturb is not None:
            mp._perturb = perturb
        mp.METRICS.clear()
        mp.METRICS.update(saved)
    if not any(e["kind"] == "truth" for e in events):
        return None                               # the truths were not drawn through the observed function
    if end.get("err") == "ZeroDivisionError" and not any(e["kind"] == "scored" for e in events):
        del end["err"]                            # no pair was counted: there is no power to report
        end.update(gap="nan", power=[])
    return {"gold": "divergence", "o": {"none": 0}, "calls": events + [end]}


def power_study(rng):
    """The other experiments: projections, noisy tail, damped coupling, blockwise; truths and judges observed."""
    from research import metric_power as mp
    events, what = [], str(rng.choice(["projection", "projection", "high_dim", "schur", "pseudo", "pseudo_clean"]))
    p, n, trials, seed = 6, int(rng.integers(8, 16)), int(rng.integers(3, 9)), int(rng.integers(10 ** 6))
    opt = {}
    private = ("_loglik", "_frobenius", "_stein", "_kproj_loglik", "_schur_loglik", "block_pseudo_loglik", "_spd_factor", "_perturb")
    if any(not hasattr(mp, f) for f in private):
        return None
    saved = {f: getattr(mp, f) for f in private}
    depth = [0]                                    # judges calling other judges are not observed

    def watch(f, name):
        def score(C, X, *a):
            depth[0] += 1
            try:
                v = saved[f](C, X, *a)
            finally:
                depth[0] -= 1
            nm, how = name(*a)
            if depth[0] == 0:
                events.append({"kind": "scored", "name": nm, "n": len(X), "how": how, "first": enc(X[0]), "sum": enc(X.sum(axis=0)),
                               "C": enc(np.asarray(C, dtype=float)), "v": enc(float(v))})
            return v
        return score

    def truth(T):
        events.append({"kind": "truth", "T": enc(T)})
        return T

    def cand(*a, **k):
        C = saved["_perturb"](*a, **k)
        events.append({"kind": "cand", "C": enc(C)})
        return C

    class Recorded(np.random.Generator):
        def multivariate_normal(self, mean, cov, *a, **k):
            truth(np.asarray(cov))
            return super().multivariate_normal(mean, cov, *a, **k)
    default_rng = np.random.default_rng
    by_div = what in ("projection", "pseudo_clean")
    min_gap = 0.0
    try:
        mp._loglik = watch("_loglik", lambda: ("full", 0))
        mp._frobenius = watch("_frobenius", lambda: ("frobenius", 0))
        mp._stein = watch("_stein", lambda: ("stein", 0))
        mp._kproj_loglik = watch("_kproj_loglik", lambda W: (f"proj{len(W[0])}x{len(W)}", enc(float(sum(w.sum() for w in W)))))
        mp._schur_loglik = watch("_schur_loglik", lambda ids, g: (f"gamma{float(g)}", enc(float(np.sum(ids)))))
        mp.block_pseudo_loglik = watch("block_pseudo_loglik", lambda b: (f"block{b}", 0))
        if by_div:
            mp._spd_factor = lambda *a, **k: truth(saved["_spd_factor"](*a, **k))
            mp._perturb = cand
        else:
            np.random.default_rng = lambda s=None: Recorded(np.random.PCG64(s))
        ks = [k for k in (1, 2, 3, None) if rng.random() < .7] or [2]
        budget = int(rng.integers(6, 14))
        label = {}
        if what == "projection":
            min_gap = float(rng.choice([0.0, .3, 1.0, 3.0]))
            for k in ks:
                kk = p if k is None else k
                label[k] = f"proj{kk}x{max(1, budget // kk)}"

            def go():
                power, gap = mp.projection_power(p=p, k_list=tuple(ks), total_dirs=budget, eps_good=.15, eps_bad=.3, n_test=n,
                                                 trials=trials, min_gap=min_gap, seed=seed)
                return {"gap": enc(float(gap)), "power": [{"name": label[k], "n": n, "v": enc(float(v))} for k, v in power.items()]}
        elif what == "high_dim":
            opt = {"bulk": 3}
            label = {"loglik": "full", "stein": "stein", "frobenius": "frobenius"}
            label.update({f"proj_k{p if k is None else k}": f"proj{p if k is None else k}x{max(1, 60 // (p if k is None else k))}" for k in ks})

            def go():
                power = mp.proof_high_dim(p=p, bulk=3, k_list=tuple(ks), n_test=n, trials=trials, seed=seed)
                return {"gap": "none", "power": [{"name": label[k], "n": n, "v": enc(float(v))} for k, v in power.items()]}
        elif what == "schur":
            gs = sorted({float(g) for g in rng.choice([0.0, .25, .5, .75, 1.0], size=3)})
            label = {"full": "full", **{f"gamma_{g}": f"gamma{g}" for g in gs}}

            def go():
                power = mp.schur_power(p=p, g=3, sig_cross=.02, gammas=tuple(gs), n_test=n, trials=trials, seed=seed)
                return {"gap": "none", "power": [{"name": label[k], "n": n, "v": enc(float(v))} for k, v in power.items()]}
        else:
            opt = {"bulk": 4}
            label = {"frobenius": "frobenius", "full_loglik": "full"}
            label.update({f"pll_b{p if k is None else k}": f"block{p if k is None else k}" for k in ks})

            def go():
                power = mp.pseudo_likelihood_power(regime="clean" if by_div else "noisy_tail", block_sizes=tuple(ks), p=p, bulk=4,
                                                   n_test=n, trials=trials, seed=seed)
                return {"gap": "none", "power": [{"name": label[k], "n": n, "v": enc(float(v))} for k, v in power.items()]}
        end = call("done", go, trials=trials, min_gap=enc(min_gap), judges=sorted(label.values()), grid=[n])
    finally:
        np.random.default_rng = default_rng
        for f, v in saved.items():
            setattr(mp, f, v)
    if not any(e["kind"] == "truth" for e in events) or not any(e["kind"] == "scored" for e in events):
        return None if end.get("err") in (None, "ZeroDivisionError") else {"gold": "divergence", "o": {"none": 0}, "calls": [end]}
    gold = "divergence" if by_div else "within" if what == "schur" else "bulk"
    return {"gold": gold, "o": opt or {"none": 0}, "calls": events + [end]}


def power_report(rng):
    from research import metric_power as mp
    grid = [int(v) for v in sorted(rng.choice(500, size=int(rng.integers(1, 6)), replace=False) + 1)]
    power = {m: {n: float(np.round(rng.random(), 3)) for n in grid} for m in rng.permutation(list(mp.METRICS))}

    def go():
        rows = []
        for ln in mp.report(power, 0.1, grid).splitlines():
            w = ln.split()
            if w and w[0] in power:
                rows.append({"name": w[0], "v": w[1:]})
        return {"rows": rows}
    return {"calls": [call("report", go, power=[{"name": str(m), "v": [enc(v) for v in d.values()]} for m, d in power.items()])]}


def p36(ctx):
    rng = ctx.rng
    r = tlc.run("JudgesMC", cfg_text="SPECIFICATION Spec\nCONSTANT NRows = %d\nINVARIANT Bridges\nCHECK_DEADLOCK FALSE\n" % ctx.pick(2, 4))
    ctx.model("JudgesMC", r, "all small matrices and held-out rows: Bridges")
    scens = [judge_call(rng) for _ in range(ctx.pick(700, 10000))]
    scens += [power_run(rng) for _ in range(ctx.pick(25, 300))]
    scens += [power_study(rng) for _ in range(ctx.pick(40, 400))]
    scens += [power_report(rng) for _ in range(ctx.pick(60, 600))]
    scens = [s for s in scens if s]
    fails, results = tlc.validate("JudgesTrace", scens, lambda s: len(s["calls"]))
    ctx.validated("JudgesTrace", len(scens), results)
    for f in fails:
        t = scens[f["sc"]]["calls"]
        ctx.violation("+".join(f["fails"]), f"{t[f['l'] - 1]['kind']}: {', '.join(f['fails'])}", {"calls": t[max(0, f["l"] - 40):f["l"]]})
    ctx.counts["power_experiments_observed"] = sum(1 for s in scens if s["calls"][-1]["kind"] == "done")
    ctx.sample({"power": [s["calls"][-1] for s in scens if s["calls"][-1]["kind"] == "done"][:1]})
