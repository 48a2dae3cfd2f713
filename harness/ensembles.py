"""P38: the synthetic problems of research/ (oos.ENSEMBLES, bakeoff.build_scenarios, metric_power's candidates), judged by spec/EnsTrace.tla."""
import numpy as np

from . import common, tlc
from .common import enc

FAMILY = {"equicorr": "equicorr", "one_factor": "one_factor", "three_factor": "three_factor", "ar1_toeplitz": "ar1", "spiked": "spiked",
          "diag_hetero": "diag", "one_factor_heavy": "one_factor", "ar1_heavy": "ar1"}
HEAVY = {"one_factor_heavy", "ar1_heavy"}


RANDOM = ("randomcov_lkj", "randomcov_wishart", "randomcov_residuals")      # present when the optional randomcov is installed
LEAST = 1e-5


def guarded(t, f):
    try:
        with common.limit(60):
            t.update(f())
    except Exception as ex:
        t["err"] = common.errname(ex)
    return t


def families(rng, n_truth, n_rows):
    from research import oos
    out = [{"calls": [{"kind": "names", "what": "ensemble", "want": sorted(FAMILY), "got": list(oos.ENSEMBLES)}]}]
    for nm in [*FAMILY, *RANDOM]:
        fam = FAMILY.get(nm, "covariance")
        if nm not in oos.ENSEMBLES:
            continue
        gen, heavy = oos.ENSEMBLES[nm]
        out.append({"calls": [{"kind": "flag", "name": nm, "heavy": bool(heavy), "want": nm in HEAVY}]})
        for _ in range(n_truth):
            p = int(rng.integers(3, 13))
            out.append({"calls": [guarded({"kind": "truth", "family": fam, "p": p},
                                          lambda: {"T": enc(gen(p, np.random.default_rng(int(rng.integers(1 << 30)))))})]})
        s = int(rng.integers(1 << 30))
        a, b, c = (np.asarray(gen(6, np.random.default_rng(k))) for k in (s, s, s + 1))
        if nm in FAMILY:                # randomcov draws from numpy's global state
            out.append({"calls": [{"kind": "seeded", "again": bool(np.allclose(a, b)),
                                   "differs": fam in ("equicorr", "ar1") or not np.allclose(a, c)}]})
        if hasattr(oos, "_sample"):
            for _ in range(n_rows):
                p = int(rng.integers(3, 7))
                g = np.random.default_rng(int(rng.integers(1 << 30)))
                T = np.asarray(gen(p, g))
                if fam == "covariance" and np.linalg.eigvalsh(T)[0] < LEAST * T.max():
                    continue
                n = int(rng.integers(600, 1001))
                out.append({"calls": [guarded({"kind": "sample", "family": fam, "p": p, "n": n, "least": 300, "heavy": bool(heavy), "T": enc(T)},
                                              lambda: {"X": enc(oos._sample(T, n, g, heavy))})]})
    return out


WANT = ("equicorr", "one_factor", "ar1_toeplitz", "high_dim_low_n", "regime_change", "contaminated", "heavy_tailed")
KIND = {"equicorr": "equicorr", "one_factor": "one_factor", "ar1_toeplitz": "ar1", "high_dim_low_n": "one_factor", "regime_change": "crisis",
        "contaminated": "one_factor", "heavy_tailed": "three_factor"}


def same(a, b):
    """Equal on the scenarios that do not depend on an optional package."""
    a, b = ([x for x in y if x[0] not in RANDOM] for y in (a, b))
    return [x[0] for x in a] == [x[0] for x in b] and all(
        np.shape(u) == np.shape(v) and np.allclose(u, v) for x, y in zip(a, b) for u, v in zip(x[1:], y[1:]))


def suite(rng, n_suites, n_mix):
    from research import bakeoff
    out, mixed = [], []
    for k in range(n_suites + n_mix):
        mixing = k >= n_suites
        d = int(rng.integers(3, 7))
        n, m = (1500, 50) if mixing else (2 * int(rng.integers(300, 500)) + int(rng.integers(2)), int(rng.integers(300, 600)))
        d = 8 if mixing else d
        seed = int(rng.integers(1 << 30))
        kw = {} if (not mixing and k == 0) else dict(d=d, n=n, n_test=m, seed=seed)
        if not kw:
            d, n, m, seed = 12, 1500, 500, 0
        try:
            with common.limit(120):
                scs = list(bakeoff.build_scenarios(**kw))
                again = None if mixing else list(bakeoff.build_scenarios(**kw))
                other = None if mixing else list(bakeoff.build_scenarios(d=d, n=n, n_test=m, seed=seed + 1))
        except Exception as ex:
            out.append({"calls": [{"kind": "names", "err": common.errname(ex)}]})
            continue
        by = {s[0]: s for s in scs}
        if not mixing:
            out.append({"calls": [{"kind": "names", "what": "scenario", "want": list(WANT), "got": list(by)},
                                  {"kind": "seeded", "again": same(scs, again), "differs": not same(scs, other)}]})
        for nm in [*WANT, *RANDOM]:
            if nm not in by or (mixing and nm != "contaminated"):
                continue
            _, train, test, truth = by[nm]
            train, test, truth = np.asarray(train), np.asarray(test), np.asarray(truth)
            p = 40 if nm == "high_dim_low_n" else d
            fam = KIND.get(nm, "covariance")
            calls = [{"kind": "truth", "family": fam, "p": p, "T": enc(truth)}]
            if fam == "covariance" and np.linalg.eigvalsh(truth)[0] < LEAST * truth.max():
                out.append({"calls": calls})
                continue

            def rows(fam, X, count, least=250):
                if nm == "high_dim_low_n":      # the shape, then a marginal: the first variables
                    calls.append({"kind": "shape", "n": count, "p": p, "rows": len(X), "cols": int(X.shape[1])})
                    calls.append({"kind": "sample", "family": "covariance", "p": 5, "n": count, "least": 250, "heavy": False,
                                  "T": enc(truth[:5, :5]), "X": enc(X[:, :5])})
                else:
                    calls.append({"kind": "sample", "family": fam, "p": p, "n": count, "least": least, "heavy": nm == "heavy_tailed",
                                  "T": enc(truth), "X": enc(X)})
            if nm == "contaminated":
                calls.append({"kind": "shape", "n": n, "p": p, "rows": len(train), "cols": int(train.shape[1])})
                if mixing:
                    mixed.append({"X": enc(train), "T": enc(truth)})
            elif nm == "regime_change":
                h = n // 2
                calls.append({"kind": "shape", "n": 2 * h, "p": p, "rows": len(train), "cols": int(train.shape[1])})
                rows("calm", train[:h], h)
                rows("crisis", train[h:], h)
            elif nm == "high_dim_low_n":
                rows(fam, train, 60)
            else:
                rows(fam, train, n)
            if not mixing:
                rows(fam, test, m)
                calls.append({"kind": "apart", "train": enc(train[:, 0]), "test": enc(test[:, 0])})
            out.append({"calls": calls})
    out += [{"calls": [{"kind": "mix", "samples": mixed[i:i + 24]}]} for i in range(0, len(mixed) - 23, 24)]
    return out


def candidates(rng, count):
    """The candidate matrices and the random directions the power experiments are made of (skipped when renamed)."""
    from research import metric_power as mp
    out = []
    for _ in range(count):
        p = int(rng.integers(2, 9))
        T = common.spd(rng, p, float(rng.choice([2, 20, 100]))) * float(rng.choice([.01, 1, 50]))
        eps = float(rng.choice([0.02, 0.1, 0.3, 0.9]))
        if hasattr(mp, "_perturb"):
            out.append({"calls": [guarded({"kind": "perturbed", "T": enc(T), "eps": enc(eps)},
                                          lambda: {"C": enc(mp._perturb(T, eps, np.random.default_rng(int(rng.integers(1 << 30)))))})]})
        if hasattr(mp, "_random_subspaces"):
            k, m = int(rng.integers(1, p + 1)), int(rng.integers(1, 9))
            out.append({"calls": [guarded({"kind": "subspaces", "k": k, "n": m, "p": p}, lambda: {"W": [
                enc(w) for w in mp._random_subspaces(p, k, m, np.random.default_rng(int(rng.integers(1 << 30))))]})]})
    return out


def p38(ctx):
    rng = ctx.rng
    mp = ctx.pick(4, 5)
    r = tlc.run("EnsMC", cfg_text=f"SPECIFICATION Spec\nCONSTANTS\n MaxP = {mp}\nINVARIANTS Sound Sharp Known\nCHECK_DEADLOCK FALSE\n")
    ctx.model("EnsMC", r, f"every truth of {mp} or fewer variables over the extreme parameters, and every single entry changed: Sound Sharp Known")
    scens = families(rng, ctx.pick(12, 120), ctx.pick(3, 30))
    scens += suite(rng, ctx.pick(4, 30), ctx.pick(24, 240))
    scens += candidates(rng, ctx.pick(80, 800))
    fails, results = tlc.validate("EnsTrace", scens, lambda s: len(s["calls"]))
    ctx.validated("EnsTrace", len(scens), results)
    for f in fails:
        t = scens[f["sc"]]["calls"][f["l"] - 1]
        ctx.violation("+".join(f["fails"]), f"{t['kind']} {t.get('family', '')}: {', '.join(f['fails'])}", t)
    for s in scens[:: max(1, len(scens) // 3)]:
        c = dict(s["calls"][0])
        for k in ("X", "samples"):
            if k in c:
                c[k] = c[k][:3] if k == "X" else len(c[k])
        ctx.sample({"call": c})
