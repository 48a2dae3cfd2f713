"""P37: Elo ratings of recorded battles (research/legacy_skatervaluation/battleutil), judged by spec/EloTrace.tla.

The rating code imports packages that no longer exist (precise.skatervaluation, precise.whereami); they are
stood in for by the very files of the repository and a scratch results directory."""
import contextlib, importlib.util, io, json, os, random, shutil, sys, tempfile, types
from collections import Counter

import numpy as np

from . import common, tlc
from .common import enc

UTIL = "research/legacy_skatervaluation/battleutil"


def load(scratch):
    """The rating modules of the repository under the names they import each other by."""
    root = os.path.join(os.environ.get("PRECISE_REPO", "/repo"), UTIL)
    here = types.ModuleType("precise.whereami")
    here.BATTLE_RESULTS_DIR = os.path.join(scratch, "results")
    here.ELO_CSV = os.path.join(scratch, "elo.csv")
    sys.modules["precise.whereami"] = here
    for pkg in ("precise.skatervaluation", "precise.skatervaluation.battleutil"):
        m = types.ModuleType(pkg)
        m.__path__ = []
        sys.modules[pkg] = m
    out = {}
    for name in ("eloformulas", "speed", "battleio", "compilingeloratings"):
        full = "precise.skatervaluation.battleutil." + name
        spec = importlib.util.spec_from_file_location(full, os.path.join(root, name + ".py"))
        m = importlib.util.module_from_spec(spec)
        sys.modules[full] = m
        spec.loader.exec_module(m)
        out[name] = m
    return out


def unload():
    for k in [k for k in sys.modules if k == "precise.whereami" or k.startswith("precise.skatervaluation")]:
        del sys.modules[k]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


NAMES = ("alpha", "schur_weak_pm_t0_d0_r025_n50_s5_g100_long_manager", "b", "ppo_ewa_d0_r025_n50_quad_long_manager", "ewa 5%", "z_1",
         "weak_ewa_t0_d0_r050_n50_long_manager", "hrp_weak_emp_d0_r050_n25_long_manager")


def bag(rng, n, total):
    """Results <<winner, loser>> -> how often, every contestant in at least one; about `total` results in all."""
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    out = Counter()
    for i in range(n):
        out[pairs[int(rng.choice([k for k, b in enumerate(pairs) if i in b]))]] += 1
    while sum(out.values()) < total:
        out[pairs[int(rng.integers(len(pairs)))]] += int(rng.integers(1, max(2, (total - sum(out.values())) // 2 + 1)))
    return out


def wins_of(counts):
    return [[i + 1, j + 1, int(c)] for (i, j), c in counts.items()]


def keyed(counts, names, rng, floats=True):
    return {f"{names[i]}>{names[j]}": (float(c) if floats else int(c)) for (i, j), c in counts.items()}


def table(elo, names):
    return [enc(float(elo[nm])) if nm in elo else "missing" for nm in names]


def changes(mods, rng, n):
    f = mods["eloformulas"]
    calls = []
    for _ in range(n):
        a, b = (float(x) for x in np.round(rng.normal(size=2) * rng.choice([10, 100, 400, 2000]) + 1500, 3))
        if rng.random() < .1:
            a = float(round(a))          # so that the difference is exact
            b = a + float(rng.choice([-1, 1])) * float(rng.choice([3200.0, 3200.5, 3199.5, 1e5]))
        k, ff, pts = float(rng.choice([1, 10, 25, 32.5])), float(rng.choice([400, 200, 1000])), float(rng.choice([0, 1, 0.5]))
        t = {"kind": "change", "a": enc(a), "b": enc(b), "points": enc(pts), "k": enc(k), "f": enc(ff)}
        try:
            if rng.random() < .3:
                t["k"], t["f"], up_down = enc(25.0), enc(400.0), f.elo_change(a, b, pts)
            else:
                up_down = f.elo_change(a, b, pts, k=k, f=ff)
            t["up"], t["down"] = enc(float(up_down[0])), enc(float(up_down[1]))
        except Exception as ex:
            t["err"] = common.errname(ex)
        calls.append(t)
        d = b - a
        t = {"kind": "expected", "d": enc(d), "f": enc(ff)}
        try:
            t["e"] = enc(float(f.elo_expected(d, ff)))
        except Exception as ex:
            t["err"] = common.errname(ex)
        calls.append(t)
    return {"calls": calls}


def replay(mods, rng, limit=0, total=None, n=None):
    comp = mods["compilingeloratings"]
    n = n or int(rng.integers(2, 5))
    names = [NAMES[i] for i in rng.permutation(len(NAMES))[:n]]
    counts = bag(rng, n, total or int(rng.integers(1, 6)))
    k = float(rng.choice([10, 25, 1, 100]))
    t = {"kind": "table", "n": n, "wins": wins_of(counts), "k": enc(k), "limit": limit, "search": 5}
    try:
        random.seed(int(rng.integers(1 << 30)))
        with common.limit(60), quiet():
            if limit:
                keep, comp.ELO_LIMIT = comp.ELO_LIMIT, limit
            try:
                elo = comp.elo_from_win_counts(keyed(counts, names, rng), **({"k": k} if k != 10 or rng.random() < .5 else {}))
            finally:
                if limit:
                    comp.ELO_LIMIT = keep
        t["table"] = table(elo, names)
    except Exception as ex:
        t["err"] = common.errname(ex)
    return {"calls": [t]}


def frequency(mods, rng, runs):
    comp = mods["compilingeloratings"]
    counts = Counter([{(0, 1): 2, (1, 0): 1}, {(0, 1): 1, (1, 2): 1, (2, 0): 1}, {(0, 1): 3, (1, 0): 1}, {(0, 1): 1, (0, 2): 2}][int(rng.integers(4))])
    n = 1 + max(max(b) for b in counts)
    names = NAMES[:n]
    seen = Counter()
    t = {"kind": "freq", "n": n, "wins": wins_of(counts), "k": enc(40.0), "runs": runs}
    try:
        with common.limit(120), quiet():
            for _ in range(runs):
                random.seed(int(rng.integers(1 << 30)))
                elo = comp.elo_from_win_counts(keyed(counts, names, rng), k=40.0)
                got = tuple(float(elo[x]) for x in names)
                seen[next((o for o in seen if np.allclose(o, got, rtol=0, atol=1e-6)), got)] += 1
        t["tables"] = [{"table": [enc(v) for v in key], "count": c} for key, c in seen.items()]
    except Exception as ex:
        t["err"] = common.errname(ex)
    return {"calls": [t]}


def report(mods, scratch, rng):
    """Results files of several categories, compiled into a report; with or without timings."""
    comp, timing = mods["compilingeloratings"], mods["speed"].TIMING
    results = os.path.join(scratch, "results")
    shutil.rmtree(results, ignore_errors=True)
    genre = str(rng.choice(["manager_var", "manager_info", "cov_likelihood"]))
    cats = ["stocks_20_days_p5", "stocks_60_days_p5", "etf_20_days_p5"]
    k = float(rng.choice([10, 30]))
    sums, contestants = {}, {}
    for c in cats:
        n = int(rng.integers(2, 5))
        names = [NAMES[i] for i in rng.permutation(len(NAMES))[:n]]
        total = Counter()
        os.makedirs(os.path.join(results, genre, c))
        for i in range(int(rng.integers(1, 4))):
            counts = bag(rng, n, int(rng.integers(1, 3))) if i == 0 else Counter({(0, 1): int(rng.integers(1, 3))})
            total.update(counts)
            with open(os.path.join(results, genre, c, f"{i}.json"), "w") as fh:
                json.dump(keyed(counts, names, rng), fh)
        if rng.random() < .4:
            open(os.path.join(results, genre, c, "broken.json"), "w").write('{"alpha>b": 3')
        sums[c], contestants[c] = total, names
    other = os.path.join(results, "another_genre", cats[0])          # must not be mixed in
    os.makedirs(other)
    json.dump({"alpha>b": 50.0}, open(os.path.join(other, "x.json"), "w"))
    want = {None: cats, "stocks": cats[:2], "20_days": [cats[0], cats[2]]}
    pick = [None, "stocks", "20_days"][int(rng.integers(3))]
    calls = []
    try:
        random.seed(int(rng.integers(1 << 30)))
        with common.limit(60), quiet():
            if rng.random() < .5:
                got = {}
                for cat, ratings in comp.elo_from_win_files(genre=genre, category=pick, k=k):
                    got[cat] = [(w, v[0], v[1]) if isinstance(v, tuple) else (w, v, None) for w, v in ratings.items()]
                tol, missing = "1e-9", lambda v: v is None
            else:
                df = comp.elo_df(genre=genre, category=pick, k=k)
                got = {}
                for row in df.to_dict("records"):
                    got.setdefault(row["category"], []).append((row["strategy"], row["elo"], row["cpu"]))
                tol, missing = "0.0500001", lambda v: v == -1
        calls.append({"kind": "categories", "got": sorted(got), "want": sorted(want[pick])})
        for c, rows in got.items():
            if c not in sums:
                continue
            names = contestants[c]
            at = {nm: i + 1 for i, nm in enumerate(names)}
            times = (timing.get(genre) or {})
            calls.append({"kind": "report", "n": len(names), "sorted": genre in timing, "cputol": tol,
                          "times": [enc(float(times[nm])) if nm in times else "none" for nm in names],
                          "rows": [{"who": at.get(w, 0), "elo": enc(float(e)), "cpu": "none" if missing(u) else enc(float(u))} for w, e, u in rows]})
            elo = {w: e for w, e, _ in rows}
            calls.append({"kind": "table", "n": len(names), "wins": wins_of(sums[c]), "k": enc(k), "limit": 0, "search": 5,
                          "table": table(elo, names)})
    except Exception as ex:
        calls.append({"kind": "report", "err": common.errname(ex)})
    return {"calls": calls}


def p37(ctx):
    rng = ctx.rng
    for n, most in ((3, ctx.pick(4, 5)), (2, ctx.pick(6, 9)), (4, ctx.pick(2, 3))):
        r = tlc.run("EloMC", cfg_text=f'SPECIFICATION Spec\nVIEW View\nCONSTANTS\n N = {n}\n Most = {most}\n K = 40\n'
                    "INVARIANTS Zero Reach Earned Mirror Idle\nCHECK_DEADLOCK FALSE\n")
        ctx.model(f"EloMC {n} contestants", r, f"every collection of at most {most} results of {n} contestants in every order of replay: "
                  "Zero Reach Earned Mirror Idle")
    scratch = tempfile.mkdtemp(prefix="elo-")
    try:
        mods = load(scratch)
        scens = [changes(mods, rng, 40) for _ in range(ctx.pick(20, 300))]
        scens += [replay(mods, rng) for _ in range(ctx.pick(300, 3000))]
        scens += [replay(mods, rng, total=int(rng.integers(20, 120)), n=int(rng.integers(2, 8))) for _ in range(ctx.pick(60, 600))]
        if isinstance(getattr(mods["compilingeloratings"], "ELO_LIMIT", None), int):
            scens += [replay(mods, rng, limit=int(rng.integers(1, 4)), total=5) for _ in range(ctx.pick(40, 400))]
        scens += [frequency(mods, rng, 400) for _ in range(ctx.pick(6, 40))]
        scens += [report(mods, scratch, rng) for _ in range(ctx.pick(80, 800))]
    finally:
        unload()
        shutil.rmtree(scratch, ignore_errors=True)
    fails, results = tlc.validate("EloTrace", scens, lambda s: len(s["calls"]))
    ctx.validated("EloTrace", len(scens), results)
    for f in fails:
        t = scens[f["sc"]]["calls"][f["l"] - 1]
        ctx.violation("+".join(f["fails"]), f"{t['kind']}: {', '.join(f['fails'])}", t)
    for s in scens[:: max(1, len(scens) // 3)]:
        ctx.sample({"call": s["calls"][0]})
