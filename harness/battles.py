"""P40: battles, backtests and simulated comparisons (research/legacy_skatervaluation), judged by spec/BattlesTrace.tla.

This code imports packages that no longer exist (precise.skaters.*, precise.skatertools.*, momentum): the pieces
under test are the repository's own files, what they import from elsewhere is stood in for by recorders."""
import contextlib, importlib.util, io, json, os, shutil, sys, tempfile, time, types

import numpy as np

from . import common, tlc
from .common import enc, fenc

BASE = "research/legacy_skatervaluation"
FILES = {"precise.skatervaluation.battledata.sourceconventions": "battledata/sourceconventions.py",
         "precise.skatervaluation.battledata.m6source": "battledata/m6source.py",
         "precise.skatervaluation.battledata.stockssource": "battledata/stockssource.py",
         "precise.skatervaluation.battledata.tmsource": "battledata/tmsource.py",
         "precise.skatervaluation.battledata.allsources": "battledata/allsources.py",
         "precise.skatervaluation.managercomparisonutil.managerstats": "managercomparisonutil/managerstats.py",
         "precise.skatervaluation.portfoliocomparisonutil.portcomparison": "portfoliocomparisonutil/portcomparison.py",
         "precise.skatervaluation.portfoliocomparisonutil.portsuggestion": "portfoliocomparisonutil/portsuggestion.py",
         "precise.skatervaluation.battleutil.arrangingbattles": "battleutil/arrangingbattles.py",
         "precise.skatervaluation.battleutil.battleio": "battleutil/battleio.py"}


class Stop(BaseException):
    """Ends a battle, which otherwise goes on for ever."""


class World:
    """What the code under test sees of everything that is not in the repository any more."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.calls, self.frames, self.give, self.sampler = [], [], None, None
        self.before = set(sys.modules)
        self.likelihood, self.factor_cov = None, None
        self.install()

    def stand(self, name, **attrs):
        parts = name.split(".")
        for k in range(1, len(parts)):
            up = ".".join(parts[:k])
            if up not in sys.modules or (up == "precise.skaters" and not hasattr(sys.modules[up], "stand_in")):
                m = types.ModuleType(up)
                m.__path__, m.stand_in = [], True
                sys.modules[up] = m
        m = types.ModuleType(name)
        m.__path__ = []
        for k, v in attrs.items():
            setattr(m, k, v)
        sys.modules[name] = m
        return m

    def data(self, **kw):
        self.calls.append(kw)
        return self.give(kw)

    def install(self):
        import precise                                  # noqa: F401  the real parent package
        welford = dict(
            var_init=lambda: {"count": 0, "mean": 0.0, "_m2": 0.0, "var": 0.0, "std": 0.0},
            rvar=lambda s, x, rho=0.05, **kw: {"mean": x if not s else (1 - rho) * s["mean"] + rho * x},
            kurtosis_init=lambda: {"count": 0, "mean": 0.0, "_m2": 0.0, "var": 0.0, "std": 0.0})

        def update(s, x):
            s = dict(s)
            d = x - s["mean"]
            s["count"] += 1
            s["mean"] += d / s["count"]
            s["_m2"] += d * (x - s["mean"])
            s["var"] = s["_m2"] / s["count"]
            s["std"] = s["var"] ** 0.5
            return s
        welford.update(var_update=update, kurtosis_update=update)
        self.stand("momentum.functions", **welford)
        m = sys.modules["momentum"]
        for k, v in welford.items():
            setattr(m, k, v)
        data = lambda *a, **kw: self.data(**kw)
        self.stand("precise.whereami", BATTLE_RESULTS_DIR=os.path.join(self.scratch, "results"), ELO_CSV=os.path.join(self.scratch, "e.csv"),
                   TESTSERROR=os.path.join(self.scratch, "errors"))
        self.stand("precise.skatertools.data.equityhistorical", random_cached_equity_dense=data)
        self.stand("precise.skatertools.data.equitylive", random_m6_returns=data, all_m6_returns=data, random_rdps_returns=data)
        self.stand("precise.skatertools.data.skaterresiduals", random_multivariate_residual=data, random_noncollinear_residual=data)
        self.contestants, self.managers, self.ports = [], [], []
        self.stand("precise.skaters.covariance.allcovskaters", ALL_D0_SKATERS=self.contestants)
        self.stand("precise.skaters.managers.allmanagers", RELIABLE_LONG_MANAGERS=self.managers, LONG_MANAGERS=self.managers)
        self.stand("precise.skaters.portfoliostatic.allstaticport", PORT=self.ports)

        def cov_likelihood(contestant, xs, n_burn, **kw):
            return self.likelihood(contestant, xs, n_burn, **kw)
        self.stand("precise.skaters.covarianceutil.likelihood", cov_likelihood=cov_likelihood)
        self.stand("precise.skaters.portfolioutil.portfunctions", portfolio_variance=lambda cov, w: float(np.dot(w, np.dot(cov, w))))
        self.stand("precise.skaters.covarianceutil.covrandom", random_known_cov=lambda cov, n_samples, **kw: self.sampler(cov, n_samples),
                   random_factor_cov=lambda n_dim=None, **kw: self.factor_cov(n_dim))
        root = os.path.join(os.environ.get("PRECISE_REPO", "/repo"), BASE)
        self.mods = {}
        for pkg in sorted({".".join(n.split(".")[:k]) for n in FILES for k in (2, 3)}):
            self.stand(pkg)
        for full, path in FILES.items():
            spec = importlib.util.spec_from_file_location(full, os.path.join(root, path))
            m = importlib.util.module_from_spec(spec)
            sys.modules[full] = m
            spec.loader.exec_module(m)
            self.mods[full.split(".")[-1]] = m
        # nobody waits: only the pauses between rounds are left out
        arr = self.mods["arrangingbattles"]
        if hasattr(arr, "time"):
            quick = types.SimpleNamespace(**{k: getattr(time, k) for k in dir(time) if not k.startswith("_")})
            quick.sleep = lambda s: None
            arr.time = quick if isinstance(arr.time, types.ModuleType) else arr.time
        if hasattr(arr, "sleep"):
            arr.sleep = lambda s: None

    def close(self):
        for k in [k for k in sys.modules if k not in self.before and
                  (k.split(".")[0] == "momentum" or k.startswith(("precise.whereami", "precise.skater")))]:
            del sys.modules[k]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def contestant(i):
    def f(*a, **k):
        raise AssertionError("contestants are only assessed")
    f.__name__ = f"ewa_{i}_pm_d0"
    return f


def manager(i, kind, log=None, fail_at=0):
    """A manager whose portfolio depends on all it has seen; it raises when its fail_at-th row comes."""
    def f(s, y, k=1, e=1, j=1, q=1.0, **kw):
        y = [float(v) for v in y]
        fresh = not s
        s = dict(s) if s else {"seen": 0, "sum": [0.0] * len(y), "chain": []}
        seen_ok = fresh == (not log) if log is not None else True
        if log:
            seen_ok = s.get("seen") == len(log)
        s["seen"] += 1
        s["sum"] = [a + b for a, b in zip(s["sum"], y)]
        if fail_at and s["seen"] >= fail_at:
            raise RuntimeError("this manager gives up")
        z = np.array(s["sum"]) * (0.3 + 0.2 * i) + 0.1 * i * np.array(y)
        w = np.exp(z - z.max()) if kind == "soft" else np.ones(len(y)) + (np.arange(len(y)) == (s["seen"] + i) % len(y)) * (1 + i)
        w = list(w / w.sum())
        if log is not None:
            log.append({"y": fenc(y), "e": int(e) if e == int(e) else 99, "k": int(k), "j": enc(float(j)), "q": enc(float(q)),
                        "w": fenc(w), "threaded": bool(seen_ok)})
        return w, s
    f.__name__ = f"manager_{i}_{kind}_long_manager"
    return f


def outcome(rng, tol):
    u = rng.random()
    if u < .12:
        return {"k": "failed", "v": 0}
    if u < .2:
        return {"k": str(rng.choice(["inf", "-inf", "nan"])), "v": 0}
    return {"k": "num", "v": float(rng.integers(-4, 5)) * float(rng.choice([1.0, .5, tol or 1.0]))}


def battle(world, rng, rounds=None):
    arr, io_ = world.mods["arrangingbattles"], world.mods["battleio"]
    shutil.rmtree(os.path.join(world.scratch, "results"), ignore_errors=True)
    mode = str(rng.choice(["direct", "likelihood", "info", "var"], p=[.4, .2, .2, .2] if not rounds else [.5, .5, 0, 0]))
    n = int(rng.choice([10, 12])) if rounds else int(rng.choice([2, 3, 5, 7, 8, 10, 12])) if mode in ("direct", "likelihood") else int(rng.choice([2, 3, 8]))
    R = rounds or int(rng.integers(1, 9))
    atol = float(rng.choice([0.0, 0.5, 1.0, 2.0])) if mode == "direct" else 1.0 if mode == "likelihood" else 1e-8
    burn, n_obs, n_dim = (21, 25, 2)
    topic = str(rng.choice(["stocks", "m6", "tm"]))
    params = {"topic": topic, "n_dim": n_dim, "n_obs": n_obs, "n_burn": burn, "lb": int(rng.integers(-9, 0)), "ub": int(rng.integers(1, 9))}
    given = dict(params)
    frames, log = [], []                       # log: one list of calls per drawn frame
    listing = []

    def give(kw):
        snapshot()
        if len([1 for x in log if x]) >= R:
            raise Stop()
        frames.append(np.round(rng.normal(size=(n_obs, n_dim)), 3))
        log.append([])
        return np.array(frames[-1])

    def snapshot():
        root = os.path.join(world.scratch, "results")
        files = [os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs]
        if log and log[-1]:
            listing.append([(f, json.load(open(f))) for f in files])

    world.give = give
    who = {}

    def assess(c, xs, n_burn, lb=None, ub=None, **kw):
        i = who[c.__name__]
        ident = next((k + 1 for k, fr in enumerate(frames) if np.shape(xs) == fr.shape and np.array_equal(np.asarray(xs), fr)), 0)
        out = outcome(rng, atol)
        if len(log[-1]) > 3 * n:
            raise Stop()                   # rounds without fresh data
        log[-1].append({"who": i, "data": ident, "out": out, "ok": n_burn == burn and lb == params["lb"] and ub == params["ub"]})
        if out["k"] == "failed":
            raise [ValueError("bad"), ZeroDivisionError(), KeyError("x"), RuntimeError("no")][int(rng.integers(4))]
        v = out["v"] if out["k"] == "num" else float(out["k"])
        return v, {"time": float(rng.random()), "mean": 0.0}

    scen = {"kind": "battle", "n": n, "atol": enc(atol), "burn": burn, "genre": mode if mode in ("info", "var") else "scripted"}
    try:
        if mode in ("direct", "likelihood"):
            cs = [contestant(i + 1) for i in range(n)]
            who = {c.__name__: i + 1 for i, c in enumerate(cs)}
            run_name = "my_judge" if mode == "direct" else "cov_likelihood"
            if mode == "direct":
                def my_judge(contestant, xs, n_burn, **kw):
                    return assess(contestant, xs, n_burn, **kw)
                go = lambda: arr.generic_battle(contestants=list(cs), evaluator=my_judge, params=dict(given), atol=atol)
            else:
                world.likelihood = assess
                world.contestants[:] = cs
                go = lambda: arr.cov_likelihood_battle(params=dict(given))
        else:
            run_name = "manager_" + mode
            fails = [0 if rng.random() < .75 else int(rng.integers(1, n_obs + 1)) for _ in range(n)]
            base = [manager(i + 1, "soft" if rng.random() < .6 else "tilt", None, fails[i]) for i in range(n)]
            who = {m.__name__: i + 1 for i, m in enumerate(base)}
            cs = []
            for m in base:
                cs.append(watched(m, who[m.__name__], log, frames, n))
            world.managers[:] = cs
            go = lambda: (arr.manager_info_battle if mode == "info" else arr.manager_var_battle)(params=dict(given))
        np.random.seed(int(rng.integers(1 << 31)))
        with common.limit(120), quiet():
            try:
                go()
            except Stop:
                pass
        rounds_seen = [(k, x) for k, x in enumerate(log) if x]
        names = {v: k for k, v in who.items()}
        at = {nm: i for i, nm in names.items()}
        scen["rounds"] = []
        for (k, calls), files in zip(rounds_seen, listing):
            rec = {}
            if mode in ("info", "var"):
                order, outs = [], []
                for c in calls:
                    if c["who"] not in order:
                        order.append(c["who"])
                        outs.append({"k": "num", "ws": []})
                    o = outs[order.index(c["who"])]
                    if c["w"] is None:
                        o["k"] = "failed"
                    else:
                        o["ws"].append(c["w"])
                rec = {"players": order, "outs": outs, "xs": fenc(frames[k]),
                       "data": [k + 1 if all(c["same"] for c in calls if c["who"] == i) else 0 for i in order], "asked": True}
            else:
                rec = {"players": [c["who"] for c in calls], "data": [c["data"] for c in calls], "asked": all(c["ok"] for c in calls),
                       "outs": [{"k": c["out"]["k"], "v": enc(c["out"]["v"])} for c in calls]}
            rec["file"] = tally(files[0][1], at) if len(files) == 1 else [[0, 0, -1]]
            scen["rounds"].append(rec)
        last = listing[-1][0][0] if listing and listing[-1] else ""
        full = {"stocks": "stocks_1_days", "m6": "m6_daily", "tm": "tm_residuals"}[topic] + f"_p{n_dim}_n{burn}"
        scen["filed"] = bool(len({f for fs in listing for f, _ in fs}) == 1 and last.endswith(".json") and
                             os.path.dirname(last) == os.path.join(world.scratch, "results", run_name, full))
        with quiet():
            back = io_.win_data(genre=run_name)
        scen["readback"] = tally(dict(back[0][1]), at) if len(back) == 1 and back[0][0] == full else [[0, 0, -1]]
        scen["want"] = R
        if len(scen["rounds"]) < R:
            scen = {"kind": "battle", "n": n, "err": "fewer_rounds_than_data"}
    except Exception as ex:
        scen = {"kind": "battle", "n": n, "err": common.errname(ex), "what": str(ex)[:300]}
    return scen


def watched(m, i, log, frames, n):
    at = [0]

    def f(s, y, **kw):
        if not s:
            at[0] = 0
        r = at[0]
        at[0] += 1
        if len(log[-1]) > 3 * n * len(frames[-1]):
            raise Stop()
        rec = {"who": i, "same": bool(r < len(frames[-1]) and np.array_equal(np.asarray(y, float), frames[-1][r])), "w": None}
        log[-1].append(rec)
        w, s = m(s=s, y=y, **kw)
        rec["w"] = fenc(w)
        return w, s
    f.__name__ = m.__name__
    return f


def tally(d, at):
    out = []
    for k, v in d.items():
        a, _, b = k.partition(">")
        out.append([at.get(a, 0), at.get(b, 0), enc(float(v))])
    return out


def backtest(world, rng):
    ms = world.mods["managerstats"]
    n, p = int(rng.integers(4, 14)), int(rng.integers(1, 4))
    burn = int(rng.integers(1, n - 2))
    xs = np.round(rng.normal(size=(n, p)) * .5 + .1, 3)
    log = []
    mgr = manager(int(rng.integers(1, 4)), str(rng.choice(["soft", "tilt"])), log)
    as_ = str(rng.choice(["stats", "info", "var"]))
    j, q = (int(rng.integers(1, 4)), float(rng.choice([1.0, .5]))) if as_ == "stats" else (1, 1.0)
    t = {"kind": "backtest", "xs": fenc(xs), "burn": burn, "as": as_, "j": enc(float(j)), "q": enc(float(q))}
    try:
        data = xs.tolist() if rng.random() < .2 and as_ == "stats" else xs
        with common.limit(30), quiet():
            if as_ == "stats":
                m = ms.manager_stats(mgr=mgr, xs=data, n_burn=burn, j=j, q=q)
                ans = m["info"]
            else:
                ans, m = (ms.manager_info if as_ == "info" else ms.manager_var)(contestant=mgr, xs=data, n_burn=burn, lb=-1, ub=1)
        t.update(log=log, got={k: enc(float(m[k])) for k in ("mean", "var", "std", "info")}, answer=enc(float(ans)))
    except Exception as ex:
        t["err"] = common.errname(ex)
    return t


def board(world, rng):
    ms = world.mods["managerstats"]
    n, p = int(rng.integers(5, 10)), int(rng.integers(2, 4))
    burn = int(rng.integers(1, n - 2))
    xs = np.round(rng.normal(size=(n, p)), 3)
    M = int(rng.integers(2, 6))
    logs = [[] for _ in range(M)]
    kinds = [(int(rng.integers(1, 4)), str(rng.choice(["soft", "tilt"]))) for _ in range(M)]
    if rng.random() < .5:
        kinds[-1] = kinds[0]                    # as good as the benchmark
    mgrs = [manager(i, kd, lg) for (i, kd), lg in zip(kinds, logs)]
    for k, m in enumerate(mgrs):
        m.__name__ += f"_{k + 1}"
    field = str(rng.choice(["info", "mean", "std"]))
    t = {"kind": "board", "xs": fenc(xs), "burn": burn, "field": field}
    try:
        with common.limit(30), quiet():
            lb = ms.manager_stats_leaderboard(mgrs=mgrs, xs=xs, n_burn=burn, field=field, verbose=False)
        t["ws"] = [[r["w"] for r in lg] for lg in logs]
        t["rows"] = [{"who": mgrs.index(m) + 1 if m in mgrs and m.__name__ == nm else 0, "score": enc(float(s)),
                      "beat": "nan" if b != b else "0.5" if b == .5 else "1" if b else "0"} for s, nm, m, b in lb]
    except Exception as ex:
        t["err"] = common.errname(ex)
    return t


def portfolios(rng, n, seen):
    out = []
    for i in range(n):
        def f(cov, i=i, **kw):
            cov = np.asarray(cov, float)
            seen.append(fenc(cov))
            w = 1 / np.diag(cov) ** (i * .5)
            w = w / w.sum()
            given.setdefault(i + 1, []).append(fenc(w))
            return w
        f.__name__ = f"port_{i + 1}"
        out.append(f)
    given = {}
    return out, given


def table(res, names):
    if hasattr(res, "to_dict"):
        return [{"who": names.get(r["method"], 0), "in": enc(float(r["invar"])), "out": enc(float(r["outvar"])),
                 "rel": enc(float(r["out sample relative"])) if "out sample relative" in r else "none"} for r in res.to_dict("records")]
    return [{"who": names.get(r[0], 0), "in": enc(float(r[1])), "out": enc(float(r[2])), "rel": "none"} for r in res]


def ranking(world, rng):
    pc = world.mods["portcomparison"]
    p, P = int(rng.integers(2, 5)), int(rng.integers(1, 6))
    seen = []
    ports, given = portfolios(rng, P, seen)
    names = {f.__name__: i + 1 for i, f in enumerate(ports)}
    order = [ports[i] for i in rng.permutation(P)]
    how = int(rng.integers(4))
    frame = bool(rng.random() < .5)
    t = {"kind": "rank" if how == 0 else "split"}
    try:
        with common.limit(30), quiet():
            if how == 0:
                a, b = common.spd(rng, p), common.spd(rng, p)
                if rng.random() < .3:
                    res, b = pc.portfolio_variance_rankings(cov_train=a, ports=order, as_frame=frame), a
                else:
                    res = pc.portfolio_variance_rankings(cov_train=a, cov_test=b, ports=order, as_frame=frame)
                t.update(train=fenc(a), test=fenc(b))
            else:
                n = int(rng.integers(10, 25))
                xs = np.round(rng.normal(size=(n, p)) @ np.diag(1 + rng.random(p)), 3)
                world.give = lambda kw: np.array(xs)
                f = [pc.stock_portfolio_variance_rankings, pc.rdps_etf_variance_rankings, pc.m6_equity_portfolio_variance_rankings][how - 1]
                t.update(xs=fenc(xs), split="half" if how == 3 else "three_quarters")
                res = f(ports=order, n_dim=p, n_obs=n, as_frame=frame)
        t.update(ws=[given[i + 1][0] for i in range(P)], seen=seen, rows=table(res, names))
    except Exception as ex:
        t["err"] = common.errname(ex)
    return t


def race(world, rng):
    pc = world.mods["portcomparison"]
    n, iters = int(rng.integers(2, 7)), int(rng.integers(1, 6))
    orders, asked = [], []

    def ranker(as_frame=True, **kw):
        asked.append((as_frame, kw))
        o = [int(i) + 1 for i in rng.permutation(n)]
        orders.append(o)
        return [(f"port_{i}", 0.0, float(k)) for k, i in enumerate(o)]
    t = {"kind": "race", "n": n}
    try:
        with common.limit(30), quiet():
            c = pc.points_race(ranker=ranker, ranker_kwargs={"n_dim": 3}, n_iter=iters, n_top=int(rng.integers(1, 4)))
        t.update(orders=orders, points=[enc(float(c[f"port_{i + 1}"])) for i in range(n)])
        if any(kw != {"n_dim": 3} or fr for fr, kw in asked) or len(orders) != iters:
            t["err"] = "ranker_asked_otherwise"
    except Exception as ex:
        t["err"] = common.errname(ex)
    return t


def compare(world, rng):
    pc, ps = world.mods["portcomparison"], world.mods["portsuggestion"]
    p, P = int(rng.integers(2, 4)), int(rng.integers(1, 4))
    how = str(rng.choice(["comparison", "kurtosis", "sample_var", "suggest"]))
    sizes = {"n_anchor": int(rng.integers(5, 50)) if rng.random() < .6 or how in ("sample_var", "suggest") else None,
             "n_true": int(rng.integers(5, 50)) if rng.random() < .6 or how in ("sample_var", "suggest") else None, "n_observed": int(rng.integers(50, 99))}
    cov = common.spd(rng, p)
    draws = []

    def sampler(c, n):
        time.sleep(.004)
        out = common.spd(rng, p)
        if not draws or draws[-1]["seen"]:
            draws.append({"chain": [], "seen": [], "ws": []})
        draws[-1]["chain"].append({"from": fenc(c), "size": int(n), "to": fenc(out)})
        return out

    world.sampler = sampler
    made = []

    def factor_cov(n_dim):
        made.append(common.spd(rng, p))
        return made[-1]
    world.factor_cov = factor_cov
    spoil = bool(rng.random() < .3)

    def port(i):
        def f(cov, **kw):
            draws[-1]["seen"].append(fenc(cov))
            w = 1 / np.diag(np.asarray(cov, float)) ** (i * .5)
            w = w / w.sum()
            draws[-1]["ws"].append(fenc(w))
            if spoil and isinstance(cov, np.ndarray) and cov.flags.writeable:
                cov *= 0            # a portfolio that works in place
            return w
        f.__name__ = f"port_{i + 1}"
        return f
    ports = [port(i) for i in range(P)]
    t = {"kind": "compare", "n": P, "cov": fenc(cov), "ordered": how in ("sample_var", "suggest"),
         "nanchor": sizes["n_anchor"] or 0, "ntrue": sizes["n_true"] or 0, "nobs": sizes["n_observed"]}
    try:
        before = np.array(cov)
        with common.limit(30), quiet():
            if how == "comparison":
                res = pc.portfolio_variance_comparison(ports=ports, covrnd=lambda: cov, max_time=.03, metric="mean", show_progress=False, **sizes)
            elif how == "kurtosis":
                res = pc.port_kurtosis(ports=ports, seed_cov=cov, max_time=.03, show_progress=False, **sizes)
                res = {k: v["mean"] for k, v in res.items()}
            elif how == "sample_var":
                res = pc.port_sample_var(ports=ports, cov=cov, max_time=.03, show_progress=False, **sizes)
            else:
                world.ports[:] = ports
                own = rng.random() < .5
                kw = dict(n_anchor=sizes["n_anchor"], n_true=sizes["n_true"], n_observed=sizes["n_observed"], max_time=.03)
                res = ps.suggest_port_using_sample_cov(cov=cov, **kw) if own else ps.suggest_port_using_sample_cov(n_dim=p, **kw)
                if not own:
                    t["cov"] = fenc(made[0])
        pairs = list(res.items()) if isinstance(res, dict) else list(res)
        t["means"] = [enc(float(dict(pairs)[f.__name__])) for f in ports]
        t["order"] = [int(nm.split("_")[1]) for nm, _ in pairs]
        t["draws"] = [d for d in draws if d["seen"]]
        if not np.array_equal(before, cov):
            t["err"] = "covariance_of_the_caller_changed"
    except Exception as ex:
        t["err"] = common.errname(ex)
    return t


def source(world, rng):
    src = world.mods["allsources"]
    topic = str(rng.choice(["stocks", "m6", "tm"]))
    given = {"topic": topic}
    for k, v in {"n_dim": int(rng.integers(2, 60)), "n_obs": int(rng.integers(30, 90)), "n_burn": int(rng.integers(5, 25)), "atol": 2, "lb": -7, "ub": 9}.items():
        if rng.random() < .45:
            given[k] = v
    if topic == "stocks" and rng.random() < .5:
        given["k"] = int(rng.integers(1, 9))
    if topic == "m6":
        for k, v in {"interval": str(rng.choice(["d", "m"])), "etf": int(rng.integers(-1, 2)), "implied": int(rng.integers(0, 2))}.items():
            if rng.random() < .5:
                given[k] = v
    if topic == "tm" and rng.random() < .5:
        given["raw"] = int(rng.integers(0, 2))
    if rng.random() < .2:
        given["extra"] = 5
    short = bool(rng.random() < .15)
    rows = np.round(rng.normal(size=(int(rng.integers(2, 21)) if short else int(rng.integers(21, 50)), 2)), 3)
    world.give = lambda kw: rows
    t = {"kind": "source", "topic": topic, "given": {k: v for k, v in given.items() if k != "topic"}, "short": short, "rejected": False}
    if not t["given"]:
        given["extra"] = t["given"]["extra"] = 5
    try:
        with common.limit(30), quiet():
            params, cat, xs = src.params_category_and_data(params=dict(given))
        t["combined"] = {k: int(v) if isinstance(v, (int, np.integer)) else v for k, v in params.items() if isinstance(v, (int, str, np.integer))}
        t["category"], t["passed"] = cat, bool(np.array_equal(np.asarray(xs), rows))
        # what is handed out is the caller's
        for k in list(params):
            params[k] = -12345
    except Exception as ex:
        t["rejected"], t["exc"] = True, common.errname(ex)
    return t


def unknown(world, rng):
    t = {"kind": "unknown", "rejected": False}
    try:
        with common.limit(30), quiet():
            world.mods["allsources"].params_category_and_data(params={"topic": "weather", "n_dim": 3})
    except Exception as ex:
        t["rejected"], t["exc"] = True, common.errname(ex)
    return t


def p40(ctx):
    rng = ctx.rng
    for n, tops, rounds, rows in ((2, 3, 2, 6), (3, ctx.pick(1, 2), 1, ctx.pick(8, 12))):
        r = tlc.run("BattlesMC", cfg_text=f"SPECIFICATION Spec\nCONSTANTS\n N = {n}\n Tops = {tops}\n Rounds = {rounds}\n Rows = {rows}\n"
                    "INVARIANTS Sane Working Counted Translation NoPeek Each\nCHECK_DEADLOCK FALSE\n")
        ctx.model(f"BattlesMC {n} contestants", r, f"every history of {rounds} round(s) of {n} contestants with any outcomes; every backtest of {rows} rows: "
                  "Sane Working Counted Translation NoPeek Each")
    scratch = tempfile.mkdtemp(prefix="battles-")
    state = np.random.get_state()
    world = None
    try:
        world = World(scratch)
        scens = [battle(world, rng) for _ in range(ctx.pick(60, 600))]
        scens += [battle(world, rng, rounds=150) for _ in range(ctx.pick(3, 20))]
        makers = [backtest] * 4 + [board] * 2 + [ranking] * 2 + [race, compare, compare, source, source, source]
        for _ in range(ctx.pick(60, 600)):
            scens.append({"kind": "calls", "n": 1, "calls": [makers[int(rng.integers(len(makers)))](world, rng) for _ in range(6)]})
        scens.append({"kind": "calls", "n": 1, "calls": [unknown(world, rng)]})
    finally:
        if world:
            world.close()
        np.random.set_state(state)
        shutil.rmtree(scratch, ignore_errors=True)
    fails, results = tlc.validate("BattlesTrace", scens, lambda s: 1 if s["kind"] == "battle" and "err" in s else
                                  len(s["rounds"]) + 1 if s["kind"] == "battle" else len(s["calls"]))
    ctx.validated("BattlesTrace", len(scens), results)
    for f in fails:
        s = scens[f["sc"]]
        t = s if s["kind"] == "battle" else s["calls"][f["l"] - 1]
        where = f"round {f['l']} of a battle" if s["kind"] == "battle" else t["kind"]
        ctx.violation("+".join(f["fails"]), f"{where}: {', '.join(f['fails'])}", t)
    for s in scens[:: max(1, len(scens) // 3)]:
        ctx.sample({"scenario": s if s["kind"] == "battle" else s["calls"][0]})
