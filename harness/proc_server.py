"""One process of P39: reads a plan (JSON on stdin), acts on precise, reports what happened (JSON on fd given by the plan).

Run as a script in an interpreter of its own; imports nothing beyond the standard library and numpy before the plan says so."""
import builtins, contextlib, decimal, gc, importlib, importlib.abc, io, json, locale, logging, os, pickle, random, signal, sys, threading, warnings

sys.path[:] = [p for p in sys.path if p != os.path.dirname(os.path.abspath(__file__))]      # nothing of the harness is importable
import numpy as np

STD = set(sys.stdlib_module_names)
BASE = {m.partition(".")[0] for m in sys.modules}


def third(names):
    return {n for n in names if n not in STD and n not in BASE and n != "precise" and not n.startswith("_")}


class Blocker(importlib.abc.MetaPathFinder):
    """Packages that are not installed in this process."""

    def __init__(self, groups):
        self.groups = groups

    def find_spec(self, name, path=None, target=None):
        top = name.partition(".")[0]
        if name.startswith("precise") or top in STD or top in BASE:
            return None
        if ("pandas" in self.groups and top == "pandas") or ("others" in self.groups and top != "pandas"):
            raise ModuleNotFoundError(f"No module named {top!r}", name=top)
        return None


def fingerprint():
    """What a library must leave alone."""
    s = np.random.get_state()
    fp = {
        "numpy_random": hash((s[0], s[1].tobytes(), s[2:])), "random": hash(random.getstate()), "errstate": repr(np.geterr()), "errcall": repr(np.geterrcall()),
        "printoptions": repr(np.get_printoptions()), "warning_filters": repr(warnings.filters), "showwarning": id(warnings.showwarning),
        "cwd": os.getcwd(), "environ": hash(tuple(sorted(os.environ.items()))), "path": repr(sys.path), "threads": threading.active_count(),
        "recursion": sys.getrecursionlimit(), "switch": sys.getswitchinterval(), "locale": locale.setlocale(locale.LC_ALL), "excepthook": id(sys.excepthook),
        "decimal": repr(decimal.getcontext()), "builtins": hash(tuple(sorted(vars(builtins)))), "logging": repr((logging.root.level, logging.root.handlers)),
        "gc": repr((gc.isenabled(), gc.get_threshold())), "signals": repr([signal.getsignal(k) for k in (signal.SIGINT, signal.SIGALRM, signal.SIGTERM)]),
        "files": sorted(os.listdir(".")), "umask": os.umask(0o022), "intdigits": sys.get_int_max_str_digits()}
    os.umask(fp["umask"])
    return fp


def flat(v):
    return [float(x).hex() if np.isfinite(x) else str(float(x)) for x in np.asarray(v, dtype=float).ravel()]


# ------------------------------------------------------------------ features
VARIANTS = {"BlockCovariance": {"n_blocks": 2}, "SchurCovariance": {"n_blocks": 2, "interpolation": "geodesic"}, "SchurConditionalCovariance": {"n_blocks": 2},
            "SchurLedoitWolfCovariance": {"n_blocks": 2}, "ShrunkCovariance": {"target": "identity", "delta": 0.3}, "FactorCovariance": {"k": 1},
            "DCCCovariance": {"vol_r": 0.2}, "EmpiricalCovariance": {"diff": True}, "HuberCovariance": {"c": 1.5}, "AdaptiveEwaCovariance": {"max_r": 0.3}}


def rows(seed, n, p):
    g = np.random.default_rng(seed)
    return g.normal(size=(n, p)) @ (np.eye(p) + 0.3 * g.normal(size=(p, p))) + g.normal(size=p)


def make(name, variant=0):
    import precise
    if name == "ConditionalCovariance":
        return precise.ConditionalCovariance(vol=precise.EwaCovariance(r=0.1), corr=precise.LedoitWolfCovariance(r=0.1)) if variant else precise.ConditionalCovariance()
    return getattr(precise, name)(**(VARIANTS.get(name, {}) if variant else {}))


def readings(est, X):
    out = []
    for a in ("covariance_", "correlation_", "location_", "precision_"):
        out += flat(getattr(est, a))
    return out + flat(est.mahalanobis(X)) + flat([est.score(X)])


def dicts(rng, n, names):
    """Key-value observations of a universe whose members come and go."""
    out = []
    for i in range(n):
        here = [k for j, k in enumerate(names) if (i // 6 + j) % 4]
        rng.shuffle(here)
        out.append({k: float(rng.normal()) + 0.1 * i for k in here})
    return out


NAMES = ["zeta", "alpha", "mid", "Beta", "omega", "x_10", "x_9"]


def table(k):
    cov = k.covariance_
    keys = list(cov)
    return flat([[cov[a][b] for b in cov[a]] for a in keys]), keys + [x for a in keys for x in cov[a]]


def feature(name, seed):
    """(numbers, names) of one thing a user does."""
    import precise
    kind, _, rest = name.partition(":")
    X = rows([seed, len(name)], 40, 4)
    if kind in ("est", "var"):
        e = make(rest, kind == "var").partial_fit(X[:25])
        for x in X[25:]:
            e.partial_fit(x)
        v = readings(e, X[:5])
        v += flat(make(rest, kind == "var").fit(X).covariance_)
        return v, [type(e).__name__, repr(e)]
    if kind == "judge":
        from precise.assessment import assessor_from_name
        e = precise.EwaCovariance().fit(X[:30])
        return flat([assessor_from_name(rest).score(e.covariance_, X_test=X[30:], true_cov=np.eye(4))]), [rest]
    if kind in ("fixed", "dynamic", "frame"):
        g = np.random.default_rng([seed, 7])
        inner = make(rest, 1) if rest in precise.estimator_names() else precise.EwaCovariance(r=0.1)
        if kind == "fixed" or rest == "fixed":
            k = precise.keyed(inner, **({} if rest == "" else {"impute": "mean"}))
            obs = [{n: v for n, v in zip(NAMES, g.normal(size=7)) if i == 0 or g.random() < .8} for i in range(30)]
        else:
            k = precise.keyed(inner, dynamic=True)
            obs = dicts(g, 40, NAMES)
        for o in obs:
            k.learn_one(o)
        if kind == "frame":
            f = k.to_frame()
            return flat(f.values), list(f.index) + list(f.columns)
        v, n = table(k)
        a, keys = k.cov_array()
        some = sorted(keys)[:3]
        return v + flat(a) + flat(k.get_cov(some)) + flat(k.get_corr(some)), n + list(keys) + [repr(k)]
    if kind == "skater":
        class Dist:
            def __init__(self, mean, std):
                self.mean, self.std = mean, std

        def f(y, state):
            m, s = (0.0, 1.0) if state is None else state
            s = .8 * s + .2 * (abs(y - m) + .1)
            m = .9 * m + .1 * y
            return [Dist(m, s)], (m, s)
        e = precise.ConditionalCovariance(vol=precise.from_skater(f)).partial_fit(X)
        return flat(e.covariance_), []
    if kind == "suggest":
        return [], [c.__name__ for c in precise.suggest(X, top=17)]
    if kind == "features":
        d = precise.covariance_features(X)
        return flat(list(d.values())), list(d)
    if kind == "registry":
        return [], precise.estimator_names() + [c.__name__ for c in precise.all_estimators()] + [a.name for a in precise.all_assessors()] + sorted(precise.__all__)
    if kind == "reject":             # wrong input is refused, the object stays usable
        out = []
        for cls in ("EwaCovariance", "DiagonalCovariance", "EmpiricalCovariance", "TylerCovariance", "ConditionalCovariance"):
            for bad in ([], [[[1.0]]], [[1.0, 2.0]], [[1.0]], [1.0], [[1.0] * 5], 1.0):
                e = make(cls).partial_fit(X)
                try:
                    e.partial_fit(bad)
                    out.append("accepted")
                except Exception as ex:
                    out.append(type(ex).__name__)
                out.append(str(e.n_samples_))
        return [], out
    raise KeyError(name)


# ------------------------------------------------------------------ objects that outlive the process
def go_on(cls, k, how, path, seed):
    """Learn chunk k (of a stream of chunks) with the object saved after chunk k - 1; save it; report readings."""
    X = rows([seed, 99], 20 * 4, 4)
    if k == 1:
        e = make(cls, 1)
    elif how == "pickle":
        with open(path, "rb") as f:
            e = pickle.load(f)
    else:
        with open(path) as f:
            state = json.load(f)
        e = make(cls, 1)
        e.set_state({a: np.asarray(b) if isinstance(b, list) else b for a, b in state.items()})
    e.partial_fit(X[20 * (k - 1):20 * k])
    if how == "pickle":
        with open(path, "wb") as f:
            pickle.dump(e, f)
    else:
        with open(path, "w") as f:
            json.dump(e.get_state(), f, default=lambda o: o.tolist() if hasattr(o, "tolist") else int(o))
    return readings(e, X[:5])[:36], [repr(e)]


def act(a, seed):
    op = a["op"]
    if op == "import":
        importlib.import_module(a["m"])
        return {"val": [], "names": []}
    if op == "use":
        v, n = feature(a["f"], seed)
        return {"val": v, "names": n}
    if op == "go":
        v, n = go_on(a["c"], a["k"], a["how"], a["path"], seed)
        return {"val": v, "names": n}
    if op == "together":             # two threads, each with objects of its own
        import precise                                  # noqa: F401  (an import lock is not what is studied)
        out, errs = [None, None], []
        gate = threading.Barrier(2)

        def work(i, f):
            try:
                gate.wait()
                for _ in range(3):
                    r = feature(f, seed)
                    if out[i] is not None and out[i] != r:
                        out[i] = r
                        return
                    out[i] = r
            except Exception as ex:
                errs.append(ex)
        keep = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=work, args=(i, f)) for i, f in enumerate((a["f"], a["g"]))]
            [t.start() for t in ts]
            [t.join() for t in ts]
        finally:
            sys.setswitchinterval(keep)
        if errs:
            raise errs[0]
        return {"val": out[0][0], "names": out[0][1], "val2": out[1][0], "names2": out[1][1]}
    raise KeyError(op)


def main():
    plan = json.loads(sys.stdin.read())
    real = os.dup(1)
    env = plan["env"]
    os.chdir(plan["dir"])
    sys.meta_path.insert(0, Blocker(env["blocked"]))
    np.random.seed(env["rng"])
    random.seed(env["rng"])
    if env["rng"]:
        np.seterr(all="ignore")
        np.set_printoptions(precision=2)
    else:
        warnings.simplefilter("ignore")
    feats, report = plan["seed"], []
    fingerprint()
    for a in plan["acts"]:
        before, had = fingerprint(), third({m.partition(".")[0] for m in sys.modules})
        said, t = io.StringIO(), {}
        try:
            with contextlib.redirect_stdout(said):
                t.update(act(a, feats))
            t["outcome"] = "ok"
        except ImportError as ex:
            low = str(ex).lower()
            t["outcome"] = "missing" if "pandas" in low else "removed" if "removed" in low and "ewacovariance" in low else "import_error"
        except Exception as ex:
            t["outcome"] = "raised_" + type(ex).__name__
            t["why"] = str(ex)[:300]
        after, have = fingerprint(), third({m.partition(".")[0] for m in sys.modules})
        new = have - had
        t["loaded"] = sorted(("pandas" if n == "pandas" else "others") for n in new)
        t["packages"] = sorted(new)
        t["changed"] = sorted(k for k in before if before[k] != after[k])
        t["printed"] = bool(said.getvalue())
        report.append(t)
    with os.fdopen(real, "w") as f:
        f.write(json.dumps(report))


if __name__ == "__main__":
    main()
