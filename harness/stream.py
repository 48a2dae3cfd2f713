"""P01-P06: behaviours generated by TLC from spec/StreamGen.tla, replayed on every estimator class,
and the recorded calls and readings validated by TLC against spec/StreamTrace.tla."""
import copy, json, pickle

import numpy as np

from . import common, tlc
from .common import enc, fenc
from .est import DEFAULTS

UNFITTED = ("location_", "covariance_", "correlation_", "precision_")


# ------------------------------------------------------------ what is replayed on
def variants(quick, diff=None):
    """(name, constructor) of every estimator class, with short warm-ups."""
    import precise
    out = []

    def put(cls, **kw):
        out.append((f"{cls}({', '.join('%s=%r' % i for i in kw.items())})", cls,
                    lambda **extra: getattr(precise, cls)(**{**kw, **extra})))
    for cls in DEFAULTS:
        kw = {}
        if "r" in DEFAULTS[cls]:
            kw["r"] = 0.3
        if "n_blocks" in DEFAULTS[cls]:
            kw["n_blocks"] = 2
        put(cls, **kw)
    put("ShrunkCovariance", r=0.15, delta=0.4, target="identity")
    put("SchurCovariance", r=0.3, n_blocks=2, gamma=0.4, interpolation="geodesic")
    put("DCCCovariance", r=0.3, vol_r=0.5)
    put("HuberCovariance", r=0.3, c=0.8)
    put("FactorCovariance", r=0.3, k=1)
    if not quick:
        put("EwaCovariance", r=0.12)
        put("EwaCovariance", r=1.0)
        put("AdaptiveEwaCovariance", r=0.2, max_r=0.9)
        put("BlockCovariance", r=0.3, n_blocks=3)
        put("FactorCovariance", r=0.15, k=3)
        put("TylerCovariance", r=0.15)
    if diff is not True:
        def cond(vol, corr, **kw):
            return lambda **extra: precise.ConditionalCovariance(
                vol=getattr(precise, vol)(r=0.3), corr=getattr(precise, corr)(r=0.3))
        out.append(("ConditionalCovariance(Ewa,Ewa)", "ConditionalCovariance", cond("EwaCovariance", "EwaCovariance")))
        out.append(("ConditionalCovariance(Huber,LedoitWolf)", "ConditionalCovariance",
                    cond("HuberCovariance", "LedoitWolfCovariance")))
    return out


class Table:
    """Row name -> vector of numbers (exact in single precision)."""

    def __init__(self, seed, ints):
        self.seed, self.ints, self.cache = seed, ints, {}

    def row(self, rid):
        if rid not in self.cache:
            w, i = divmod(rid, 100)
            rng = np.random.default_rng([self.seed, rid])
            v = rng.normal(size=w) * 3.0
            v[1:] += 0.5 * v[0]
            if i <= w:                 # open the coordinates one at a time (see est.tyler_rows)
                v[i:] = 0.0
                v[i - 1] = 2.0 + i
            v = np.round(v) if self.ints else np.round(v * 8) / 8
            self.cache[rid] = v + 0.0
        return self.cache[rid].copy()

    def rows(self, ids, w):
        return np.array([self.row(i) for i in ids]) if ids else np.zeros((0, w))


# --------------------------------------------------------------------- carriers
ONE_F = ("f64", "list", "tuple", "f32", "strided", "readonly", "row2d", "series", "object")
MANY_F = ("f64", "list", "tuples", "f32", "fortran", "strided", "readonly", "frame", "rowlist", "object")
ONE_I = ONE_F + ("i64", "intlist", "i16", "bool")
MANY_I = MANY_F + ("i64", "intlist", "i8", "frame_i")


def carry(X, how):
    """The same numbers in another container."""
    X = np.asarray(X, dtype=float)
    if how == "f64":
        return X.copy()
    if how == "list":
        return X.tolist()
    if how in ("tuple", "tuples"):
        return tuple(X.tolist()) if X.ndim == 1 else tuple(map(tuple, X.tolist()))
    if how == "f32":
        return X.astype(np.float32)
    if how == "fortran":
        return np.asfortranarray(X.copy())
    if how == "strided":
        big = np.full(tuple(2 * s for s in X.shape), 99.0)
        v = big[tuple(slice(None, None, 2) for _ in X.shape)]
        v[...] = X
        return v
    if how == "readonly":
        Y = X.copy()
        Y.flags.writeable = False
        return Y
    if how == "row2d":
        return X[np.newaxis, :].copy()
    if how == "rowlist":
        return [r.copy() for r in X]
    if how == "object":
        return X.astype(object)
    if how in ("series", "frame", "frame_i"):
        try:
            import pandas as pd
        except ImportError:
            return X.copy()
        if how == "series":
            return pd.Series(X)
        df = pd.DataFrame(X, columns=["c%d" % i for i in range(X.shape[1])])
        return df.astype(int) if how == "frame_i" else df
    if how == "i64":
        return X.astype(np.int64)
    if how == "i16":
        return X.astype(np.int16)
    if how == "i8":
        return X.astype(np.int8)
    if how == "bool":            # only 0/1 rows can be carried by booleans
        return X.astype(bool) if set(np.unique(X)) <= {0.0, 1.0} else X.astype(np.int32)
    if how == "intlist":
        return X.astype(int).tolist()
    raise ValueError(how)


def frozen(x):
    """Comparable copy of an argument."""
    if isinstance(x, np.ndarray):
        return ("nd", x.dtype.str, x.shape, x.copy().tolist(), x.flags.writeable)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [frozen(v) for v in x])
    if isinstance(x, dict):
        return ("dict", [(k, frozen(v)) for k, v in x.items()])
    if hasattr(x, "to_numpy"):
        return ("pd", frozen(x.to_numpy()))
    return ("v", repr(x))


def scribble(x, depth=0):
    """Overwrite every number reachable in a container."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype != object:
            x[...] = 1 if x.dtype == bool else 77
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (list, dict, np.ndarray)):
                scribble(v)
            else:
                x[i] = 7777.0
    elif isinstance(x, dict):
        for k, v in list(x.items()):
            if isinstance(v, (list, dict, np.ndarray)):
                scribble(v)
            else:
                x[k] = 7777.0
    elif hasattr(x, "iloc"):
        try:
            x.iloc[:] = 77
        except Exception:
            pass


# ---------------------------------------------------------------------- reading
def reading(est):
    n = int(est.n_samples_)
    if n == 0:
        ok = True
        p = getattr(est, "n_features_in_", None) or 2
        calls = [lambda a=a: getattr(est, a) for a in UNFITTED]
        calls += [est.get_precision, lambda: est.mahalanobis(np.zeros(p)), lambda: est.score(np.zeros((2, p)))]
        for c in calls:
            try:
                c()
                ok = False
            except ValueError:
                pass
        return {"n": 0, "unfitted": ok}
    return {"obs": {"n": n, "mean": fenc(est.location_), "cov": fenc(est.covariance_),
                    "corr": fenc(est.correlation_), "prec": fenc(est.precision_)}}


def poke(est, w):
    """Every reading operation there is; the arrays handed out and in, and whether a row scored was modified."""
    out, dirty = [], False
    try:
        out.append(est.get_state())
    except NotImplementedError:          # the composed estimator says so: it is pickled instead
        pass
    repr(est), est.get_params()
    if est.n_samples_:
        out += [est.location_, est.covariance_, est.correlation_, est.precision_, est.get_precision()]
        for op in (est.mahalanobis, est.score):
            x, X = np.linspace(-1, 2, w), np.linspace(-1, 2, 3 * w).reshape(3, w)
            before = frozen([x, X])
            out += [op(x), op(X), x, X]
            dirty = dirty or frozen([x, X]) != before
        if hasattr(est, "gamma_"):
            est.gamma_
    pickle.dumps(est), copy.deepcopy(est)
    return out, dirty


def err(ex):
    return "ValueError" if isinstance(ex, ValueError) else common.errname(ex)


def bad_input(kind, w):
    w = w or 2
    if kind == "scalar":
        return 3.0
    if kind in ("cube", "fitcube"):
        return np.ones((2, 2, w))
    if kind in ("ragged", "fitragged"):
        return [[1.0] * w, [2.0] * (w + 1)]
    if kind == "fit1d":
        return np.ones(w)
    if kind == "wide":
        return np.full(w + 1, 2.0)
    if kind == "narrow":
        return np.full(w - 1, 2.0)
    if kind == "widebatch":
        return np.full((3, w + 1), 2.0)
    if kind == "mixedbatch":
        return [np.full(w, 3.0), np.full(w + 2, 2.0)]
    if kind == "widelist":
        return [[5.0] * (w + 2)] * 2
    if kind == "narrowframe":
        return carry(np.full((2, w - 1), 2.0), "frame")
    raise ValueError(kind)


# --------------------------------------------------------------------- execution
class Run:
    """One behaviour executed on one estimator variant."""

    def __init__(self, make, beh, nobj, nsnap, table, diff, rng, refs, mode, carriers=False, probe=False):
        self.make, self.beh, self.table, self.diff = make, beh, table, diff
        self.rng, self.refs, self.mode, self.carriers, self.probe = rng, refs, mode, carriers, probe
        kw = {"diff": True} if diff else {}
        self.kw = kw
        self.obj = [make(**kw) for _ in range(nobj)]
        self.snap = [None] * nsnap
        self.snap0 = [None] * nsnap
        self.calls = [[] for _ in range(nobj)]        # since the last reset (for P02's reference)
        self.scalls = [None] * nsnap
        self.inb = [None] * nobj
        self.out = [[] for _ in range(nobj)]
        self.events, self.refev, self.seen = [], [], set()

    def give(self, ids, w, many):
        X = self.table.rows(ids, w) if many else self.table.row(ids[0])
        if not self.carriers or X.size == 0:
            how = "f64"
            if self.mode == "isolation":
                how = ("f64", "list", "fortran", "frame")[int(self.rng.integers(4))] if many else \
                      ("f64", "list", "strided")[int(self.rng.integers(3))]
                if X.size == 0:
                    how = "f64"
        else:
            pool = (MANY_I if many else ONE_I) if self.table.ints else (MANY_F if many else ONE_F)
            how = pool[int(self.rng.integers(len(pool)))]
        return carry(X, how), how

    def reference(self, hist, calls):
        """Reading of a fresh object with this history."""
        if not hist:
            return
        key = (self.mode == "refit" and json.dumps(calls)) or json.dumps(hist)
        key = (key, self.diff)
        if key in self.seen:
            return
        self.seen.add(key)
        if key not in self.refs:
            try:
                if self.mode == "refit":
                    est = self.make(**self.kw)
                    for c in calls:
                        if c[0] == "fit":
                            est.fit(self.table.rows(c[1], c[2]))
                        else:
                            est.partial_fit(self.table.row(c[1][0]))
                elif self.mode == "diff":             # the same estimator on the differences
                    est = self.make()
                    for h in hist:
                        est.partial_fit(self.table.row(h["b"]) - self.table.row(h["a"]))
                else:                                 # the levels, one at a time
                    est = self.make(**self.kw)
                    if hist[0]["a"]:
                        est.partial_fit(self.table.row(hist[0]["a"]))
                    for h in hist:
                        est.partial_fit(self.table.row(h["b"]))
                r = reading(est)
                self.refs[key] = r if "obs" in r else {"err": "unfitted"}
            except Exception as ex:
                self.refs[key] = {"err": err(ex)}
        self.refev.append({"op": "ref", "hist": hist, **self.refs[key]})

    def step(self, c):
        op, e = c["op"], dict(c)
        o = c.get("o", 1) - 1
        e.pop("hist", None)
        try:
            if op in ("one", "batch", "fit"):
                ids = c["ids"]
                arg, how = self.give(ids, c.get("w", 0), op != "one")
                e["carrier"] = how
                before = frozen(arg)
                self.inb[o] = arg
                if op == "fit":
                    self.calls[o] = [["fit", ids, c["w"]]]
                    r = self.obj[o].fit(arg)
                else:
                    self.calls[o] = self.calls[o] + [["one", ids]]
                    r = self.obj[o].partial_fit(arg)
                e["dirty"] = frozen(arg) != before
                if r is not self.obj[o]:
                    e["err"] = "did_not_return_self"
            elif op == "save":
                k = c["k"] - 1
                est = self.obj[o]
                kind = c["kind"] if type(est).__name__ != "ConditionalCovariance" else "pickle"
                if kind == "json":
                    s = json.dumps(est.get_state())
                elif kind == "dict":
                    s = est.get_state()
                else:
                    s = pickle.dumps(est)
                self.snap[k] = (kind, s)
                self.snap0[k] = frozen(s)
                self.scalls[k] = self.calls[o]
            elif op == "load":
                k = c["k"] - 1
                kind, s = self.snap[k]
                changed = frozen(s) != self.snap0[k]
                if kind == "pickle":
                    self.obj[o] = pickle.loads(s)
                else:
                    self.obj[o].set_state(json.loads(s) if kind == "json" else s)
                e["dirty"] = changed or frozen(s) != self.snap0[k]
                self.calls[o] = self.scalls[k]
            elif op == "copy":
                self.obj[c["q"] - 1] = copy.deepcopy(self.obj[o])
                self.calls[c["q"] - 1] = self.calls[o]
            elif op == "read":
                e.update(reading(self.obj[o]))
                if self.probe:
                    w = c["hist"][0]["b"] // 100 if c["hist"] else 2
                    self.out[o], e["dirty"] = poke(self.obj[o], w)
                self.reference(c["hist"], self.calls[o])
            elif op == "bad":
                arg = bad_input(c["kind"], c["w"])
                before = frozen(arg)
                try:
                    if c["kind"].startswith("fit"):
                        self.obj[o].fit(arg)
                    else:
                        self.obj[o].partial_fit(arg)
                finally:
                    e["dirty"] = frozen(arg) != before
            elif op == "scribin":
                if self.inb[o] is not None:
                    scribble(self.inb[o])
            elif op == "scribout":
                for v in self.out[o]:
                    scribble(v)
            elif op == "scribsnap":
                scribble(self.snap[c["k"] - 1][1])
        except common.Timeout:
            raise
        except Exception as ex:
            e["err"] = err(ex)
            e["detail"] = str(ex)[:200]
        self.events.append(e)
        return "err" not in e or op == "bad"

    def go(self):
        try:
            with common.limit(120):
                for c in self.beh:
                    if not self.step(c):
                        break
        except common.Timeout:
            self.events.append({"op": "read", "o": 1, "err": "Timeout"})
        return self.refev + self.events


# ---------------------------------------------------------------------- generation
def tla_set(xs):
    return "{" + ", ".join('"%s"' % x if isinstance(x, str) else str(x) for x in xs) + "}"


def behaviours(ctx, ops, depth, num=None, nobj=1, nsnap=1, widths=(2, 3), sizes=(0, 2, 7), diff=False, tail=3,
               maxpos=60, seed=0, props=True):
    """Behaviours of StreamGen as lists of calls: all of a given length, or num simulated ones."""
    cfg = f"""SPECIFICATION Spec
CONSTANTS
 NObj = {nobj}
 NSnap = {nsnap}
 Ops = {tla_set(ops)}
 Widths = {tla_set(widths)}
 Sizes = {tla_set(sizes)}
 Depth = {depth}
 Diff = {str(bool(diff)).upper()}
 MaxPos = {maxpos}
 More = {tail}
INVARIANTS Chained Emit
PROPERTIES OnlyTarget SnapStable
CHECK_DEADLOCK FALSE
"""
    if num is None:
        res = tlc.run("StreamGen", cfg_text=cfg, workers=1)
        ctx.model(f"StreamGen depth {depth} ops {'/'.join(sorted(ops))}", res,
                  "every behaviour of this length; Chained, OnlyTarget and SnapStable checked")
        beh = res.marked("BEH")
    else:
        cfg = cfg.replace("PROPERTIES OnlyTarget SnapStable\n", "")
        res = tlc.run("StreamGen", cfg_text=cfg, workers=1,
                      args=("-simulate", f"num={num}", "-depth", str(depth + 2), "-seed", str(ctx.seed * 1000 + seed)))
        fam = {}                     # TLC's simulator shows every successor of the last step: keep one
        for b in res.marked("BEH"):
            fam.setdefault(json.dumps(b[:depth - 1]), []).append(b)
        beh = [g[int(ctx.rng.integers(len(g)))] for g in fam.values()]
        ctx.counts["simulated_behaviours"] = ctx.counts.get("simulated_behaviours", 0) + len(beh)
    seen, out = set(), []
    for b in beh:
        k = json.dumps(b)
        if k not in seen:
            seen.add(k)
            out.append(b)
    if not out:
        raise tlc.Machinery("no behaviours generated:\n" + res.error())
    return out


def replay(ctx, behs, nobj=1, nsnap=1, diff=False, mode="levels", carriers=False, probe=False, only=None,
           every=1, tables=2):
    """Replay behaviours on every estimator variant and validate the recordings."""
    scens, labels = [], []
    for vi, (name, cls, make) in enumerate(variants(ctx.quick, diff)):
        if only and not only(cls):
            continue
        refs = [{} for _ in range(tables)]
        tabs = [Table(ctx.seed * 100 + vi * 10 + t, ints=t % 2 == 1) for t in range(tables)]
        for bi, beh in enumerate(behs):
            if (bi + vi) % every:
                continue
            t = (bi // every) % tables
            run = Run(make, beh, nobj, nsnap, tabs[t], diff, ctx.rng, refs[t], mode, carriers, probe)
            ev = run.go()
            scens.append({"nobj": nobj, "nsnap": nsnap, "diffs": [bool(diff)] * nobj, "events": ev})
            labels.append((name, tabs[t], beh))
    keep = ("op", "o", "k", "q", "ids", "kind", "n", "unfitted", "obs", "err", "dirty", "hist")
    slim = [{**s, "events": [{k: v for k, v in e.items() if k in keep} for e in s["events"]]} for s in scens]
    chunks = max(1, sum(len(s["events"]) for s in scens) // 60000)
    fails, results = tlc.validate("StreamTrace", slim, lambda s: len(s["events"]), chunks=chunks, heap="12g")
    ctx.validated("StreamTrace", len(scens), results)
    cmp = sum(m["cmp"] for r in results for m in r.marked("END"))
    ctx.counts["readings_compared"] = ctx.counts.get("readings_compared", 0) + cmp
    if not cmp and not fails:
        raise tlc.Machinery("no reading was compared")
    for f in fails:
        name, tab, beh = labels[f["sc"]]
        ev = scens[f["sc"]]["events"]
        calls = [{k: v for k, v in e.items() if k not in ("obs",)} for e in ev[:f["l"]] if e["op"] != "ref"]
        ids = sorted({i for e in calls for i in e.get("ids", [])})
        ctx.violation(f"{name.split('(')[0]}:{'+'.join(f['fails'])}",
                      f"{name} diff={diff}: after {' '.join(describe(c) for c in calls[-8:])}: {', '.join(f['fails'])}",
                      {"estimator": name, "diff": diff, "calls": calls, "rows": {i: tab.row(i).tolist() for i in ids},
                       "failing_event": ev[f["l"] - 1]})
    for i in range(0, len(scens), max(1, len(scens) // 3)):
        ctx.sample({"estimator": labels[i][0], "calls": " ".join(describe(c) for c in scens[i]["events"] if c["op"] != "ref")[:400]})
    return cmp


def describe(c):
    o = f"o{c['o']}." if "o" in c else ""
    if "ids" in c:
        return f"{o}{c['op']}({len(c['ids'])} rows{'' if c.get('carrier', 'f64') == 'f64' else ' as ' + c['carrier']})"
    if c["op"] in ("save", "load"):
        return f"{o}{c['op']}[{c.get('kind')} {c['k']}]"
    if c["op"] == "bad":
        return f"{o}bad[{c['kind']}]"
    if c["op"] == "copy":
        return f"{o}copy->o{c['q']}"
    return o + c["op"]


# ---------------------------------------------------------------------- properties
IMPL = (("AliasPrev", "a pending level kept by reference"), ("DropPrev", "a saved state without the pending level"),
        ("KeepPrev", "fit that keeps the pending level"), ("EagerReset", "fit that resets before it validates"),
        ("PartWay", "a batch absorbed row by row before its widths are checked"),
        ("AliasSnap", "a saved state sharing the live accumulators"), ("SkipSame", "equal consecutive levels skipped"))


def impl(ctx, switches):
    """The mechanism of base.py refines Stream (exhaustively, small bounds); the refinement fails, as it
    must, for each of the listed ways of getting it wrong."""
    def cfg(on):
        return "SPECIFICATION Spec\nCONSTANTS\n Depth = %d\n" % ctx.pick(5, 6) + "".join(
            f" {n} = {str(n == on).upper()}\n" for n, _ in IMPL) + "INVARIANT Refines\nCHECK_DEADLOCK FALSE\n"
    res = tlc.run("StreamImpl", cfg_text=cfg(None))
    ctx.model("StreamImpl", res, "base.py's state/pending level/snapshot mechanism refines Stream")
    for n, what in IMPL:
        if n in switches:
            r = tlc.run("StreamImpl", cfg_text=cfg(n), check=False)
            if "Invariant Refines is violated" not in r.out:
                raise tlc.Machinery(f"StreamImpl does not notice {what}:\n" + r.error())
            ctx.notes.append(f"StreamImpl with {what}: refinement violated, as it must be")


def p01(ctx):
    ops = ("batch", "fit", "one", "read")
    b = behaviours(ctx, ("batch", "fit", "one"), 2, sizes=(0, 1, 2, 6), widths=(2, 3))
    replay(ctx, b, carriers=True, every=ctx.pick(3, 1))
    for diff in (False, True):
        b = behaviours(ctx, ops, 9, num=ctx.pick(40, 400), sizes=(0, 1, 2, 3, 7), seed=1 + diff, diff=diff)
        replay(ctx, b, diff=diff, carriers=True)
        b = behaviours(ctx, ops, 8, num=ctx.pick(12, 100), sizes=(0, 1, 4, 9), widths=(1, 5), seed=3 + diff, diff=diff)
        replay(ctx, b, diff=diff, carriers=True)
    # one long batch against the same rows one at a time
    b = behaviours(ctx, ("batch", "fit"), 2, num=ctx.pick(6, 30), sizes=(0, 40, 55), widths=(3,), maxpos=99, seed=9, tail=0)
    replay(ctx, b, carriers=True)


def p02(ctx):
    impl(ctx, ('KeepPrev',))
    for diff in (False, True):
        b = behaviours(ctx, ("one", "fit"), 3, sizes=(0, 1, 6), diff=diff)
        replay(ctx, b, diff=diff, mode="refit", every=ctx.pick(20, 2))
        b = behaviours(ctx, ("one", "fit", "read"), 12, num=ctx.pick(40, 400), sizes=(0, 1, 2, 3, 8), diff=diff,
                       widths=(1, 2, 4), seed=1 + diff, tail=7)
        replay(ctx, b, diff=diff, mode="refit")
    b = behaviours(ctx, ("one", "fit", "read", "savejson", "savepickle", "copy"), 10, num=ctx.pick(30, 300), nobj=2,
                   sizes=(0, 1, 3, 7), seed=5, tail=6)
    replay(ctx, b, nobj=2, mode="refit")


def p03(ctx):
    impl(ctx, ('DropPrev', 'AliasSnap'))
    ops = ("one", "savejson", "savedict", "savepickle", "copy")
    for diff in (False, True):
        b = behaviours(ctx, ops, 4, nobj=2, diff=diff, widths=(2,), tail=3)
        replay(ctx, b, nobj=2, diff=diff, every=ctx.pick(90, 4))
        for w, s in (((2, 3), 1), ((4,), 3)):
            b = behaviours(ctx, ops + ("read",), 16, num=ctx.pick(30, 300), nobj=2, nsnap=2, diff=diff, widths=w,
                           seed=s + diff, tail=7)
            replay(ctx, b, nobj=2, nsnap=2, diff=diff)
    b = behaviours(ctx, ("one", "fit", "batch", "savejson", "savepickle", "savedict", "copy", "read"), 18,
                   num=ctx.pick(20, 300), nobj=3, nsnap=2, widths=(2, 3), sizes=(0, 1, 5, 9), seed=7, tail=6)
    replay(ctx, b, nobj=3, nsnap=2)


def p04(ctx):
    impl(ctx, ('AliasPrev', 'SkipSame'))
    b = behaviours(ctx, ("one", "batch", "fit"), 3, diff=True, sizes=(0, 1, 2), widths=(2, 3))
    replay(ctx, b, diff=True, mode="diff", every=ctx.pick(16, 2))
    b = behaviours(ctx, ("one", "batch", "fit", "savejson", "copy", "read"), 12, num=ctx.pick(50, 500), nobj=2, diff=True,
                   sizes=(0, 1, 2, 3, 8), seed=1, tail=6)
    replay(ctx, b, nobj=2, diff=True, mode="diff")
    b = behaviours(ctx, ("one", "batch", "fit"), 8, num=ctx.pick(12, 100), diff=True, sizes=(0, 1, 5), widths=(1, 4),
                   seed=2, tail=6)
    replay(ctx, b, diff=True, mode="diff")


def p05(ctx):
    impl(ctx, ('AliasPrev',))
    ops = ("one", "read", "scribble")
    for diff in (False, True):
        b = behaviours(ctx, ops, 4, nobj=1, diff=diff, widths=(2,), tail=6)
        replay(ctx, b, diff=diff, mode="isolation", probe=True)
        b = behaviours(ctx, ops + ("batch", "fit", "savedict", "copy"), 16, num=ctx.pick(40, 400), nobj=2, nsnap=2, diff=diff,
                       sizes=(0, 1, 2, 6), seed=1 + diff, tail=4)
        replay(ctx, b, nobj=2, nsnap=2, diff=diff, mode="isolation", probe=True)
    b = behaviours(ctx, ops + ("fit",), 14, num=ctx.pick(20, 200), nobj=3, sizes=(1, 6), seed=5, tail=5, widths=(1, 3))
    replay(ctx, b, nobj=3, mode="isolation", probe=True)


def p06(ctx):
    impl(ctx, ('EagerReset', 'PartWay'))
    for diff in (False, True):
        b = behaviours(ctx, ("one", "bad"), 3, diff=diff, widths=(2,), tail=6)
        replay(ctx, b, diff=diff, every=ctx.pick(20, 2))
        b = behaviours(ctx, ("one", "bad", "read"), 14, num=ctx.pick(40, 400), diff=diff, widths=(1, 2, 3), seed=1 + diff, tail=5)
        replay(ctx, b, diff=diff)
        b = behaviours(ctx, ("one", "bad", "read", "fit", "savejson"), 12, num=ctx.pick(20, 200), diff=diff, widths=(2, 4),
                       sizes=(0, 1, 7), seed=3 + diff, tail=5)
        replay(ctx, b, diff=diff)
