"""P23-P26: the keyed adapters."""
import copy, json, pickle

import numpy as np

from . import common, tlc
from .common import enc, fenc
from .est import DEFAULTS, canon
from .stream import frozen

NAMES = {  # how the abstract names 1..6 are spelled
    "str": ["AAPL", "b", "zz top", "0", "Delta", "a"],
    "int": [7, 3, 11, 0, 42, 5],
    "tuple": [("x", 1), ("x", 0), ("a", 9), ("a",), (0, 0), ("q", 2)],
}


def name(style, k):
    return NAMES[style][k - 1]


def unname(style, v):
    try:
        return NAMES[style].index(v) + 1
    except ValueError:
        return 0


def tlaset(xs):
    return "{" + ", ".join(xs) + "}"


def number(v, rng):
    """The same value in one of the types users pass."""
    k = int(rng.integers(3))
    return float(v) if k < 2 else np.float64(v)


# ------------------------------------------------------------------------ P23
def p23(ctx):
    import precise
    rng = ctx.rng

    def gen(names, depth, given, sim=None):
        cfg = ("SPECIFICATION Spec\nCONSTANTS\n NNames = %d\n Depth = %d\n Given <- GivenSet\n"
               "INVARIANTS UniverseFixed LastSeen Aligned Emit\nPROPERTY OrderFree\nCHECK_DEADLOCK FALSE\n" % (names, depth))
        cfg = cfg.replace("Given <- GivenSet", "Given = " + given)
        if sim:
            cfg = cfg.replace("PROPERTY OrderFree\n", "")
            r = tlc.run("FixedGen", cfg_text=cfg, workers=1,
                        args=("-simulate", f"num={sim}", "-depth", str(depth + 2), "-seed", str(ctx.seed)))
            fam = {}
            for b in r.marked("BEH"):
                fam.setdefault(json.dumps([b["given"], b["impute"], b["log"][:-1]]), []).append(b)
            return [v[int(rng.integers(len(v)))] for v in fam.values()]
        r = tlc.run("FixedGen", cfg_text=cfg, workers=1)
        ctx.model(f"FixedGen {names} names depth {depth}", r,
                  "all streams of dictionaries; UniverseFixed, LastSeen, Aligned, OrderFree checked")
        return r.marked("BEH")
    # sequences are not allowed in a cfg file; the universes given are named in the model instead
    small = gen(2, ctx.pick(3, 4), '{"none", "12", "21", "1", "31"}')
    mid = gen(3, 2, '{"none", "312", "23", "4132"}')
    long = gen(4, 14, '{"none", "4132", "23"}', sim=ctx.pick(120, 1200))
    settings = [(c, {k: v for k, v in {"r": 0.3, "n_blocks": 2}.items() if k in DEFAULTS[c]}) for c in DEFAULTS
                if c not in ("TylerCovariance", "GeodesicEwaCovariance", "SchurConditionalCovariance")]
    settings += [("EwaCovariance", {"r": 0.9}), ("EmpiricalCovariance", {}), ("EwaCovariance", {})]
    plan = [(b, settings[int(rng.integers(len(settings)))]) for b in small] + \
           [(b, settings[int(rng.integers(len(settings)))]) for b in mid] + \
           [(b, s) for i, b in enumerate(long) for s in (settings[i % len(settings)], settings[(7 * i + 3) % len(settings)])]
    if ctx.quick:
        plan = plan[::2] + [p for p in plan if len(p[0]["log"]) > 4][::2]
    scens, meta = [], []
    for b, (cls, kw) in plan:
        style = list(NAMES)[int(rng.integers(3))]
        given, log = b["given"], b["log"]
        p = len(given or log[0])
        events, err = [], None
        try:
            with common.limit(60):
                proto = getattr(precise, cls)(**kw)
                opts = {"impute": b["impute"]} if b["impute"] != "ffill" or rng.random() < .5 else {}
                if given:
                    opts["keys"] = own = [name(style, k) for k in given]
                    opts["keys"] = [own, tuple(own), dict.fromkeys(own), dict.fromkeys(own).keys(), iter(own)][int(rng.integers(5))]
                ad = precise.FixedUniverse(proto, **opts) if rng.random() < .5 else \
                    precise.keyed(proto, **opts)
                if given and isinstance(opts["keys"], list):
                    opts["keys"].reverse()              # the list is the caller's own
                for names in log:
                    vals = [round(float(v), 2) for v in rng.normal(size=len(names)) * 2 + 1]
                    ev = {"names": names, "vals": fenc(vals) if names else []}
                    events.append(ev)
                    row = {name(style, k): number(v, rng) for k, v in zip(names, vals)}
                    ad.update(row)
                    row.clear()                         # and so is the dictionary
                    cov, keys = ad.cov_array()
                    ev["obs"] = {"cov": fenc(cov), "keys": [unname(style, k) for k in keys]}
                    keys.reverse()                      # and what was handed out
                    cov *= 0
        except Exception as ex:
            events[-1]["obs"] = {"err": common.errname(ex)}
        scens.append({"cls": cls, "prm": canon(cls, kw), "p": p, "given": given, "impute": b["impute"], "events": events})
        meta.append((cls, kw, style))
    fails, results = tlc.validate("FixedTrace", scens, lambda s: len(s["events"]), heap="8g")
    ctx.validated("FixedTrace", len(scens), results)
    for f in fails:
        s = scens[f["sc"]]
        cls, kw, style = meta[f["sc"]]
        ctx.violation(f"FixedUniverse:{s['impute']}:{'+'.join(f['fails'])}",
                      f"FixedUniverse({cls}({kw}), keys={s['given'] or None}, impute={s['impute']!r}) after dictionaries "
                      f"with names {[e['names'] for e in s['events'][:f['l']]]}: {', '.join(f['fails'])}",
                      {**s, "events": s["events"][:f["l"]], "names": style})
    for s in scens[::max(1, len(scens) // 3)]:
        ctx.sample({"wrapped": s["cls"], "impute": s["impute"], "keys": s["given"] or None,
                    "names_per_update": [e["names"] for e in s["events"]]})


# ------------------------------------------------------------------------ P24, P25
def recording(cls):
    """A subclass of a real estimator that notes what each instance is fed."""
    log = []

    def partial_fit(self, X, y=None):
        A = np.array(X, dtype=float)
        for x in (A[None, :] if A.ndim == 1 else A):
            if not hasattr(self, "_rid"):
                ids = [e["id"] for e in log]
                object.__setattr__(self, "_rid", recording.counter)
                recording.counter += 1
            log.append({"id": self._rid, "v": fenc(x)})
        return cls.partial_fit(self, X)
    sub = type(cls.__name__, (cls,), {"partial_fit": partial_fit, "__init__": cls.__init__})
    return sub, log


recording.counter = 1


def dyn_gen(ctx, names, depth, maxu, maxs, sim=None, seed=0):
    cfg = ("SPECIFICATION Spec\nCONSTANTS\n NNames = %d\n Depth = %d\n MaxUs = %s\n MaxSs = %s\n"
           "INVARIANTS Bounded Distinct LatestTracked NoneTooStale HistExact Emit\nPROPERTY DropsJustified\n"
           "CHECK_DEADLOCK FALSE\n" % (names, depth, tlaset(map(str, maxu)), tlaset(map(str, maxs))))
    if sim:
        cfg = cfg.replace("PROPERTY DropsJustified\n", "").replace(" HistExact", "")
        r = tlc.run("DynGen", cfg_text=cfg, workers=1,
                    args=("-simulate", f"num={sim}", "-depth", str(depth + 2), "-seed", str(ctx.seed + seed)))
        fam = {}
        for b in r.marked("BEH"):
            fam.setdefault(json.dumps([b["maxU"], b["maxS"], b["log"][:-1]]), []).append(b)
        return [v[int(ctx.rng.integers(len(v)))] for v in fam.values()]
    r = tlc.run("DynGen", cfg_text=cfg, workers=1)
    ctx.model(f"DynGen {names} names depth {depth} max {maxu} staleness {maxs}", r,
              "all sequences of name sets; Bounded, Distinct, LatestTracked, NoneTooStale, HistExact, DropsJustified")
    seen = {}
    for b in r.marked("BEH"):
        seen[json.dumps(b)] = b
    return list(seen.values())


def dyn_run(ctx, b, cls, kw, queries, rng):
    import precise
    style = list(NAMES)[int(rng.integers(3))]
    K = max(max(x) for x in b["log"])
    events = []
    try:
        with common.limit(60):
            sub, log = recording(getattr(precise, cls))
            opts = {}
            if b["maxU"] != 10 or rng.random() < .5:
                opts["max_universes"] = b["maxU"]
            if b["maxS"] != 50 or rng.random() < .5:
                opts["max_staleness"] = b["maxS"]
            proto = sub(**kw)
            ad = precise.DynamicUniverse(proto, **opts) if rng.random() < .5 else \
                precise.keyed(proto, dynamic=True, **opts)
            for step, X in enumerate(b["log"]):
                names = [int(k) for k in rng.permutation(sorted(X))]
                vals = []
                while len(vals) < len(names):       # distinct values identify the names
                    v = round(float(rng.normal() * 2 + .5), 3)
                    if v not in vals:
                        vals.append(v)
                ev = {"op": "update", "names": names, "vals": fenc(vals), "fed": [], "count": -1}
                events.append(ev)
                mark = len(log)
                row = {name(style, k): number(v, rng) for k, v in zip(names, vals)}
                ad.update(row)
                row.clear()                         # the dictionary is the caller's own
                ev["fed"] = [dict(r) for r in log[mark:]]
                ev["count"] = len(ad.states)
                for q in queries(step, names, K):
                    ev = {"op": "query", "names": q}
                    events.append(ev)
                    cov, keys = ad.cov_array([name(style, k) for k in q] if q else None)
                    ev["cov"], ev["keys"] = fenc(cov), [unname(style, k) for k in keys]
    except Exception as ex:
        events[-1]["err"] = common.errname(ex)
        events[-1].setdefault("cov", []), events[-1].setdefault("keys", [])
    return {"cls": cls, "prm": canon(cls, kw), "maxU": b["maxU"], "maxS": b["maxS"], "events": events}


def dyn_judge(ctx, scens, only=None):
    fails, results = tlc.validate("DynTrace", scens, lambda s: len(s["events"]), heap="8g")
    ctx.validated("DynTrace", len(scens), results)
    amb = sum(len(r.marked("AMB")) for r in results)
    ctx.counts["runs_with_tied_victims"] = ctx.counts.get("runs_with_tied_victims", 0) + amb
    for f in fails:
        s = scens[f["sc"]]
        ev = s["events"][f["l"] - 1]
        if only and not only(ev, f["fails"]):
            continue
        ctx.violation(f"DynamicUniverse:{ev['op']}:{'+'.join(f['fails'])}",
                      f"DynamicUniverse({s['cls']}, max_universes={s['maxU']}, max_staleness={s['maxS']}) after "
                      f"{[(e['names'] if e['op'] == 'update' else ('query', e['names'])) for e in s['events'][:f['l']]]}: "
                      f"{', '.join(f['fails'])}", {**s, "events": s["events"][:f["l"]]})
    for s in scens[::max(1, len(scens) // 3)]:
        ctx.sample({"wrapped": s["cls"], "max_universes": s["maxU"], "max_staleness": s["maxS"],
                    "names_per_update": [e["names"] for e in s["events"] if e["op"] == "update"][:20],
                    "queries": sum(1 for e in s["events"] if e["op"] == "query")})


def p24(ctx):
    rng = ctx.rng
    none = lambda step, names, K: []
    b = dyn_gen(ctx, 3, ctx.pick(4, 5), (1, 2, 3), (0, 1, 2))
    if ctx.quick:
        b = b[::3]
    b2 = dyn_gen(ctx, 2, ctx.pick(6, 7), (1, 2, 3), (0, 1, 3))
    b += b2[::ctx.pick(3, 1)]
    b += dyn_gen(ctx, 4, 40, (1, 2, 3, 4, 6), (0, 1, 2, 3, 5, 8), sim=ctx.pick(250, 3000))
    b += dyn_gen(ctx, 5, 70, (3, 10), (4, 12, 50), sim=ctx.pick(40, 500), seed=1)
    b += dyn_gen(ctx, 3, 12, (10,), (50,), sim=ctx.pick(10, 100), seed=2)
    for k in range(ctx.pick(6, 40)):     # long absences: the default staleness limit is reached and passed
        gap = int(rng.integers(45, 56))
        b.append({"maxU": 10, "maxS": 50, "log": [[1, 2], [1, 3]] + [[3]] * gap + [[1, 2, 3]] + [[1, 2]] * 2})
        b.append({"maxU": 10, "maxS": 50, "log": [[i % 4 + 1] for i in range(12)] + [sorted({int(v) + 1 for v in rng.integers(0, 6, size=3)}) for _ in range(60)]})
    scens = [dyn_run(ctx, x, "EmpiricalCovariance", {}, none, rng) for x in b]
    dyn_judge(ctx, scens)


def p25(ctx):
    rng = ctx.rng

    def queries(step, names, K):
        out = [[]]
        if step % 2 == 0 or len(names) > 2:
            out.append([int(k) for k in rng.permutation(np.arange(1, K + 2))[: int(rng.integers(1, K + 2))]])
        return out
    b = dyn_gen(ctx, 3, 3, (2, 10), (1, 50))[:: ctx.pick(1, 1)]
    b += dyn_gen(ctx, 4, 16, (2, 4, 10), (2, 5, 50), sim=ctx.pick(150, 2000))
    b += dyn_gen(ctx, 5, 30, (3, 10), (4, 50), sim=ctx.pick(40, 500), seed=1)
    for k in range(ctx.pick(40, 400)):   # overlapping pairs: every pair known, from different sets
        n = int(rng.integers(3, 6))
        pairs = [sorted(int(v) + 1 for v in rng.permutation(n)[: int(rng.integers(1, n))]) for _ in range(int(rng.integers(4, 8)))]
        b.append({"maxU": 10, "maxS": 50, "log": [pairs[int(rng.integers(len(pairs)))] for _ in range(24)]})
    settings = [("EmpiricalCovariance", {}), ("EwaCovariance", {"r": 0.2}), ("EwaCovariance", {}), ("DiagonalCovariance", {"r": 0.3}),
                ("LedoitWolfCovariance", {"r": 0.25}), ("EwaCovariance", {"r": 0.2}), ("OASCovariance", {"r": 0.3}), ("EmpiricalCovariance", {})]
    scens = [dyn_run(ctx, x, *settings[i % len(settings)], queries, rng) for i, x in enumerate(b)]
    dyn_judge(ctx, scens)


# ------------------------------------------------------------------------ P26
def p26(ctx):
    import precise
    rng = ctx.rng
    try:
        import pandas                      # noqa: F401
        frames = True
    except ImportError:
        frames = False

    def gen(kind, names, depth, oneset, sim=None, seed=0):
        cfg = ("SPECIFICATION Spec\nCONSTANTS\n NNames = %d\n Depth = %d\n Kind = \"%s\"\n OneSet = %s\n"
               "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (names, depth, kind, str(oneset).upper()))
        if sim is None:
            r = tlc.run("KeyedGen", cfg_text=cfg, workers=1)
            ctx.model(f"KeyedGen {kind} {names} names depth {depth}", r, "every behaviour of this length")
            return [(kind, b) for b in r.marked("BEH")]
        r = tlc.run("KeyedGen", cfg_text=cfg, workers=1,
                    args=("-simulate", f"num={sim}", "-depth", str(depth + 2), "-seed", str(ctx.seed + seed)))
        fam = {}
        for b in r.marked("BEH"):
            fam.setdefault(json.dumps(b[:depth - 1]), []).append(b)
        return [(kind, v[int(rng.integers(len(v)))]) for v in fam.values()]
    behs = []
    for i, kind in enumerate(("fixed", "dynamic")):
        behs += gen(kind, 2, 2, False)[::ctx.pick(4, 1)]
        behs += gen(kind, 3, 14, False, sim=ctx.pick(150, 1500), seed=i)
        behs += gen(kind, 3, 16, True, sim=ctx.pick(150, 1500), seed=10 + i)
    cases = [("EwaCovariance", {"r": 0.25}), ("EmpiricalCovariance", {}), ("LedoitWolfCovariance", {"r": 0.3}),
             ("HuberCovariance", {"r": 0.3, "c": 1.5}), ("DCCCovariance", {"r": 0.3}), ("EwaCovariance", {}),
             ("PartialMomentsCovariance", {"r": 0.3}), ("OASCovariance", {"r": 0.2}), ("FactorCovariance", {"k": 1, "r": 0.3})]
    scens, meta = [], []
    for bi, (kind, beh) in enumerate(behs):
        cls, kw = cases[int(rng.integers(len(cases)))]
        style = list(NAMES)[int(rng.integers(3))]
        K = getattr(precise, cls)
        proto = K(**kw)
        opts = {}
        if kind == "dynamic" and rng.random() < .4:
            opts = {"max_universes": 3, "max_staleness": 4}
        if kind == "fixed" and rng.random() < .5:
            opts = {"impute": ("ffill", "mean", "zero")[int(rng.integers(3))]}
        adapter = precise.FixedUniverse if kind == "fixed" else precise.DynamicUniverse
        dyn = {} if kind == "fixed" and rng.random() < .5 else {"dynamic": kind == "dynamic"}

        def construct(which, proto):
            if cls == "EwaCovariance" and not kw and which == 4:
                return precise.keyed(**dyn, **opts) if kind == "dynamic" or rng.random() < .5 else precise.FixedUniverse(**opts)
            return [lambda: adapter(proto, **opts), lambda: adapter(K, **opts, **kw), lambda: precise.keyed(proto, **dyn, **opts),
                    lambda: precise.keyed(K, **dyn, **opts, **kw)][which % 4]()
        seed = int(rng.integers(1 << 30))

        def dic(d):
            r = np.random.default_rng([seed, d["i"]] + list(d["names"]))
            g = np.random.default_rng([seed, d["i"]])
            v = np.round(g.normal(size=8) * 2 + 0.3, 3)
            return {name(style, k): number(v[k], r) for k in d["names"]}

        def view(ad, ask, e):
            ks = [name(style, k) for k in ask] or None
            how = rng.random()
            keys = None if ks is None else (ks if how < .6 else tuple(ks))
            arr, kk = ad.cov_array(keys) if ks or rng.random() < .5 else ad.cov_array()
            e["arr"], e["keys"] = fenc(arr), [unname(style, k) for k in kk]
            e["cov"], e["corr"] = fenc(ad.get_cov(keys)), fenc(ad.get_corr(keys))
            if frames:
                fr = ad.to_frame(keys)
                e["frame"], e["findex"], e["fcols"] = fenc(fr.to_numpy()), [unname(style, k) for k in fr.index], \
                    [unname(style, k) for k in fr.columns]
            if ks is None:
                def flat(d):
                    order = list(d)
                    return order, [[d[a][b] for b in order] if list(d[a]) == order else [] for a in order]
                order, m = flat(ad.covariance_)
                e["dkeys"], e["dcov"] = [unname(style, k) for k in order], [enc([float(v) for v in r]) for r in m]
                e["dalias"] = [enc([float(v) for v in r]) for r in flat(ad.covariance)[1]]
                e["dcorr"] = [enc([float(v) for v in r]) for r in flat(ad.correlation_)[1]]
            if rng.random() < .3:              # what was handed out belongs to the caller
                arr[...] = 77.0
                if isinstance(kk, list):
                    kk.reverse()
        events = []
        hist = {1: [], 2: []}
        p0 = (repr(proto.get_params()),)
        try:
            with common.limit(60):
                first = int(rng.integers(5))
                obj = {1: construct(first, proto), 2: construct(int(rng.integers(5)), proto)}
                seen = set()
                for c in beh:
                    e = dict(c)
                    events.append(e)
                    o = c["o"]
                    if c["op"] == "view":
                        key = json.dumps([hist[o], c["ask"]])
                        if hist[o] and key not in seen and rng.random() < .7:
                            seen.add(key)
                            ref = construct(0, K(**kw))
                            for d in hist[o]:
                                ref.update(dic(d))
                            r = {"op": "view", "o": o, "hist": list(hist[o]), "ask": c["ask"]}
                            events.insert(len(events) - 1, r)
                            view(ref, c["ask"], r)
                        try:
                            view(obj[o], c["ask"], e)
                        except ValueError:
                            e["err"] = "ValueError"
                    elif c["op"] == "copy":
                        obj[c["q"]] = copy.deepcopy(obj[o])
                        hist[c["q"]] = list(hist[o])
                    else:
                        ds = [dic(d) for d in c["dicts"]]
                        before = frozen(ds)
                        if c["op"] == "learn_many":
                            r = obj[o].learn_many(ds if rng.random() < .5 else iter(ds))
                        else:
                            r = getattr(obj[o], c["op"])(ds[0])
                        if r is not obj[o]:
                            e["err"] = "did_not_return_self"
                        e["dirty"] = frozen(ds) != before
                        hist[o] = hist[o] + c["dicts"]
                        for d in ds:                      # the caller's dictionaries are theirs again
                            for k in d:
                                d[k] = 9.0
                            if rng.random() < .3:
                                d["never"] = 1.0
                    e["trained"] = bool(proto.n_samples_ != 0 or proto.get_state() is not None
                                        or repr(proto.get_params()) != p0[0])
        except Exception as ex:
            events[-1]["err"] = common.errname(ex)
        scens.append({"kind": kind, "frames": frames, "events": events})
        meta.append((cls, kw, opts, style))
    fails, results = tlc.validate("KeyedTrace", scens, lambda s: len(s["events"]), heap="8g")
    ctx.validated("KeyedTrace", len(scens), results)
    ctx.counts["views_compared"] = sum(m["cmp"] for r in results for m in r.marked("END"))
    for f in fails:
        s = scens[f["sc"]]
        cls, kw, opts, style = meta[f["sc"]]
        ctx.violation(f"{s['kind']}:{'+'.join(f['fails'])}",
                      f"{s['kind']} adapter of {cls}({kw}) {opts} after {[(e['op'], e.get('ask', [d['names'] for d in e.get('dicts', [])])) for e in s['events'][:f['l']]][-8:]}: "
                      f"{', '.join(f['fails'])}", {"options": opts, "events": s["events"][:f["l"]]})
    for i in range(0, len(scens), max(1, len(scens) // 3)):
        ctx.sample({"adapter": scens[i]["kind"], "wrapped": meta[i][0], "calls": [e["op"] for e in scens[i]["events"]]})
