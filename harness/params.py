"""P32: behaviours of objects under construction, set_params, clone and fit (spec/ParamGen.tla), replayed
on every estimator class and validated by TLC against spec/ParamTrace.tla; and the registry."""
import ast, copy, json, pickle

import numpy as np

from . import common, stream, tlc
from .common import enc
from .est import DEFAULTS

VALUES = {"r": (0.3, 0.15, 0.6), "max_r": (0.5, 0.9, 0.7), "delta": (0.1, 0.5, 0.0),
          "target": ("constant_correlation", "identity", "constant_correlation"), "n_blocks": (2, 1, 3),
          "gamma": (0.5, 0.0, 1.0), "interpolation": ("linear", "geodesic", "linear"), "c": (2.5, 0.8, 1.5),
          "vol_r": (None, 0.5, 0.2), "k": (1, 2, 3), "diff": (False, True, False)}
REGISTRY = None
P = 3


def registry_order():
    """The order in spec/Recommend.tla."""
    import re
    s = open(tlc.SPEC + "/Recommend.tla").read()
    return re.findall(r'"(\w+)"', s[s.index("Registry =="):s.index(">>")])


def text(v):
    return repr(v) + (f"|n={v.n_samples_}" if hasattr(v, "n_samples_") else "")


def table(cls, rng):
    """{parameter: slot} and {parameter: three values}; classes outside DEFAULTS are the composed one."""
    import precise
    if cls == "ConditionalCovariance":
        vals = {"vol": (precise.EwaCovariance(r=0.3), precise.HuberCovariance(r=0.3), precise.EwaCovariance(r=0.15)),
                "corr": (precise.EwaCovariance(r=0.3), precise.LedoitWolfCovariance(r=0.3), precise.EmpiricalCovariance())}
    else:
        vals = {k: VALUES[k] for k in [*DEFAULTS[cls], "diff"]}
    slots = {k: int(rng.integers(1, 3)) for k in vals}
    if len(vals) > 1 and len(set(slots.values())) == 1:
        slots[next(iter(slots))] = 3 - slots[next(iter(slots))]
    return slots, vals


def assign(slots, vals, prm):
    return {k: vals[k][prm[slots[k] - 1]] for k in slots}


def shown(est):
    """Class name and (parameter, text) pairs of the printed form."""
    call = ast.parse(repr(est), mode="eval").body
    return call.func.id, [[k.arg, ast.unparse(k.value)] for k in call.keywords]


def everything(objs):
    return [sorted([k, text(v)] for k, v in o.get_params().items()) for o in objs]


def act(t, fn):
    try:
        with common.limit(30):
            t.update(fn() or {})
    except Exception as ex:
        t["err"] = common.errname(ex)
    return t


def replay(beh, cls, rng, tab):
    import precise
    C = getattr(precise, cls)
    slots, vals = table(cls, rng)
    nobj = max([e["o"] for e in beh] + [e.get("q", 1) for e in beh])
    # at the start every object is constructed with the values numbered 0
    objs = [C(**assign(slots, vals, (0, 0))) for _ in range(nobj)]
    known = [{"name": k, "slot": slots[k], "vals": [text(v) for v in vals[k]]} for k in slots]
    extra = [k for k in objs[0].get_params() if k not in slots]     # parameters this table does not know stay at their defaults
    known += [{"name": k, "slot": 0, "vals": [text(objs[0].get_params()[k])]} for k in extra]
    events, abstract = [], [[(0, 0), []] for _ in range(nobj)]

    def step(e):
        e = dict(e)
        o = e["o"] - 1
        kw = assign(slots, vals, e["prm"]) if "prm" in e else None

        def go():
            r = None
            if e["op"] == "new":
                objs[o] = C(**kw)
            elif e["op"] == "set":
                if rng.random() < .3:           # one call per parameter, in any order
                    for k in rng.permutation(list(kw)):
                        r = objs[o].set_params(**{str(k): kw[k]})
                else:
                    r = objs[o].set_params(**kw)
            elif e["op"] == "learn":
                r = objs[o].partial_fit(tab.rows(e["ids"], P))
            elif e["op"] == "fit":
                r = objs[o].fit(tab.rows(e["ids"], P))
            elif e["op"] == "clone":
                objs[e["q"] - 1] = type(objs[o])(**(objs[o].get_params() if rng.random() < .7 else objs[o].get_params(deep=False)))
            elif e["op"] == "copy":
                objs[e["q"] - 1] = copy.deepcopy(objs[o]) if rng.random() < .5 else pickle.loads(pickle.dumps(objs[o]))
            out = {"all": everything(objs)}
            if e["op"] in ("set", "learn", "fit"):
                out["self"] = r is objs[o]
            return out
        events.append(act(e, go))
        return "err" not in events[-1]
    for e in beh:
        ok = step(e)
        op, o = e["op"], e["o"] - 1
        if op == "new":
            abstract[o] = [tuple(e["prm"]), []]
        elif op == "set":
            abstract[o] = [tuple(e["prm"]), abstract[o][1]]
        elif op == "learn":
            abstract[o] = [abstract[o][0], abstract[o][1] + e["ids"]]
        elif op == "fit":
            abstract[o] = [abstract[o][0], list(e["ids"])]
        elif op == "clone":
            abstract[e["q"] - 1] = [abstract[o][0], []]
        elif op == "copy":
            abstract[e["q"] - 1] = list(abstract[o])
        if not ok:
            break
        t = e.get("q", e["o"])
        events.append(act({"op": "read", "o": t}, lambda: stream.reading(objs[t - 1])))
        if rng.random() < .5:
            def pr():
                c, s = shown(objs[t - 1])
                return {"cls": c, "shown": s, "values": cls != "ConditionalCovariance"}
            events.append(act({"op": "repr", "o": t}, pr))
        prm, hist = abstract[t - 1]
        if hist:
            def ref():
                fresh = C(**assign(slots, vals, prm))
                fresh.partial_fit(tab.rows(hist, P))
                return stream.reading(fresh)
            events.append(act({"op": "ref", "prm": list(prm), "hist": list(hist)}, ref))
    return {"cls": cls, "p": P, "nobj": nobj, "params": known, "events": events}


def registry(ctx):
    import precise
    from precise import all_estimators, estimator_names, estimator_from_name
    from precise.base import BaseOnlineCovariance

    def go():
        a = all_estimators()
        names = estimator_names()
        unknown = []
        for nm in ("NoSuchEstimator", "", "empiricalcovariance", "EmpiricalCovariance ", "BaseOnlineCovariance", "ConditionalCovariance"):
            try:
                estimator_from_name(nm)
                unknown.append("none")
            except Exception as ex:
                unknown.append(common.errname(ex))
        b = all_estimators()
        b.reverse()
        b.pop()
        n2 = estimator_names()
        n2.clear()
        return {"names": names, "classes": [c.__name__ for c in a],
                "lookup": [estimator_from_name(n) is c for n, c in zip(names, a)], "unknown": unknown,
                "after": [c.__name__ for c in all_estimators()], "distinct": len(set(a)) == len(a),
                "subclasses": all(isinstance(c, type) and issubclass(c, BaseOnlineCovariance) for c in a)}
    return {"cls": "registry", "p": 1, "nobj": 1, "params": [], "events": [act({"op": "registry"}, go), act({"op": "registry"}, go)]}


def generate(ctx, depth, nobj, num=None, batches="{<<301, 302, 303, 304, 305, 306>>, <<307>>}"):
    cfg = (f"SPECIFICATION Spec\nCONSTANTS\n Depth = {depth}\n NObj = {nobj}\n Batches <- B\n"
           "INVARIANTS Emit SetThenFit\nPROPERTY Frame\nCHECK_DEADLOCK FALSE\n")
    import os, tempfile, shutil
    d = tempfile.mkdtemp(prefix="pg-")
    try:
        with open(os.path.join(d, "ParamGenB.tla"), "w") as f:
            f.write(f"---- MODULE ParamGenB ----\nEXTENDS ParamGen\nB == {batches}\n====\n")
        if num is None:
            r = tlc.run("ParamGenB", cfg_text=cfg, workers=1, moddir=d)
            ctx.model(f"ParamGen depth {depth}, {nobj} object(s)", r, "every behaviour of this length; Frame and SetThenFit checked")
            return r.marked("BEH")
        r = tlc.run("ParamGenB", cfg_text=cfg.replace("PROPERTY Frame\n", "").replace(" SetThenFit", ""), workers=1, moddir=d,
                    args=("-simulate", f"num={num}", "-depth", str(depth + 2), "-seed", str(ctx.seed)))
        out = r.marked("BEH")
        ctx.counts["simulated_behaviours"] = len(out)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def p32(ctx):
    rng = ctx.rng
    classes = [*DEFAULTS, "ConditionalCovariance"]
    small = generate(ctx, 3, 1)
    pairs = generate(ctx, 7, 2, num=ctx.pick(500, 6000),
                     batches="{<<301, 302, 303, 304, 305, 306, 307, 308>>, <<309>>, <<310, 311>>, <<312, 313, 314>>}")
    fam = {}
    for b in pairs:
        fam.setdefault(json.dumps(b[:-1]), b)
    pairs = list(fam.values())
    tab = stream.Table(ctx.seed, False)
    scens = [registry(ctx)]
    per = ctx.pick(60, len(small) // 3)
    for cls in classes:
        pick = [small[int(i)] for i in rng.choice(len(small), size=min(per, len(small)), replace=False)]
        pick += [pairs[int(i)] for i in rng.choice(len(pairs), size=min(ctx.pick(30, 350), len(pairs)), replace=False)]
        scens += [replay(b, cls, rng, tab) for b in pick]
    order = ", ".join('"%s"' % n for n in registry_order())
    import os, tempfile, shutil
    d = tempfile.mkdtemp(prefix="pt-")
    try:
        with open(os.path.join(d, "ParamTraceB.tla"), "w") as f:
            f.write(f"---- MODULE ParamTraceB ----\nEXTENDS ParamTrace\nNames == <<{order}>>\n====\n")
        fails, results = tlc.validate("ParamTraceB", scens, lambda s: len(s["events"]), moddir=d,
                                      cfg_text="SPECIFICATION Spec\nVIEW View\nCONSTANT Registry <- Names\nCHECK_DEADLOCK FALSE\n")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.validated("ParamTrace", len(scens), results)
    for f in fails:
        s = scens[f["sc"]]
        ctx.violation(f"{s['cls']}:" + "+".join(f["fails"]), f"{s['cls']} event {f['l']}: {', '.join(f['fails'])}",
                      {"class": s["cls"], "params": s["params"], "events": s["events"][:f["l"]]})
    ctx.sample({"class": scens[1]["cls"], "calls": [{k: v for k, v in e.items() if k in ("op", "o", "q", "prm", "ids")} for e in scens[1]["events"]]})
    ctx.sample({"registry": scens[0]["events"][0]})
