"""Shared pieces of the conformance harness: context, evidence, known findings, encoding, data."""
import contextlib, hashlib, json, math, os, random, signal, sys, time, warnings

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")


# ------------------------------------------------------------------ encoding
def enc(v):
    """A value as TLC-readable JSON: floats as hexadecimal literals, arrays as nested lists."""
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        v = int(v)
        return v if abs(v) < 2 ** 31 else float(v).hex()
    if isinstance(v, (float, np.floating)):
        v = float(v)
        return v.hex() if math.isfinite(v) else ("nan" if v != v else "inf" if v > 0 else "-inf")
    if isinstance(v, np.ndarray):
        return enc(v.tolist()) if v.ndim else enc(v.item())
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {k: enc(x) for k, x in v.items()}
    if isinstance(v, str):
        return v
    if v is None:
        return "none"
    return "unencodable:" + type(v).__name__


def fenc(v):
    """Like enc, but every number becomes a float literal (so vectors are uniform)."""
    return enc(np.asarray(v, dtype=float))


class Timeout(Exception):
    pass


@contextlib.contextmanager
def limit(seconds):
    """Raise Timeout in code under test that does not return."""
    def onalarm(*_):
        raise Timeout(f"no answer after {seconds} s")
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def errname(ex):
    return type(ex).__name__


# ------------------------------------------------------------------- context
class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.rng = np.random.default_rng([seed, int(hashlib.sha256(pid.encode()).hexdigest()[:8], 16)])
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.exhaustive_models = []
        self.samples, self.violations, self.notes, self.counts = [], [], [], {}
        self.assumptions = []

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def tlc(self, name, res):
        """Account for a TLC run."""
        self.states += res.distinct
        self.transitions += res.generated
        self.counts[name] = self.counts.get(name, 0) + res.distinct

    def model(self, name, res, what):
        self.tlc(name, res)
        self.exhaustive_models.append(
            {"model": name, "distinct_states": res.distinct, "generated": res.generated,
             "left_on_queue": res.left, "what": what, "seconds": round(res.wall, 1)})

    def validated(self, name, n, results):
        self.traces += n
        for r in results:
            self.tlc(name, r)

    def sample(self, s, cap=4):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, key, what, replay):
        """key identifies the failing input/call site; replay is JSON-serialisable."""
        self.violations.append((key, what, replay))


def known_findings(pid):
    """{key: what} of the findings recorded (and not repaired) for this property."""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            if ln.startswith("finding: property=%s " % pid):
                rest = ln.split("key=", 1)[1].strip()
                key, _, what = rest.partition(" | ")
                out[key.strip()] = what.strip()
    return out


def finish(ctx, level="model_checking"):
    known = known_findings(ctx.pid)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    bad, seen_known = [], {}
    for key, what, replay in ctx.violations:
        if key in known:
            seen_known.setdefault(key, what)
        else:
            bad.append((key, what, replay))
    for key in known:
        print(f"KNOWN-FINDING: property={ctx.pid} {key} | {known[key]}"
              + ("" if key in seen_known else " (not reproduced in this run)"))
    cov = {
        "states": ctx.states, "transitions": ctx.transitions,
        "traces_validated_against_impl": ctx.traces,
        "samples": ctx.samples or ["(none)"],
        "models": ctx.exhaustive_models, "distinct_states_by_run": ctx.counts,
    }
    if ctx.notes:
        cov["notes"] = ctx.notes
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2),
          "violations": len(bad)}
    with open(os.path.join(EVID, ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    seen = set()
    for key, what, replay in bad:
        if key in seen or len(seen) >= 10:
            continue
        seen.add(key)
        h = hashlib.sha256((ctx.pid + key).encode()).hexdigest()[:10]
        path = os.path.join(EVID, "replay", f"{ctx.pid}-{h}.json")
        with open(path, "w") as f:
            json.dump({"property": ctx.pid, "key": key, "what": what, "replay": replay}, f, indent=1, default=str)
        print(f"VIOLATION property={ctx.pid} replay={path}   [{key}] {what}")
    print(f"{ctx.pid} {ctx.tier}: {ctx.states} states, {ctx.traces} traces validated, "
          f"{len(bad)} violations, {time.time() - ctx.t0:.1f} s")
    return 1 if bad else 0


# ---------------------------------------------------------------------- data
def spd(rng, p, cond=10.0):
    q, _ = np.linalg.qr(rng.normal(size=(p, p)))
    ev = np.exp(np.linspace(0, math.log(cond), p)) if p > 1 else np.ones(1)
    return (q * ev) @ q.T


def rows(rng, n, p, kind="gauss", scale=1.0, shift=0.0):
    """A data stream of a named kind; values rounded so traces stay short."""
    A = np.linalg.cholesky(spd(rng, p, 20.0))
    if kind == "gauss":
        X = rng.normal(size=(n, p)) @ A.T
    elif kind == "heavy":
        X = rng.standard_t(3, size=(n, p)) @ A.T
    elif kind == "jump":                      # level and volatility shift half way
        X = rng.normal(size=(n, p)) @ A.T
        X[n // 2:] = X[n // 2:] * 3.0 + 2.0
    elif kind == "outlier":
        X = rng.normal(size=(n, p)) @ A.T
        for k in rng.integers(0, n, size=max(1, n // 8)):
            X[k] += 40.0 * rng.normal(size=p)
    elif kind == "lattice":                   # small integers, many ties and repeats
        X = rng.integers(-2, 3, size=(n, p)).astype(float)
    elif kind == "walk":
        X = np.cumsum(rng.normal(size=(n, p)) @ A.T, axis=0)
    else:
        raise ValueError(kind)
    X = np.round(X, 4) * scale + shift
    return np.asarray(X, dtype=float)


KINDS = ("gauss", "heavy", "jump", "outlier", "lattice", "walk")
