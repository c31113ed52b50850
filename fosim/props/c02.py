"""C02: a Monte Carlo fault surfaces as itself and leaves the option as it was."""
import copy
import re
import warnings

import numpy as np

from .. import mc, ref
from ..kernel import Violation, make_fault
from .c05 import check_trace

RUNS = {"quick": 4000, "thorough": 40000}
LINES = True
LISTS = ["acts"]
RULE = ("one run = 1-2 options and 2-7 pricings, most with an injected fault: an exception from the n-th draw, path or payoff, an exception out of the k-th library line, "
        "or a draw that overflows the payoff; every pricing is checked, faulty or not; non-trivial when at least one fault fired")
STATE = "(fault site, exception, trace, flags, next step) combinations"
REAL = ["finoptions.monte_carlo_options (MonteCarloOption, WienerPath, payoffs)"]
STUB = ["innovation sources and payoff/path wrappers that fail on command"]
ASSUME = ["one fault per pricing", "faults at source-line granularity; clean-up lines (finally, except, with) are not interrupted"]
KINDS = ["KeyboardInterrupt", "SystemExit", "SimCancel", "GeneratorExit", "MemoryError", "TimeoutError", "SimFault", "FloatingPointError", "OSError", "ValueError", "CancelledError"]


def gen(R, i, tier):
    opts = [mc.gen_option(R, tier, big=False) for _ in range(R.choice([1, 1, 2]))]
    for o in opts:
        o["trace"] = R.random() < .4
        o["loops"] = min(o["loops"], 12)
        o["mc_paths"] = max(2, min(o["mc_paths"], 64))
        if R.random() < .12:
            o.update(odd=mc.gen_odd(R, ["nan", "-inf", "-inf", "inf"]), payoff=o["payoff"].replace("builtin-", ""))
    acts = []
    for _ in range(R.randint(2, 7)):
        a = {"o": R.randrange(len(opts)), "m": R.choice(["call", "put"])}
        o = opts[a["o"]]
        x = R.random()
        if x < .35:
            a["plug"] = {"at": R.choice(["draw", "path", "payoff"]), "n": R.randint(1, o["loops"] + 1), "kind": R.choice(KINDS + ["StopIteration"])}
        elif x < .65:
            a["line"] = {"k": R.randint(1, o["loops"] * 16 + 12), "kind": R.choice(KINDS)}
        elif x < .85:
            a["spikes"] = [{"n": R.randrange(o["loops"]), "cell": R.randrange(10 ** 6), "v": R.choice([1, 1, -1]) * R.choice([1e5, 1e7])} for _ in range(R.choice([1, 1, 2]))]
            a["m"] = R.choice(["call", "call", "put"])
        if R.random() < .1:
            a["copy"] = True
        acts.append(a)
    acts.append({"o": R.randrange(len(opts)), "m": R.choice(["call", "put"])})
    return {"seed": R.randrange(2 ** 31), "options": opts, "acts": acts}


def valid(sc):
    return bool(sc["acts"])


def simplify(sc):
    for i, o in enumerate(sc["options"]):
        if "odd" in o:
            c = copy.deepcopy(sc)
            del c["options"][i]["odd"]
            yield c
        for key, val in (("trace", False), ("loops", 1), ("loops", 2), ("mc_paths", 2), ("path_length", 1), ("anti", False), ("std", False), ("source", "fresh"), ("path", "wiener"), ("payoff", "vanilla"), ("b", 0.0)):
            if o[key] != val and not (isinstance(val, int) and not isinstance(val, bool) and o[key] < val):
                c = copy.deepcopy(sc)
                c["options"][i][key] = val
                yield c
    for i, a in enumerate(sc["acts"]):
        if "line" in a and a["line"]["k"] > 1:
            for k in (a["line"]["k"] // 2, a["line"]["k"] - 1):
                c = copy.deepcopy(sc)
                c["acts"][i]["line"]["k"] = k
                yield c


class Sink:
    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)
        return len(s)

    def flush(self):
        pass


def run(sc, ctx):
    import sys
    k = ctx.k
    w = mc.World(k, sc["seed"])
    opts = sc["options"]
    live = [mc.build(o, w) for o in opts]
    fired = 0
    last = "-"
    kept = mc.Kept()
    real = sys.stdout
    for j, a in enumerate(sc["acts"]):
        o, obj = opts[a["o"]], live[a["o"]]
        if a.get("copy"):
            obj = copy.deepcopy(obj)
        tag = f"act {j}"
        w.hooks.clear()
        w.spikes.clear()
        inject, exc, site = None, None, "none"
        if "plug" in a:
            f = a["plug"]
            exc = make_fault(f["kind"])
            n0 = w.calls[f["at"]]
            hit = []

            def hook(n, f=f, n0=n0, exc=exc, hit=hit):
                if n == n0 + f["n"]:
                    hit.append(1)
                    k.fault(f"{f['at']}:{f['kind']}")
                    raise exc
            w.hooks[f["at"]] = hook
            site = f["at"]
        elif "line" in a:
            exc = make_fault(a["line"]["kind"])
            inject = (exc, a["line"]["k"])
            site = "line"
        for s in a.get("spikes", ()):
            w.spikes[w.count + s["n"]] = (s["cell"], s["v"])
            site = "spike"
        p = mc.Pricing(tag)
        w.push(p)
        with warnings.catch_warnings(record=True) as caught, np.errstate(all="ignore"):
            warnings.simplefilter("always")
            sys.stdout = sink = Sink()
            try:
                st, v = k.run(getattr(obj, a["m"]), inject=inject, label=tag)
            finally:
                sys.stdout = real
        w.pop()
        w.hooks.clear()
        did = bool(k.fired) if inject else bool(exc is not None and hit)
        if did:
            fired += 1
            if st != "exc":
                raise Violation("fault-swallowed", f"{tag}: {exc!r} raised in a {site} did not reach the caller of {a['m']}(), which returned {type(v).__name__}")
            if v is not exc:
                raise Violation("fault-replaced", f"{tag}: {exc!r} raised in a {site} reached the caller of {a['m']}() as {v!r}")
            for h in p.handed[-1:]:
                mc.check_handed(p, h)
        else:
            if st != "ok":
                raise Violation("pricing-failed", f"{tag}: {a['m']}() raised {v!r} without a fault (after {last})")
            with np.errstate(all="ignore"):
                pay = [mc.ref_payoff(o, 1 if a["m"] == "call" else -1, d) for d in p.draws]
                means = [float(np.mean(x)) for x in pay]
            inf = [i for i, x in enumerate(means) if x == np.inf]
            if inf:
                fired += 1
                check_inf(o, a, p, v, inf, pay, caught, tag)
                k.fault("payoff:inf")
                site = "inf"
            else:
                mc.check_pricing(o, a["m"], p, v, tag)
                # what an earlier fault may not have changed either: tracing, as this option was built
                if o["trace"] and np.all(np.isfinite(v)):
                    check_trace(v, "".join(sink.text), f"{tag} (after {last})")
                elif not o["trace"] and sink.text:
                    raise Violation("untraced-output", f"{tag} (after {last}): trace=False wrote {''.join(sink.text)!r:.120}")
        if st == "ok":
            if isinstance(v, tuple):
                # without mirror or standardization the innovations are the source's own array, which it may reuse
                own = o["source"] in ("reuse", "stale") and not (o["anti"] or o["std"])
                kept.add(f"{tag} {a['m']}()", None if own else v[0], v[2])
            else:
                kept.add(f"{tag} {a['m']}()", v)
        kept.check(f"after {tag}")
        k.event(j, a["m"], site, did, st)
        k.state(site, type(exc).__name__, o["trace"], o["anti"], o["std"], last, a["m"])
        last = site
    k.sample = {"acts": sc["acts"], "options": [{x: o[x] for x in ("loops", "mc_paths", "path_length", "trace", "source")} for o in opts]}
    return fired > 0


def check_inf(o, a, p, v, inf, pay, caught, tag):
    i = inf[0]
    if not (isinstance(v, tuple) and len(v) == 3):
        raise Violation("inf-reported", f"{tag}: loop {i} averages to +inf but {a['m']}() returned {type(v).__name__}")
    if len(p.draws) != i + 1:
        raise Violation("inf-late", f"{tag}: loop {i} averages to +inf but {len(p.draws)} loops were drawn")
    eps, path, payoff = v
    with np.errstate(all="ignore"):
        e = ref.mc_effective(p.draws[i], o["anti"], o["std"])

    def eq(x, y):
        x = np.asarray(x, float)
        return x.shape == np.shape(y) and np.allclose(x, y, rtol=1e-8, atol=1e-12, equal_nan=True)
    if not eq(eps, e):
        raise Violation("inf-triple", f"{tag}: the first item is not the innovations of loop {i}")
    if not hasattr(path, "generate_path") or not eq(path.epsilon, e):
        raise Violation("inf-triple", f"{tag}: the second item is not the path object of loop {i}")
    if not eq(payoff, pay[i]):
        raise Violation("inf-triple", f"{tag}: the third item is not the payoffs of loop {i}")
    msgs = [str(c.message) for c in caught]
    if not any(str(i) in re.findall(r"\d+", m) for m in msgs):
        raise Violation("inf-warning", f"{tag}: no warning names loop {i}: {msgs}")
