"""C14: a cancellation is never swallowed."""
import math
import sys

import numpy as np

from .. import catalog as C, env, garch as G, mc, pool, ref
from ..kernel import CANCELS, Violation, make_fault
from .c02 import Sink

RUNS = {"quick": 1400, "thorough": 40000}
LINES = True
LISTS = ["acts", "acts.*.inj"]
RULE = ("one run = 1-4 public operations drawn over all classes and functions; each is executed once undisturbed to count its lines, then 1-4 times with a cancellation or ordinary error raised out of a "
        "generated line (also inside callbacks run by scipy and numdifftools); the very same exception object must reach the caller; non-trivial when an injection fired")
STATE = "(operation, exception, function interrupted) combinations"
REAL = ["all option classes, MonteCarloOption, HestonNandiOption, hngarch_sim, hngarch_fit, tree plots"]
STUB = ["fault injection at source lines", "innovation sources", "sys.stdout"]
ASSUME = ["one fault per operation", "faults at source-line granularity; clean-up lines (finally, except, with) are not interrupted"]
ORD = ["MemoryError", "SimFault", "FloatingPointError", "ValueError", "TimeoutError", "OSError", "OverflowError", "RuntimeError", "ZeroDivisionError"]


def gen(R, i, tier):
    acts = []
    for _ in range(R.randint(1, 4)):
        x = R.random()
        if x < .62:
            key = R.choice(pool.WEIGHT)
            a = {"t": "option", "key": key, "params": pool.gen_params(R, key, none=R.random() < .3)}
            y = R.random()
            if y < .5:
                a["op"] = pool.pick_op(R, key, a["params"], slow=.3)
            elif y < .62:
                a["op"] = {"op": R.choice(["summary", "print", "str"])}
            elif y < .74:
                a["op"] = {"op": "set"}
                a["op"]["n"], a["op"]["v"] = pool.change(R, key, a["params"])
            elif y < .8:
                a["op"] = {"op": "build"}
            elif y < .86:
                a["op"] = {"op": "clone", "how": R.choice(["copy", "deepcopy", "pickle"])}
            elif C.BY[key].plot:
                a["op"] = {"op": "plot", "m": R.choice(["call", "put"])}
            else:
                a["op"] = pool.pick_op(R, key, a["params"], slow=1.0)
        elif x < .7:
            key = R.choice(C.TREEKEYS)
            a = {"t": "option", "key": key, "params": C.BY[key].gen(R), "op": {"op": "plot", "m": R.choice(["call", "put"])}}
            a["params"]["n"] = min(a["params"]["n"], 6)
        elif x < .82:
            o = mc.gen_option(R, tier, big=False)
            o.update(loops=R.randint(1, 5), mc_paths=R.randint(2, 16), path_length=R.randint(1, 6), trace=R.random() < .4, source=R.choice(["fresh", "sobol"]), path="builtin", payoff=R.choice(["builtin-vanilla", "builtin-asian"]))
            a = {"t": "mc", "o": o, "m": R.choice(["call", "put"])}
        elif x < .87:
            a = {"t": "sim", "p": G.gen_params(R), "n": R.randint(1, 30), "ns": R.choice([0, R.randint(1, 20)])}
        elif x < .93:
            a = {"t": "fit", "p": G.gen_params(R), "n": R.randint(2, 25), "maxiter": R.choice([0, 1, 2]), "trace": R.random() < .4, "symmetric": R.random() < .5}
        else:
            a = {"t": "hn", "params": C.g_hn(R), "q": R.choice(["call", "put", "delta", "gamma"])}
        a["inj"] = [[R.choice(CANCELS) if R.random() < .7 else R.choice(ORD), R.choice([R.random(), R.random() ** 3, 1 - R.random() ** 3])] for _ in range(R.choice([1, 2, 3, 4]))]
        acts.append(a)
    return {"seed": R.randrange(2 ** 31), "acts": acts}


def valid(sc):
    return bool(sc["acts"])


def make(a, sc, k, j):
    """(name, callable) for one act; the callable may be called repeatedly"""
    if a["t"] == "option":
        spec = C.BY[a["key"]]
        p = C.dec_params(a["params"])
        op = a["op"]
        n = op["op"]
        if n == "build":
            return f"{a['key']} construction", lambda: spec.build(p)
        opt = spec.build(p)
        if n == "set":
            return f"{a['key']} set_param", lambda: opt.set_param(op["n"], C.dec(op["v"]))
        if n == "clone":
            return f"{a['key']} {op['how']}", lambda: C.clone(opt, op["how"])
        if n == "print":
            return f"{a['key']} summary (printed)", lambda: opt.summary()
        if n == "plot":
            import matplotlib.pyplot as plt

            def plot():
                try:
                    return _plot(opt, op["m"])
                finally:
                    plt.close("all")
            return f"{a['key']} plot", plot
        if n == "volatility":
            try:
                price = C.query(opt, {"op": "call" if op["call"] else "put"})
            except Exception:      # noqa: BLE001
                price = 1.0
            if isinstance(price, dict):
                price = price["OptionPrice"]
            op = pool.vol_op(op, price)
        return f"{a['key']} {C.opname(op)}", lambda: C.query(opt, op)
    if a["t"] == "mc":
        w = mc.World(k, sc["seed"])
        opt = mc.build(a["o"], w)
        return "Monte Carlo " + a["m"], lambda: getattr(opt, a["m"])()
    hn = env.fo.heston_nandi_options
    if a["t"] == "sim":
        return "hngarch_sim", lambda: hn.hngarch_sim(n=a["n"], n_start=a["ns"], **a["p"])
    if a["t"] == "fit":
        p = a["p"]
        x, _ = ref.hn_sim(np.random.default_rng([sc["seed"], j]).normal(size=a["n"]), p["lamb"], p["omega"], p["alpha"], p["beta"], p["gamma"], p["rf"])
        s = {q: p[q] for q in ("lamb", "omega", "alpha", "gamma")}
        s["beta"] = max(p["beta"], 1e-3)
        return "hngarch_fit", lambda: hn.hngarch_fit(x, rf=p["rf"], symmetric=a["symmetric"], trace=a["trace"], options=dict(maxiter=a["maxiter"]), **s)
    opt = hn.HestonNandiOption(**a["params"])
    return "Heston-Nandi " + a["q"], lambda: getattr(opt, a["q"])()


def _plot(opt, m):
    return opt.plot(call=m == "call")


def run(sc, ctx):
    k = ctx.k
    real = sys.stdout
    fired = 0
    for j, a in enumerate(sc["acts"]):
        try:
            name, fn = make(a, sc, k, j)
        except Exception as e:        # noqa: BLE001  an option that cannot be built
            k.event(j, "unbuildable", type(e).__name__)
            continue
        for q, inj in enumerate([None] + a["inj"]):
            exc = make_fault(inj[0]) if inj else None
            rng = np.random.get_state()
            sys.stdout = Sink()
            try:
                with np.errstate(all="ignore"):
                    st, v = k.run(fn, inject=(exc, 1 + int(inj[1] * lines)) if inj else None, label=f"act {j}: {name}")
            finally:
                sys.stdout = real
            np.random.set_state(rng)
            if inj is None:
                lines = max(1, k.op_lines)
                base = st
                k.event(j, name, st, lines)
                continue
            if not k.fired:
                continue
            fired += 1
            k.event(j, name, inj[0], k.fired[1], st)
            k.state(name, inj[0], k.fired[1])
            where = f"act {j}: {inj[0]} raised in {k.fired[1]} during {name}"
            text = a["t"] == "option" and a["op"]["op"] in ("summary", "print", "str")
            if text and inj[0] not in CANCELS and st == "ok":
                continue
            if st == "ok":
                raise Violation("swallowed", f"{where} was swallowed; the operation returned {C.short(v)}", op=name)
            if v is not exc:
                raise Violation("replaced", f"{where} reached the caller as {v!r}", op=name)
    k.sample = {"acts": sc["acts"][:2]}
    return fired > 0
