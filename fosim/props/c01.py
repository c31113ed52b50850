"""C01: every Monte Carlo loop is priced from exactly its own draw."""
import copy

from .. import mc
from ..kernel import Violation

RUNS = {"quick": 4000, "thorough": 40000}
LINES = True
LISTS = ["steps", "options"]
RULE = ("one run = 1-3 Monte Carlo options with generated contracts, sizes, flags, plug-in stacks and buffer behaviours, priced in a generated order "
        "(also through copies and from inside another pricing's plug-in); non-trivial when at least two loops were priced")
STATE = "(source, path, payoff, antithetic, standardization, size class, position in the history) tuples reached"
REAL = ["finoptions.monte_carlo_options (MonteCarloOption, WienerPath, payoffs)"]
STUB = ["innovation sources (recording, buffer-reusing, read-only, strided, scribbling)", "custom path and payoff plug-ins"]
ASSUME = ["sources return two-dimensional arrays of path_length columns", "payoff averages compared to 1e-8 relative"]


def gen(R, i, tier):
    n = R.choice([1, 1, 2, 2, 3])
    opts = [mc.gen_option(R, tier) for _ in range(n)]
    for o in opts:
        if R.random() < .05:
            o.update(odd=mc.gen_odd(R, ["nan", "-inf"]), payoff=o["payoff"].replace("builtin-", ""))
        if R.random() < .05 and "spread" not in o and (not o["std"] or o["anti"] or o["mc_paths"] * o["path_length"] > 30):
            o["source"] = "int"
    steps = []
    for _ in range(R.randint(1, 5)):
        s = {"o": R.randrange(n), "m": R.choice(["call", "put"])}
        x = R.random()
        if x < .12:
            s["copy"] = True
        elif x > .9:
            s["scribble"] = R.randrange(1000)
        elif x < .3:
            s["nested"] = {"o": R.randrange(n), "m": R.choice(["call", "put"]), "at": R.choice(["draw", "path", "payoff"]), "n": R.randint(1, 4)}
        steps.append(s)
    return {"seed": R.randrange(2 ** 31), "options": opts, "steps": steps}


def valid(sc):
    return bool(sc["steps"]) and all(s["o"] < len(sc["options"]) and s.get("nested", {"o": 0})["o"] < len(sc["options"]) for s in sc["steps"])


def simplify(sc):
    for i, o in enumerate(sc["options"]):
        for key in ("rows", "spread", "odd"):
            if key in o:
                c = copy.deepcopy(sc)
                del c["options"][i][key]
                yield c
        for key, val in (("loops", 1), ("loops", 2), ("loops", 3), ("mc_paths", 1), ("mc_paths", 2), ("path_length", 1), ("path_length", 2), ("anti", False), ("std", False),
                         ("source", "fresh"), ("path", "wiener"), ("payoff", "vanilla"), ("b", 0.0)):
            if o[key] != val and not (isinstance(val, int) and not isinstance(val, bool) and o[key] < val):
                c = copy.deepcopy(sc)
                c["options"][i][key] = val
                if c["options"][i]["std"] and c["options"][i]["mc_paths"] * c["options"][i]["path_length"] == 1:
                    continue
                yield c
    for i, s in enumerate(sc["steps"]):
        for k in ("nested", "copy", "scribble"):
            if k in s:
                c = copy.deepcopy(sc)
                del c["steps"][i][k]
                yield c


def run(sc, ctx):
    k = ctx.k
    w = mc.World(k, sc["seed"])
    opts = sc["options"]
    live = [mc.build(o, w) for o in opts]
    loops = 0
    kept = mc.Kept()
    for j, s in enumerate(sc["steps"]):
        o = opts[s["o"]]
        obj = live[s["o"]]
        if s.get("copy"):
            obj = copy.deepcopy(obj)
        nested = s.get("nested")
        out = {}
        if nested and (nested["o"] != s["o"] or o["source"] not in ("reuse", "stale")):
            n0 = w.calls[nested["at"]]

            def hook(n, nested=nested, n0=n0):
                if n == n0 + nested["n"] and "r" not in out:
                    w.hooks.clear()
                    q = mc.Pricing(f"step {j} nested")
                    w.push(q)
                    out["r"] = getattr(live[nested["o"]], nested["m"])()
                    w.pop()
                    out["q"] = q
            w.hooks[nested["at"]] = hook
        p = mc.Pricing(f"step {j}")
        w.push(p)
        st, v = k.run(getattr(obj, s["m"]), label=f"step {j}")
        w.pop()
        w.hooks.clear()
        if st != "ok":
            raise Violation("pricing-failed", f"step {j}: {s['m']}() raised {v!r}")
        mc.check_pricing(o, s["m"], p, v, f"step {j}")
        if "r" in out:
            k.probe("nested-pricing")
            mc.check_pricing(opts[nested["o"]], nested["m"], out["q"], out["r"], f"step {j} nested")
            kept.add(f"step {j} nested {nested['m']}()", out["r"])
        kept.add(f"step {j} {s['m']}()", v)
        kept.check(f"after step {j}")
        if "scribble" in s:
            kept.scribble(s["scribble"])
            k.fault("caller-overwrites-result")
        loops += o["loops"]
        k.event(j, s["m"], o["loops"], float(v.sum()).hex())
        k.state(o["source"], o["path"], o["payoff"], o["anti"], o["std"], min(o["loops"], 4), min(o["mc_paths"], 4), min(o["path_length"], 4), min(j, 2))
    k.sample = {"steps": sc["steps"], "options": [{a: o[a] for a in ("loops", "mc_paths", "path_length", "anti", "std", "source", "path", "payoff")} for o in opts]}
    return loops >= 2
