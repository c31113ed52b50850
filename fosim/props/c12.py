"""C12: queries change nothing, even when they fail or are interrupted."""
import numpy as np

from .. import catalog as C, pool
from ..kernel import Violation, make_fault

RUNS = {"quick": 1300, "thorough": 30000}
LINES = True
PRISTINE = True
LISTS = ["steps"]
RULE = ("one run = one or two options and 2-8 queries, most interrupted by a cancellation or error at a generated fraction of their lines or run under floating-point traps; before and after each: "
        "parameters, arrays handed in, earlier results, numpy's random state, error handling and print options; every undisturbed or repeated query is compared with a fresh process; "
        "non-trivial when a query was interrupted or trapped")
STATE = "(class, query, disturbance, function interrupted) combinations"
REAL = ["every option class incl. HestonNandiOption", "scipy root finding and integration, numdifftools"]
STUB = ["fault injection at source lines, floating-point traps, non-default numpy settings"]
ASSUME = ["one fault per query", "faults at source-line granularity; clean-up lines (finally, except, with) are not interrupted"]
KINDS = ["KeyboardInterrupt", "SystemExit", "SimCancel", "MemoryError", "FloatingPointError", "TimeoutError", "ValueError", "GeneratorExit", "CancelledError"]


def gen(R, i, tier):
    opts = []
    vol = R.random() < .12
    for _ in range(1 if vol else R.choice([1, 1, 2])):
        key = R.choice(["GBS", "BLS", "B76", "MS"] if vol else pool.WEIGHT + ["HN"])
        p = C.BY[key].gen(R) if key == "HN" else pool.gen_params(R, key)
        if R.random() < .15:
            pool.lengthen(R, key, p)
        while vol and not any(isinstance(v, dict) for v in p.values()):
            p = pool.gen_params(R, key, none=False)
        arrs = [v["arr"] for v in p.values() if isinstance(v, dict) and len(v.get("arr", ())) > 1]
        if arrs and R.random() < .35:        # prices of very different sizes side by side
            a = R.choice(arrs)
            e = R.randrange(len(a))
            a[e] = C.rnd(a[e] * R.choice([.3, .5, .7, 1.5, 2.0, 3.0]))
        opts.append({"key": key, "params": p})
    steps = []
    for _ in range(R.randint(2, 6)):
        o = R.randrange(len(opts))
        key, p = opts[o]["key"], opts[o]["params"]
        s = {"o": o, "op": pool.pick_op(R, key, p, slow=.16)}
        if key != "HN" and R.random() < (.6 if any(isinstance(v, dict) and len(v["arr"]) > 6 for v in p.values()) else .05):
            s["op"] = {"op": R.choice(["summary", "str", "repr"])}
        x = R.random()
        if vol and R.random() < .8:
            s["op"] = dict(R.choice(C.VOL))
        if x < .6:
            s["inj"] = [R.choice(KINDS), R.choice([R.random(), R.random(), 1 - R.random() * .1])]
        elif x < .75:
            s["trap"] = True
        steps.append(s)
    env = {"err": {k: R.choice(["ignore", "warn"]) for k in ("divide", "over", "under", "invalid")}, "print": {"precision": R.choice([8, 8, 3, 5]), "threshold": R.choice([1000, 1000, 20]), "suppress": R.random() < .2, "linewidth": R.choice([75, 75, 120])}, "draws": R.randint(0, 3)}
    return {"seed": R.randrange(2 ** 31), "opts": opts, "steps": steps, "env": env}


def valid(sc):
    return bool(sc["steps"])


def simplify(sc):
    import copy
    for i, s in enumerate(sc["steps"]):
        for key in ("inj", "trap"):
            if key in s:
                c = copy.deepcopy(sc)
                del c["steps"][i][key]
                yield c


def world():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], tuple(sorted(np.geterr().items())), repr(sorted(np.get_printoptions().items(), key=str)), np.geterrcall())


def world_diff(a, b):
    names = ("random generator", "random generator", "random generator", "floating-point error handling", "print options", "error callback")
    return [n for n, x, y in zip(names, a, b) if x != y]


def arrays(params):
    return {n: (v, v.copy()) for n, v in params.items() if isinstance(v, np.ndarray)}


def run(sc, ctx):
    k = ctx.k
    np.seterr(**sc["env"]["err"])
    np.set_printoptions(**sc["env"]["print"])
    for _ in range(sc["env"]["draws"]):
        np.random.normal()
    live, given = [], []
    for o in sc["opts"]:
        p = C.dec_params(o["params"])
        given.append(arrays(p))
        live.append(C.BY[o["key"]].build(p))
    results = []
    bad = 0

    def intact(tag, before, o, key, params):
        d = world_diff(before, world())
        if d:
            raise Violation("world-changed", f"{tag} changed the process-wide {', '.join(sorted(set(d)))}", key=key)
        for oo, g in enumerate(given):
            for n, (a, c) in g.items():
                if not np.array_equal(a, c, equal_nan=True):
                    raise Violation("argument-modified", f"{tag} modified the array given as {n}", key=key)
        for r, c, t in results:
            if not C.same(C.canon(r), c, 0):
                raise Violation("earlier-result", f"{tag} changed the result of {t}", key=key)
        spec = C.BY[key]
        if spec.settable:
            got = dict(C.canon(live[o].get_params())["dict"])
            want = dict(C.canon(spec.reported(C.dec_params(params)))["dict"])
            if set(got) != set(want) or not all(C.same(got[x], want[x], 0) for x in want):
                raise Violation("option-changed", f"{tag} changed the option's parameters to {got}", key=key)

    for j, s in enumerate(sc["steps"]):
        o = s["o"]
        key, params = sc["opts"][o]["key"], sc["opts"][o]["params"]
        obj, op = live[o], s["op"]
        if op["op"] == "volatility":
            st0, price, _ = ctx.quote(key, params, {"op": "call" if op["call"] else "put"})
            if st0 != "ok" or isinstance(price, dict):
                continue
            op = pool.vol_op(op, price)
        wst, want, lines = ctx.quote(key, params, op)
        name = C.opname(op)
        tag = f"step {j}: {name} of a {key} option with {params}"
        arg = None
        qop = dict(op)
        if isinstance(qop.get("price"), dict):
            arg = C.dec(qop["price"])
            qop["price"] = arg
        argc = None if arg is None else arg.copy()
        exc = make_fault(s["inj"][0]) if "inj" in s else None
        before = world()
        with np.errstate(**({"all": "raise"} if s.get("trap") else {})):
            mid = world()
            st, v = k.run(lambda: C.query(obj, qop), inject=(exc, 1 + int(s["inj"][1] * lines)) if exc is not None else None, label=tag)
            d = world_diff(mid, world())
        fired = bool(k.fired)
        what = f"{tag}, interrupted in {k.fired[1]}" if fired else tag
        if d:
            raise Violation("world-changed", f"{what} changed the process-wide {', '.join(sorted(set(d)))}", key=key)
        intact(what, before, o, key, params)
        if arg is not None and not np.array_equal(arg, argc):
            raise Violation("argument-modified", f"{what} modified the price array it was given", key=key)
        if s.get("trap"):
            k.fault("floating-point-trap", int(st == "exc"))
        k.event(j, key, name, st, k.fired[1] if fired else "-")
        k.state(key, name, type(exc).__name__ if fired else bool(s.get("trap")), k.fired[1] if fired else "-")
        disturbed = bool(fired or (s.get("trap") and st == "exc"))
        bad += disturbed
        if disturbed:
            st, v = k.run(lambda: C.query(obj, qop), label=tag)
            intact(tag + " (repeated)", before, o, key, params)
            what += ", repeated"
        if st != wst:
            raise Violation("answer", f"{what} {'raised ' + repr(v) if st == 'exc' else 'gave ' + C.short(C.canon(v))}; undisturbed it {'raises' if wst == 'exc' else 'gives ' + C.short(want)}", key=key, op=name)
        if st == "ok":
            ans = C.canon(v)
            text = op["op"] in ("summary", "str", "repr") and sc["env"]["print"] != dict(precision=8, threshold=1000, suppress=False, linewidth=75) and given[o]
            if not text and not (op["op"] in ("summary", "str", "repr") and s.get("trap")) and not pool.same_answer(ans, want):
                raise Violation("answer", f"{what} is {C.short(ans)}; undisturbed it is {C.short(want)}", key=key, op=name)
            results.append((v, ans, tag))
            if len(results) > 4:
                results.pop(0)
    k.sample = {"opts": sc["opts"], "steps": sc["steps"][:5]}
    return bad > 0
