"""C10: an option's quotes depend only on its current parameters, not its history."""
import math

import numpy as np

from .. import catalog as C, pool
from ..catalog import rnd
from ..kernel import Violation

RUNS = {"quick": 1200, "thorough": 40000}
LINES = False
PRISTINE = True
UNIT = "operations on the pool"
LISTS = ["steps", "opts"]
RULE = ("one run = a pool of 1-3 initial options (often siblings differing in one parameter) and 4-22 operations: queries, accepted and refused parameter changes, copies, deep copies, pickling, "
        "new siblings, results scribbled over; every quote is compared with the same query on a new option in a fresh process and with a reference model; "
        "non-trivial when a quote followed a change, a copy or a scribble")
STATE = "(class, operation, previous operation on that option, generation) combinations"
REAL = ["every option class with set_param, and HestonNandiOption (queries, deep copies, pickling)"]
STUB = []
ASSUME = ["one operation at a time (threads are C13)", "quotes equal to 1e-9 relative with the fresh process; reference models to the accuracy of the class's published approximation",
          "a query that raises is matched by a fresh process that raises"]


def gen_sweep(R):
    """one option and its neighbours, quoted in turn: what is remembered for one must not answer for another"""
    key = R.choice(sorted(set(pool.WEIGHT)) + ["HN", "BAW", "BS93", "MS"])
    p = C.BY[key].gen(R) if key == "HN" else pool.gen_params(R, key, arrays=False, none=False)
    plain = [o for o in C.BY[key].ops if o["op"] not in ("repr", "get_params")]
    op = dict(R.choice([{"op": "call"}, {"op": "call" if C.BY[key].putless else "put"}, R.choice(plain)]))
    if op.get("op") == "greeks" or op.get("method"):
        op = {"op": "call"}
    steps = [{"do": "query", "o": 0, "op": op}]
    n = 0
    for key2, q in pool.sweep(R, key, p):
        op2 = op if any(x == op for x in C.BY[key2].ops) else {"op": "call"}
        if key2 == key and key != "HN" and R.random() < .35:
            name = next(x for x in q if q[x] != p[x])
            steps += [{"do": "set", "o": 0, "n": name, "v": q[name]}, {"do": "query", "o": 0, "op": op}, {"do": "set", "o": 0, "n": name, "v": p[name]}]
        else:
            n += 1
            steps += [{"do": "new", "key": key2, "params": q}, {"do": "query", "o": n, "op": op2}]
        if R.random() < .3:
            steps.append({"do": "query", "o": 0, "op": op})
    return {"seed": R.randrange(2 ** 31), "opts": [{"key": key, "params": p}], "steps": steps}


TREES = ("CRR", "JR", "TIAN", "TRI")
LATTICE = {"CRR": 60, "JR": 60, "TIAN": 60, "TRI": 35, "ALL": 10, "MAX": 10, "MIN": 10, "SPR": 10}


def deep(R, key):
    """trees of many steps"""
    p = pool.gen_params(R, key, arrays=False, none=False)
    p["n"] = R.randint(41, 200)
    if R.random() < .5:
        p["t"], p["r"], p["K"] = rnd(R.uniform(.5, 3)), rnd(R.uniform(.03, .15)), rnd(p["S"] * math.exp(R.uniform(-.5, .5)))
        p["b"] = R.choice([p["r"], p["b"], 0.0])
    steps = [{"do": "query", "o": 0, "op": {"op": R.choice(["call", "put"]), **R.choice([{}, {"tree": True}])}, "model": True} for _ in range(2)]
    return {"seed": R.randrange(2 ** 31), "opts": [{"key": key, "params": p}], "steps": steps}


def gen_model(R):
    """one option, moved about its domain, its quotes compared with the documented model"""
    key = R.choice(sorted(set(pool.WEIGHT)))
    if key in TREES and R.random() < .15:
        return deep(R, key)
    spec = C.BY[key]
    p = pool.gen_params(R, key, arrays=R.random() < .3)
    if R.random() < .6:
        pool.widen(R, key, p)
        if R.random() < .25:
            pool.relate(R, key, p)
            if pool.slow_search(key, p):
                p = pool.gen_params(R, key)
    opts = [{"key": key, "params": dict(p)}]
    steps = []
    ops = [o for o in spec.ops + spec.slow * 2 if o["op"] not in ("summary", "str", "get_params")]
    for _ in range(R.randint(6, 25) if key in C.ANALYTIC else R.randint(2, 5)):
        for _ in range(R.choice([0, 1, 1, 2])):
            n, v = pool.change(R, key, p)
            p[n] = v
            steps.append({"do": "set", "o": 0, "n": n, "v": v})
        op = dict(R.choice(ops))
        if key in LATTICE and p["n"] > LATTICE[key] and op["op"] not in ("call", "put"):
            op = {"op": R.choice(["call", "put"])}      # differences on a deep tree take tens of seconds
        steps.append({"do": "query", "o": 0, "op": op, "model": True})
        if R.random() < .4:
            steps.append({"do": "query", "o": 0, "op": {"op": "call" if spec.putless or R.random() < .5 else "put"}, "model": True})
    return {"seed": R.randrange(2 ** 31), "opts": opts, "steps": steps}


def gen(R, i, tier):
    x = R.random()
    if x < .4:
        return gen_model(R)
    if x < .56:
        return gen_sweep(R)
    opts = []
    k0 = R.choice(pool.WEIGHT)
    for _ in range(R.choice([1, 2, 2, 3])):
        key = k0 if R.random() < .65 else R.choice(pool.WEIGHT + ["HN"])
        prev = [o for o in opts if o["key"] == key]
        if prev and key != "HN" and R.random() < .6:
            opts.append({"key": key, "params": pool.sibling(R, key, R.choice(prev)["params"])})
        else:
            opts.append({"key": key, "params": C.BY[key].gen(R) if key == "HN" else pool.gen_params(R, key)})
    # generation keeps its own model of what is in the pool
    model = [(o["key"], dict(o["params"])) for o in opts]
    steps = []
    hot = None
    for _ in range(R.randint(4, 22)):
        o = R.randrange(len(model)) if hot is None or R.random() < .3 else hot
        key, p = model[o]
        x = R.random()
        spec = C.BY[key]
        if not spec.settable:
            x = .5 + x / 2
            hot = None
        arrs = [n for n in p if isinstance(p[n], dict) and "arr" in p[n]]
        if x < .3 and arrs and R.random() < .3:
            n = R.choice(arrs)
            p[n] = {"arr": [rnd(v * R.uniform(.8, 1.25)) for v in p[n]["arr"]], **({"shape": p[n]["shape"]} if "shape" in p[n] else {})}
            steps.append({"do": "set", "o": o, "n": n, "v": p[n], "same": True})
            hot = o
        elif x < .3:
            n, v = pool.change(R, key, p)
            p[n] = v
            steps.append({"do": "set", "o": o, "n": n, "v": v})
            hot = o
        elif x < .36:
            n, v = pool.hostile(R, key, p)
            steps.append({"do": "set", "o": o, "n": n, "v": v})
            hot = o
        elif x < .48 and len(model) < 7:
            how = R.choice(["copy", "copy", "deepcopy", "shallow", "pickle", "pickle2", "sibling", "twin"])
            if how in ("sibling", "twin"):
                q = pool.sibling(R, key, p) if how == "sibling" else dict(p)
                steps.append({"do": "new", "key": key, "params": q})
                model.append((key, q))
            else:
                steps.append({"do": "clone", "o": o, "how": how})
                model.append((key, dict(p)))
            hot = None
        elif x < .58 and len(model) < 7 and key == "HN":
            steps.append({"do": "clone", "o": o, "how": R.choice(["deepcopy", "pickle"])})
            model.append((key, dict(p)))
        else:
            op = pool.pick_op(R, key, p, slow=.05)
            s = {"do": "query", "o": o, "op": op}
            if R.random() < .25:
                s["scribble"] = R.choice(["fill", "clear"])
            steps.append(s)
    return {"seed": R.randrange(2 ** 31), "opts": opts, "steps": steps}


def valid(sc):
    n = len(sc["opts"])
    if not n:
        return False
    for s in sc["steps"]:
        if s["do"] in ("clone", "new"):
            n += 1
        if s.get("o", 0) >= n:
            return False
    return True


def run(sc, ctx):
    k = ctx.k
    live, model, last = [], [], []
    own = []                # the arrays the caller still holds, for options that share them with nobody

    def add(key, params, how):
        spec = C.BY[key]
        try:
            d = C.dec_params(params)
            own.append({n: a for n, a in d.items() if isinstance(a, np.ndarray)})
            live.append(spec.build(d))
        except Exception as e:      # noqa: BLE001  refused by the constructor: not part of the pool
            live.append(None)
            k.event(how, key, "refused", type(e).__name__)
        model.append([key, dict(params)])
        last.append(how)
    for o in sc["opts"]:
        add(o["key"], o["params"], "built")
    good = 0
    with np.errstate(all="ignore"):
        for j, s in enumerate(sc["steps"]):
            k.clock += 1
            if s["do"] == "new":
                add(s["key"], s["params"], "new")
                good += 1
                continue
            o = s["o"]
            if s["do"] == "clone":
                if live[o] is None:
                    live.append(None)
                else:
                    st, v = k.run(lambda: C.clone(live[o], s["how"]), label=f"step {j}")
                    if st != "ok":
                        raise Violation("copy-failed", f"step {j}: {s['how']} of a {model[o][0]} option raised {v!r}")
                    if v is live[o] or type(v) is not type(live[o]):
                        raise Violation("copy-wrong", f"step {j}: {s['how']} gave {type(v).__name__}, {'the same object' if v is live[o] else 'another class'}")
                    live.append(v)
                model.append([model[o][0], dict(model[o][1])])
                own.append({})
                if s["how"] in ("copy", "shallow"):
                    own[o] = {}
                last.append(s["how"])
                continue
            if live[o] is None:
                continue
            key, p = model[o]
            spec = C.BY[key]
            if s["do"] == "set":
                good += set_(s, j, k, spec, live[o], p, last, o, ctx, own[o])
                continue
            q_step(s, j, k, ctx, spec, key, p, live[o], last, o)
            good += last[o] not in ("built",)
            last[o] = C.opname(s["op"]) if not s.get("scribble") else "scribbled"
            k.state(key, C.opname(s["op"]), last[o], o < len(sc["opts"]))
        # at the end everything in the pool still reports its own parameters
        for o, obj in enumerate(live):
            if obj is not None and C.BY[model[o][0]].settable:
                report(obj, model[o], f"end of run, option {o}")
    k.sample = {"opts": sc["opts"][:2], "steps": sc["steps"][:8]}
    return good > 0


def report(obj, m, tag):
    spec = C.BY[m[0]]
    want = C.canon(spec.reported(C.dec_params(m[1])))
    got = C.canon(obj.get_params())
    a, b = dict(got["dict"]), dict(want["dict"])
    if set(a) != set(b) or not all(C.same(a[x], b[x]) for x in b):
        diff = {x: (a.get(x), b.get(x)) for x in set(a) | set(b) if x not in a or x not in b or not C.same(a[x], b[x])}
        raise Violation("reports-others", f"{tag}: get_params() of a {m[0]} option differs from its current parameters: {diff}")


def set_(s, j, k, spec, obj, p, last, o, ctx, own):
    n, v = s["n"], s["v"]
    val = C.dec(v)
    if s.get("same") and isinstance(own.get(n), np.ndarray) and own[n].shape == np.shape(val) and own[n].flags.writeable and own[n].dtype == val.dtype:
        own[n][...] = val                # the caller updates its own array and hands it in again
        val = own[n]
        k.fault("array-reused")
    st, e = k.run(lambda: obj.set_param(n, val), label=f"step {j}")
    if st == "ok" and n in p:
        own[n] = val
    real = spec.alias.get(n, n)
    k.event(j, "set", spec.key, n, st)
    k.state(spec.key, "set", n if real in p else "unknown", last[o], st)
    fixed = spec.key == "B76" and n == "b"
    if st == "ok":
        if fixed:
            if np.any(np.asarray(C.dec(v)) != 0):
                raise Violation("unknown-accepted", f"step {j}: {spec.cname} accepted a cost of carry")
        elif real not in p:
            raise Violation("unknown-accepted", f"step {j}: {spec.cname}.set_param accepted the unknown parameter {n!r}")
        else:
            p[real] = v
        last[o] = "set"
    else:
        # a refusal is fine exactly when building such an option is refused, too
        if real in p and not fixed:
            try:
                spec.build(C.dec_params({**p, real: v}))
                ok = True
            except Exception:    # noqa: BLE001
                ok = False
            if ok:
                raise Violation("valid-refused", f"step {j}: {spec.cname}.set_param({n!r}, {v!r}) raised {e!r} although such an option can be built")
        last[o] = "refused"
    report(obj, [spec.key, p], f"step {j}")
    return 0


def finite(got):
    if isinstance(got, str) or isinstance(got, dict) and "dict" not in got:
        return True
    try:
        vals = [x for _, x in got["dict"]] if isinstance(got, dict) else [got]
        return all(finite(x) if isinstance(x, dict) else bool(np.all(np.isfinite(np.asarray(x, float)))) for x in vals)
    except (TypeError, ValueError):
        return True


def unquoted(st, v, j, spec, key, p, op, after):
    """no number where the documented model has one"""
    name = op["op"]
    if name in ("volatility", "repr", "is_call_optimal") or isinstance(v, BaseException) and not isinstance(v, Exception):
        return
    if key == "RGW" and st != "ok" and "HighS" in str(v) or name in ("rho", "greeks") and op.get("method") == "fdm":
        return
    r = C.check_ref(spec, p, op, 1e300)
    if r is None or r[0] or not finite(C.canon(r[1])):
        return
    raise Violation("no-quote", f"step {j}: {C.opname(op)} of a {key} option with {p} (after {after}) {'raised ' + repr(v) if st != 'ok' else 'is ' + C.short(C.canon(v))}, the documented model gives {C.short(r[1])}", key=key, op=C.opname(op))


def modelled(s, j, k, spec, key, p, obj, after):
    """compare with the reference model alone; False when it has no opinion"""
    op = s["op"]
    if op["op"] == "volatility":
        r = C.check_ref(spec, p, {"op": "call" if op["call"] else "put"}, 0.0)
        if r is None:
            return False
        op = pool.vol_op(op, r[1])
    st, v = k.run(lambda: C.query(obj, op), label=f"step {j}")
    if st != "ok" or op["op"] != "greeks" and not finite(C.canon(v)):
        unquoted(st, v, j, spec, key, p, op, after)
        return False
    got = C.canon(v)
    r = C.check_ref(spec, p, op, got)
    if r is None:
        return False
    k.probe("reference-checked")
    k.event(j, key, C.opname(op), st, C.short(got, 40))
    if not r[0]:
        raise Violation("differs-from-model", f"step {j}: {C.opname(op)} of a {key} option with {p} (after {after}) is {C.short(got)}, the documented model gives {C.short(r[1])}", key=key, op=C.opname(op))
    return True


def q_step(s, j, k, ctx, spec, key, p, obj, last, o):
    op = s["op"]
    if s.get("model") and modelled(s, j, k, spec, key, p, obj, last[o]):
        return
    if op["op"] == "volatility":
        st0, price, _ = ctx.quote(key, p, {"op": "call" if op["call"] else "put"})
        if st0 != "ok" or isinstance(price, dict):
            return
        op = pool.vol_op(op, price)
    st, v = k.run(lambda: C.query(obj, op), label=f"step {j}")
    got = C.canon(v) if st == "ok" else None
    wst, want, _ = ctx.quote(key, p, op)
    tag = f"step {j}: {C.opname(op)} of a {key} option with {p} (after {last[o]})"
    k.event(j, key, C.opname(op), st, C.short(got, 40))
    if st != wst:
        raise Violation("outcome", f"{tag} {'raised ' + repr(v) if st == 'exc' else 'succeeded'}, a new option {'succeeds' if wst == 'ok' else 'raises ' + str(want)}", key=key, op=C.opname(op))
    if st == "ok":
        if not pool.same_answer(got, want):
            raise Violation("differs-from-new", f"{tag} is {C.short(got)}, a new option gives {C.short(want)}", key=key, op=C.opname(op))
        r = C.check_ref(spec, p, op, got)
        if r is not None:
            k.probe("reference-checked")
            if not r[0]:
                raise Violation("differs-from-model", f"{tag} is {C.short(got)}, the documented model gives {C.short(r[1])}", key=key, op=C.opname(op))
    elif isinstance(v, BaseException) and not isinstance(v, Exception):
        raise Violation("outcome", f"{tag} raised {v!r}")
    if s.get("scribble") and st == "ok" and pool.scribble(v, s["scribble"]):
        k.fault("result-scribbled")
