"""C11: a parameter change happens completely or not at all."""
import numpy as np

from .. import catalog as C, pool
from ..kernel import Violation, make_fault

RUNS = {"quick": 1500, "thorough": 40000}
LINES = True
PRISTINE = True
LISTS = ["steps", "steps.*.ask"]
RULE = ("one run = one or two options and 2-7 parameter changes, most disturbed: a cancellation or error out of the k-th library line, an impossible value, or floating-point traps; after each the "
        "option must report exactly the old or the new parameters, and 1-4 quotes must be those of a new option with the reported parameters in a fresh process; "
        "non-trivial when a change failed or was interrupted")
STATE = "(class, parameter, disturbance, line region, old or new) combinations"
REAL = ["every option class with set_param"]
STUB = ["fault injection at source lines, floating-point traps"]
ASSUME = ["one fault per change", "faults at source-line granularity; clean-up lines (finally, except, with) are not interrupted"]
KINDS = ["KeyboardInterrupt", "SystemExit", "SimCancel", "MemoryError", "FloatingPointError", "TimeoutError", "ValueError", "GeneratorExit", "CancelledError"]
ZERO_OK = {"GBS": ("t", "sigma", "S", "K"), "BLS": ("t", "sigma", "S", "K"), "B76": ("t", "sigma", "FT", "K"), "MS": ("KappaE", "KappaF", "FT", "K"), "ALL": ("n", "t", "sigma1"), "MAX": ("n", "t"), "MIN": ("n", "sigma2"),
           "SPR": ("n", "t"), "SPA": ("t", "K", "sigma2", "S2"), "CRR": ("n",), "JR": ("n",), "TIAN": ("n",), "TRI": ("n",)}


def asks(R, key, p):
    out = [{"op": "call"}] if R.random() < .8 else []
    for _ in range(R.choice([0, 1, 1, 2])):
        out.append(pool.pick_op(R, key, p, slow=.02, vol=False))
    return out


def where(R):
    """how far into the change the fault strikes, in thousandths of its lines"""
    return R.choice([R.randint(0, 999), R.randint(0, 999), R.randint(0, 120), R.randint(850, 999)])


def gen(R, i, tier):
    opts = []
    for _ in range(R.choice([1, 1, 1, 2])):
        key = R.choice(pool.WEIGHT + ["MS"] * 3)
        opts.append({"key": key, "params": pool.gen_params(R, key, none=False)})
    model = [dict(o["params"]) for o in opts]
    steps = []
    for _ in range(R.randint(2, 6)):
        o = R.randrange(len(opts))
        key, p = opts[o]["key"], model[o]
        x = R.random()
        s = {"o": o}
        if x < .62:
            s["n"], s["v"] = pool.change(R, key, p)
            s["inj"] = [R.choice(KINDS), where(R)]
        elif x < .76:
            s["n"], s["v"] = pool.hostile(R, key, p)
            if R.random() < .3:
                s["inj"] = [R.choice(KINDS), where(R)]
        elif x < .88 and key in ZERO_OK:
            s["n"], s["v"] = R.choice(ZERO_OK[key]), R.choice([0, 0.0, 0.0, {"np": 0.0}, {"np": -1.0}])
            s["trap"] = R.random() < .7
        else:
            s["n"], s["v"] = pool.change(R, key, p)
            p[s["n"]] = s["v"]
        s["ask"] = asks(R, key, p)
        if R.random() < .12:
            s["via"] = R.choice(["copy", "pickle"])
        steps.append(s)
    return {"seed": R.randrange(2 ** 31), "opts": opts, "steps": steps}


def valid(sc):
    return bool(sc["steps"])


def simplify(sc):
    import copy
    for i, s in enumerate(sc["steps"]):
        for key in ("inj", "via", "trap"):
            if key in s:
                c = copy.deepcopy(sc)
                del c["steps"][i][key]
                yield c
        if "inj" in s and s["inj"][1] > 0:
            for n in (s["inj"][1] // 2, s["inj"][1] - 20, s["inj"][1] - 1):
                if n < 0:
                    continue
                c = copy.deepcopy(sc)
                c["steps"][i]["inj"][1] = n
                yield c


def params_of(obj, spec, tag):
    try:
        return dict(C.canon(obj.get_params())["dict"])
    except Exception as e:      # noqa: BLE001
        raise Violation("unusable", f"{tag}: get_params() of a {spec.key} option raised {e!r}") from None


def is_set(got, spec, p):
    want = dict(C.canon(spec.reported(C.dec_params(p)))["dict"])
    return set(got) == set(want) and all(C.same(got[x], want[x]) for x in want)


def run(sc, ctx):
    k = ctx.k
    live, model = [], []
    for o in sc["opts"]:
        live.append(C.BY[o["key"]].build(C.dec_params(o["params"])))
        model.append(dict(o["params"]))
    bad = 0
    with np.errstate(all="ignore"):
        for j, s in enumerate(sc["steps"]):
            o = s["o"]
            key = sc["opts"][o]["key"]
            spec = C.BY[key]
            if s.get("via"):
                live[o] = C.clone(live[o], s["via"])
            obj, old = live[o], model[o]
            n, v = s["n"], s["v"]
            real = spec.alias.get(n, n)
            new = {**old, real: v} if real in old else None
            exc = make_fault(s["inj"][0]) if "inj" in s else None
            tag = f"step {j}: set_param({n!r}, {v!r}) on a {key} option with {old}"
            val = C.dec(v)
            at = None
            if exc is not None:
                # a rehearsal on an option of its own tells how many lines the change takes
                try:
                    dummy = spec.build(C.dec_params(old))
                    k.run(lambda: dummy.set_param(n, C.dec(v)), label=f"step {j} rehearsal")
                    at = 1 + int(s["inj"][1] * k.op_lines / 1000)
                except Exception:      # noqa: BLE001
                    at = 1 + s["inj"][1] // 12
            with np.errstate(all="raise" if s.get("trap") else "ignore"):
                st, e = k.run(lambda: obj.set_param(n, val), inject=(exc, at) if exc is not None else None, label=f"step {j}")
            fired = bool(k.fired)
            if s.get("trap"):
                k.fault("floating-point-trap", int(st == "exc"))
            where = k.fired[1] if fired else ("trap" if s.get("trap") else "-")
            if fired and (st != "exc" or e is not exc):
                # who got the exception is C14; here only the state counts
                k.probe("fault-not-surfaced")
            got = params_of(obj, spec, tag)
            isold = is_set(got, spec, old)
            isnew = new is not None and is_set(got, spec, new)
            what = f"{type(e).__name__ if st == 'exc' else 'accepted'}{' injected at ' + k.fired[1] if fired else ''}"
            if st == "ok":
                if not isnew and not (key == "B76" and n == "b" and isold):
                    raise Violation("not-applied", f"{tag}: accepted, but the option reports {got}", key=key)
            elif not fired:
                if not isold:
                    raise Violation("half-applied", f"{tag}: refused ({e!r}), but the option does not report its old parameters: {got}", key=key)
            elif not isold and not isnew:
                raise Violation("half-applied", f"{tag}: {what}; the option reports neither the old nor the new parameters: {got}", key=key)
            if isnew and (st == "ok" or not isold):
                model[o] = new
            k.event(j, key, n, st, where, "new" if isnew else "old")
            k.state(key, n, type(exc).__name__ if fired else where, where, "new" if isnew else "old")
            bad += st == "exc"
            p = model[o]
            wants = ctx.quotes(key, p, s["ask"]) if s["ask"] else []
            for op, (wst, want) in zip(s["ask"], wants):
                qst, qv = k.run(lambda: C.query(obj, op), label=f"step {j}")
                ans = C.canon(qv) if qst == "ok" else None
                k.event(j, C.opname(op), qst, C.short(ans, 40))
                t2 = f"{tag}: {what}; afterwards {C.opname(op)}"
                if qst != wst:
                    raise Violation("quote-of-other", f"{t2} {'raised ' + repr(qv) if qst == 'exc' else 'gave ' + C.short(ans)}; a new option with the reported parameters {'gives ' + C.short(want) if wst == 'ok' else 'raises'}", key=key, op=C.opname(op))
                if qst == "ok" and not pool.same_answer(ans, want):
                    raise Violation("quote-of-other", f"{t2} is {C.short(ans)}; a new option with the reported parameters gives {C.short(want)}", key=key, op=C.opname(op))
    k.sample = {"opts": sc["opts"], "steps": sc["steps"][:4]}
    return bad > 0
