"""C07: the GARCH simulator follows its recursion on exactly the innovations drawn."""
import copy

import numpy as np

from .. import env, garch as G, ref
from ..kernel import Scheduler, Violation, make_fault
from .c03 import gen_preempt

RUNS = {"quick": 4500, "thorough": 50000}
LINES = True
LISTS = ["sims", "preempt"]
RULE = ("one run = 1-5 simulations with generated parameters, lengths, burn-ins and supplied (in many number types and layouts) or drawn innovations, some cancelled part-way and repeated, "
        "a quarter of the runs as interleaved threads on supplied innovations; non-trivial when at least one series with gamma != 0 or a burn-in was checked")
STATE = "(supplied kinds, burn-in, gamma sign, fault, order) combinations and schedules"
REAL = ["finoptions.heston_nandi_options.hngarch_sim", "numpy's global generator (seeded by the simulator)"]
STUB = ["thread scheduler", "fault injection at source lines"]
ASSUME = ["supplied innovations have n (n_start) values", "series compared to 1e-8 relative with a reference recursion in scalar arithmetic"]
ERR = ["KeyboardInterrupt", "SystemExit", "SimCancel", "MemoryError", "FloatingPointError", "TimeoutError", "CancelledError"]


def gen(R, i, tier):
    threads = R.random() < .25
    sims = []
    for _ in range(R.randint(2, 4) if threads else R.randint(1, 5)):
        n = R.choice([1, 2, 3, R.randint(1, 60), R.randint(1, 60)])
        ns = R.choice([0, 0, 1, 2, R.randint(1, 40)])
        if R.random() < .05:
            n, ns = R.choice([1, 5, 100, 252, 300, 500, 777, 1000]), R.choice([0, 50, 100, 101, 250, 260, 300, 500, 505, 1000])
        s = {"p": G.gen_params(R), "n": n, "ns": ns}
        if R.random() < .2:
            G.rescale(s["p"], 10.0 ** R.randint(-9, 2))
        s["inno"] = R.choice(G.KINDS) if threads or R.random() < .6 else None
        s["start"] = R.choice(G.KINDS) if ns and (threads or R.random() < .5) else None
        if ns == n and s["inno"] and s["start"] and R.random() < .5 or not threads and s["inno"] and R.random() < .04:
            s.update(ns=n, start=s["inno"], same=True)       # one array for both
        if R.random() < .15:
            s["tail"] = [R.randrange(1000), R.choice([1, -1]) * R.choice([4.5, 6.0, 9.0, 15.0, 40.0, 0.0])]
        if R.random() < .3:
            s["inj"] = [R.choice(ERR), R.randint(1, 12 + 3 * (n + ns))]
        if not threads and R.random() < .3:
            s["reseed"] = R.randrange(2 ** 31)
        if not threads and R.random() < .2:
            s["odd"] = True        # leave a half-used Gaussian pair in the generator
        sims.append(s)
    if threads:
        hit = [s for s in sims if "inj" in s]
        for s in hit[1:]:
            del s["inj"]
    return {"seed": R.randrange(2 ** 31), "sims": sims, "threads": threads, "preempt": gen_preempt(R, 150) if threads else [], "opcodes": threads and R.random() < .2}


def valid(sc):
    return bool(sc["sims"])


def simplify(sc):
    for i, s in enumerate(sc["sims"]):
        for key, val in (("n", 1), ("n", 2), ("n", 4), ("ns", 0), ("ns", 1), ("inno", None), ("inno", "float"), ("start", None)):
            if s[key] != val and not (isinstance(val, int) and s[key] is not None and s[key] < val) and not (sc["threads"] and val is None):
                c = copy.deepcopy(sc)
                c["sims"][i][key] = val
                if not c["sims"][i]["ns"]:
                    c["sims"][i]["start"] = None
                yield c
        for key in ("inj", "reseed", "odd", "tail", "same"):
            if key in s:
                c = copy.deepcopy(sc)
                del c["sims"][i][key]
                yield c


def call(s, a, b):
    kw = dict(s["p"], n=s["n"], n_start=s["ns"])
    if a is not None:
        kw["inno"] = a
    if b is not None:
        kw["inno_start"] = b
    return env.fo.heston_nandi_options.hngarch_sim(**kw)


def want(s, z, z0):
    p = s["p"]
    x, h = ref.hn_sim(np.concatenate((z0, z)), p["lamb"], p["omega"], p["alpha"], p["beta"], p["gamma"], p["rf"])
    return x[s["ns"]:]


def run(sc, ctx):
    k = ctx.k
    return threaded(sc, k) if sc["threads"] else sequential(sc, k)


def _check(s, v, cands, tag):
    if not isinstance(v, np.ndarray) or v.shape != (s["n"],):
        raise Violation("length", f"{tag}: asked for {s['n']} values after {s['ns']} burn-in values, got {getattr(v, 'shape', type(v).__name__)}")
    if not any(G.same_series(v, want(s, z, z0)) for z, z0 in cands):
        w = want(s, *cands[0])
        i = int(np.argmax(~np.isclose(np.asarray(v, float), w, rtol=1e-8, atol=1e-10 * float(np.max(np.abs(w))))))
        raise Violation("series", f"{tag}: value {i} is {v[i]!r}, the recursion gives {w[i]!r} (parameters {s['p']}, n={s['n']}, n_start={s['ns']}, inno={s['inno']}, inno_start={s['start']})")


def sequential(sc, k):
    good = 0
    last = "-"
    earlier = []
    for j, s in enumerate(sc["sims"]):
        tag = f"simulation {j}"
        if "reseed" in s:
            np.random.seed(s["reseed"])
        if s.get("odd"):
            np.random.normal()
        n, ns = s["n"], s["ns"]
        a, av = G.innovations(sc["seed"], 2 * j, n, s["inno"], s.get("tail")) if s["inno"] else (None, None)
        b, bv = G.innovations(sc["seed"], 2 * j + 1, ns, s["start"], s.get("tail")) if s["start"] and ns else (None, None)
        if s.get("same") and a is not None and n == ns:
            b, bv = a, av
        ca, cb = G.copy_of(a), G.copy_of(b)
        st0 = np.random.get_state()
        # what the generator should give
        cands = []
        for order in ("main-first", "start-first"):
            rs = np.random.RandomState()
            rs.set_state(st0)
            z, z0 = av, bv if b is not None else np.zeros(0)
            for part in (("m", "s") if order == "main-first" else ("s", "m")):
                if part == "m" and a is None:
                    z = rs.normal(0, 1, n)
                if part == "s" and b is None and ns:
                    z0 = rs.normal(0, 1, ns)
            cands.append((z, z0))
            st1 = rs.get_state()
        exc = make_fault(s["inj"][0]) if "inj" in s else None
        st, v = k.run(lambda: call(s, a, b), inject=(exc, s["inj"][1]) if exc is not None else None, label=tag)
        if not G.intact(a, ca) or not G.intact(b, cb):
            raise Violation("supplied-modified", f"{tag}: the supplied innovations were modified")
        if k.fired:
            if st != "exc" or v is not exc:
                raise Violation("fault-swallowed", f"{tag}: {exc!r} did not reach the caller")
            if a is not None and (b is not None or not ns) and not G.state_eq(np.random.get_state(), st0):
                raise Violation("randomness-consumed", f"{tag}: everything was supplied, yet the global generator moved")
            np.random.set_state(st0)
            st, v = k.run(lambda: call(s, a, b), label=tag)
            tag += " (repeated)"
        if st != "ok":
            raise Violation("failed", f"{tag}: hngarch_sim raised {v!r}")
        _check(s, v, cands, tag)
        if not G.state_eq(np.random.get_state(), st1):
            raise Violation("randomness-consumed", f"{tag}: the global generator is not where {0 if a is not None else n} + {0 if b is not None else ns} normals leave it")
        if not G.intact(a, ca) or not G.intact(b, cb):
            raise Violation("supplied-modified", f"{tag}: the supplied innovations were modified")
        if a is not None and not isinstance(a, list) and np.shares_memory(v, a) or b is not None and not isinstance(b, list) and np.shares_memory(v, b):
            raise Violation("aliased", f"{tag}: the returned series shares memory with the supplied innovations")
        for w, c in earlier:
            if not np.array_equal(w, c):
                raise Violation("earlier-result", f"{tag}: an earlier returned series changed")
        np.random.set_state(st0)
        st, u = k.run(lambda: call(s, a, b), label=tag)
        if st != "ok" or not np.array_equal(u, v):
            raise Violation("not-repeatable", f"{tag}: the same generator state gave another series")
        earlier.append((v, v.copy()))
        good += s["p"]["gamma"] != 0 or ns > 0
        k.event(j, float(v.sum()).hex())
        k.state(s["inno"], s["start"], min(ns, 2), min(n, 3), np.sign(s["p"]["gamma"]), bool(k.fired), last)
        last = (s["inno"] is None, "inj" in s)
    k.sample = {"sims": sc["sims"][:2]}
    return good > 0


def threaded(sc, k):
    s = Scheduler(k, sc["preempt"], opcodes=sc["opcodes"])
    data = []
    shared = {}
    st0 = np.random.get_state()
    for j, sim in enumerate(sc["sims"]):
        key = (sim["inno"], sim["n"])
        if key not in shared:       # threads may share one innovations array
            shared[key] = G.innovations(sc["seed"], 2 * j, sim["n"], sim["inno"] or "float")
        a, av = shared[key]
        b, bv = G.innovations(sc["seed"], 2 * j + 1, sim["ns"], sim["start"] or "float") if sim["ns"] else (None, np.zeros(0))
        if sim.get("same") and sim["n"] == sim["ns"]:
            b, bv = a, av
        data.append((a, av, G.copy_of(a), b, bv, G.copy_of(b)))
        t = s.spawn(lambda sim=sim, a=a, b=b: call(sim, a, b))
        if "inj" in sim:
            t.exc = make_fault(sim["inj"][0])
            t.inj = [t.exc, sim["inj"][1]]
    s.run()
    for tr in s.trace:
        k.event(tr)
    k.state(s.trace)
    for j, (t, sim, d) in enumerate(zip(s.threads, sc["sims"], data)):
        tag = f"thread {j}"
        a, av, ca, b, bv, cb = d
        if not G.intact(a, ca) or not G.intact(b, cb):
            raise Violation("supplied-modified", f"{tag}: the supplied innovations were modified")
        st, v = t.out
        if "inj" in sim and t.inj is None:
            if v is not t.exc:
                raise Violation("fault-swallowed", f"{tag}: the injected {t.exc!r} did not reach the caller")
            continue
        if st != "ok":
            raise Violation("failed", f"{tag}: hngarch_sim raised {v!r}")
        _check(sim, v, [(av, bv)], tag)
        k.event(j, float(v.sum()).hex())
    if not G.state_eq(np.random.get_state(), st0):
        raise Violation("randomness-consumed", "everything was supplied, yet the global generator moved")
    k.sample = {"sims": sc["sims"][:2], "preempt": sc["preempt"][:8], "switches": s.trace[:10]}
    return s.switches > 0
