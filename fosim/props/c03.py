"""C03: Monte Carlo pricings running at once do not disturb each other."""
import copy

import numpy as np

from .. import kernel, mc
from ..kernel import Scheduler, Violation, make_fault

RUNS = {"quick": 3000, "thorough": 40000}
LINES = True
LISTS = ["threads", "threads.*.jobs", "preempt"]
RULE = ("one run = 2-4 simulated threads pricing 1-3 times each on shared and private options under a generated preemption list (between library lines or bytecodes "
        "and inside plug-ins), at most one thread failing; non-trivial when at least one switch happened inside a pricing")
STATE = "(code position switched at, from thread, to thread) triples and whole schedules"
REAL = ["finoptions.monte_carlo_options (MonteCarloOption, NormalSobolInnovations, WienerPath, payoffs)", "scipy.stats.qmc.Sobol (seeded by the simulator)"]
STUB = ["recording innovation sources", "custom path and payoff plug-ins", "thread scheduler"]
ASSUME = ["preemption between library source lines, bytecodes or plug-in points; numpy and scipy calls are atomic", "sources that reuse one buffer are not shared between threads"]
KINDS = ["KeyboardInterrupt", "SystemExit", "SimCancel", "MemoryError", "SimFault", "ValueError", "CancelledError"]


def gen_preempt(R, total, maxn=40):
    style = R.random()
    n = R.choice([1, 2, 3, 5, 8, 15, maxn])
    out = []
    for _ in range(n):
        if style < .3:
            g = R.randint(1, 4)
        elif style < .7:
            g = R.randint(1, max(2, total // 4))
        else:
            g = R.choice([1, 2, R.randint(1, 12), R.randint(1, max(2, total))])
        out.append([g, R.randrange(3)])
    return out


def gen(R, i, tier):
    nopt = R.choice([1, 1, 2, 2, 3])
    opts = [mc.gen_option(R, tier, big=False) for _ in range(nopt)]
    for o in opts:
        o["loops"] = R.randint(1, 6)
        o["mc_paths"] = max(2, min(o["mc_paths"], 16))
        o["path_length"] = min(o["path_length"], 8)
        o["source"] = R.choice(["fresh", "readonly", "strided", "fortran", "sobol", "sobol"])
        o["path"] = R.choice(["custom", "wiener", "builtin", "builtin"])
        o["payoff"] = R.choice(["custom", "vanilla", "asian", "builtin-vanilla", "builtin-asian", "builtin-vanilla"])
    nt = R.choice([2, 2, 2, 3, 4])
    threads = []
    same = R.random() < .5
    for t in range(nt):
        jobs = [{"o": 0 if same else R.randrange(nopt), "m": R.choice(["call", "put"])} for _ in range(R.choice([1, 1, 2, 3]))]
        th = {"jobs": jobs}
        if R.random() < .12:
            jobs[0]["copy"] = True
        threads.append(th)
    opcodes = R.random() < .3
    if R.random() < .35:
        t = R.choice(threads)
        t["inj"] = [R.choice(KINDS), R.randint(1, 60)]
    total = 60 * (8 if opcodes else 1)
    return {"seed": R.randrange(2 ** 31), "options": opts, "threads": threads, "preempt": gen_preempt(R, total), "opcodes": opcodes}


def valid(sc):
    return bool(sc["threads"])


def simplify(sc):
    if sc["opcodes"]:
        c = copy.deepcopy(sc)
        c["opcodes"] = False
        yield c
    for i, t in enumerate(sc["threads"]):
        if "inj" in t:
            c = copy.deepcopy(sc)
            del c["threads"][i]["inj"]
            yield c
    for i, o in enumerate(sc["options"]):
        for key, val in (("loops", 1), ("loops", 2), ("mc_paths", 2), ("path_length", 1), ("anti", False), ("std", False), ("source", "fresh"), ("path", "builtin"), ("payoff", "builtin-vanilla"), ("b", 0.0)):
            if o[key] != val and not (isinstance(val, int) and not isinstance(val, bool) and o[key] < val):
                c = copy.deepcopy(sc)
                c["options"][i][key] = val
                yield c


def run(sc, ctx):
    k = ctx.k
    w = mc.World(k, sc["seed"])
    w.points = True
    opts = sc["options"]
    live = [mc.build(o, w) for o in opts]
    s = Scheduler(k, sc["preempt"], opcodes=sc["opcodes"])
    results = []

    def body(ti, th):
        def f():
            for j, job in enumerate(th["jobs"]):
                obj = live[job["o"]]
                if job.get("copy"):
                    obj = copy.deepcopy(obj)
                p = mc.Pricing(f"thread {ti} job {j}")
                w.push(p)
                rec = [ti, j, job, p, None, None]
                results.append(rec)
                try:
                    rec[4], rec[5] = "ok", getattr(obj, job["m"])()
                except (Violation, kernel.HarnessError, kernel.Deadlock, kernel.StepBudget):
                    raise
                except BaseException as e:    # noqa: BLE001
                    rec[4], rec[5] = "exc", e
                finally:
                    w.pop()
        return f
    for ti, th in enumerate(sc["threads"]):
        t = s.spawn(body(ti, th))
        if "inj" in th:
            t.exc = make_fault(th["inj"][0])
            t.inj = [t.exc, th["inj"][1]]
    s.run()
    for tr in s.trace:
        k.event(tr)
        k.state(tr)
    k.state("schedule", s.trace)
    k.probe("switches", s.switches)
    for ti, j, job, p, st, v in sorted(results, key=lambda r: (r[0], r[1])):
        th = s.threads[ti]
        exc = getattr(th, "exc", None)
        if st == "exc":
            if exc is not None and th.inj is None and v is exc:
                k.event(ti, j, "failed as injected")
                continue
            raise Violation("pricing-failed", f"{p.tag}: {job['m']}() raised {v!r} although nothing was injected into it")
        mc.check_pricing(opts[job["o"]], job["m"], p, v, p.tag)
        k.event(ti, j, job["m"], float(np.sum(v)).hex())
    for ti, th in enumerate(s.threads):
        if getattr(th, "exc", None) is not None and th.inj is None and not any(r[0] == ti and r[5] is th.exc for r in results):
            raise Violation("fault-swallowed", f"thread {ti}: the injected {th.exc!r} reached nobody")
    # the shared options still price correctly once everything is quiet
    for i, o in enumerate(opts):
        p = mc.Pricing(f"afterwards, option {i}")
        w.push(p)
        st, v = k.run(live[i].call, label="afterwards")
        w.pop()
        if st != "ok":
            raise Violation("pricing-failed", f"afterwards: call() raised {v!r}")
        mc.check_pricing(o, "call", p, v, p.tag)
    k.sample = {"threads": sc["threads"], "preempt": sc["preempt"][:10], "opcodes": sc["opcodes"], "switches": s.trace[:20]}
    return s.switches > 0
