"""C13: threads may query options concurrently."""
import numpy as np

from .. import catalog as C, kernel, pool
from ..kernel import Scheduler, Violation, make_fault

RUNS = {"quick": 1000, "thorough": 30000}
LINES = True
PRISTINE = True
LISTS = ["threads", "threads.*.jobs", "preempt", "shared"]
RULE = ("one run = 2-4 simulated threads doing 1-4 jobs each (queries on shared options; queries, parameter changes and copies on their own) under a generated preemption list between library lines "
        "or bytecodes, at most one thread interrupted; every answer is compared with a new option in a fresh process; non-trivial when a switch happened inside an operation")
STATE = "(position switched at, threads) and whole schedules"
REAL = ["every option class incl. HestonNandiOption", "scipy root finding and integration, numdifftools"]
STUB = ["thread scheduler", "fault injection at source lines"]
ASSUME = ["preemption between library source lines or bytecodes; numpy and scipy calls are atomic except in their callbacks", "shared options are not changed while shared"]
KINDS = ["KeyboardInterrupt", "SystemExit", "SimCancel", "MemoryError", "ValueError", "CancelledError"]


def preempts(R, opcodes):
    m = 6 if opcodes else 1
    total = R.choice([20, 60, 60, 200, 2000]) * m
    n = R.choice([1, 2, 3, 5, 10, 25, 60])
    out = []
    style = R.random()
    for _ in range(n):
        if style < .3:
            g = R.randint(1, 6 * m)
        elif style < .75:
            g = R.randint(1, max(2, total // 3))
        else:
            g = R.choice([1, 2, R.randint(1, 15), R.randint(1, total)])
        out.append([g, R.randrange(3)])
    return out


def gen(R, i, tier):
    key0 = R.choice(pool.WEIGHT + ["HN"] if R.random() < .3 else pool.WEIGHT)
    shared = []
    for _ in range(R.choice([1, 1, 2])):
        key = key0 if R.random() < .7 else R.choice(pool.WEIGHT)
        shared.append({"key": key, "params": C.BY[key].gen(R) if key == "HN" else pool.gen_params(R, key, none=False)})
    threads = []
    for _ in range(R.choice([2, 2, 2, 3, 4])):
        own = []          # (key, params) this thread will own, in order
        jobs = []
        for _ in range(R.choice([1, 2, 2, 3, 4])):
            x = R.random()
            if x < .55 or (x >= .8 and not own):
                o = R.randrange(len(shared))
                jobs.append({"do": "query", "s": o, "op": pool.pick_op(R, shared[o]["key"], shared[o]["params"], slow=.1)})
            elif x < .7:
                o = R.randrange(len(shared))
                key, p = shared[o]["key"], shared[o]["params"]
                hows = ["deepcopy", "pickle"] + (["copy", "copy", "new", "new"] if key != "HN" else [])
                how = R.choice(hows)
                if how == "new":
                    p = pool.sibling(R, key, p)
                    jobs.append({"do": "new", "key": key, "params": p})
                else:
                    jobs.append({"do": "clone", "s": o, "how": how})
                own.append((key, dict(p)))
                jobs.append({"do": "query", "o": len(own) - 1, "op": pool.pick_op(R, key, p, slow=.05)})
            elif own:
                o = R.randrange(len(own))
                key, p = own[o]
                if C.BY[key].settable and R.random() < .6:
                    n, v = pool.change(R, key, p)
                    p[n] = v
                    jobs.append({"do": "set", "o": o, "n": n, "v": v})
                jobs.append({"do": "query", "o": o, "op": pool.pick_op(R, key, p, slow=.05)})
        threads.append({"jobs": jobs})
    opcodes = R.random() < .25
    if R.random() < .3:
        R.choice(threads)["inj"] = [R.choice(KINDS), R.choice([R.randint(1, 30), R.randint(1, 150), R.randint(1, 2000)])]
    return {"seed": R.randrange(2 ** 31), "shared": shared, "threads": threads, "preempt": preempts(R, opcodes), "opcodes": opcodes}


def valid(sc):
    ns = len(sc["shared"])
    for t in sc["threads"]:
        n = 0
        for j in t["jobs"]:
            if j["do"] in ("clone", "new"):
                n += 1
            if j.get("s", -1) >= ns or j.get("o", -1) >= n:
                return False
    return bool(sc["threads"]) and ns > 0


def simplify(sc):
    import copy
    if sc["opcodes"]:
        c = copy.deepcopy(sc)
        c["opcodes"] = False
        yield c
    for i, t in enumerate(sc["threads"]):
        if "inj" in t:
            c = copy.deepcopy(sc)
            del c["threads"][i]["inj"]
            yield c


def run(sc, ctx):
    k = ctx.k
    shared = [C.BY[o["key"]].build(C.dec_params(o["params"])) for o in sc["shared"]]
    prices = {}
    for t in sc["threads"]:       # relative volatility prices need the shared option's price, asked beforehand
        own = []
        for job in t["jobs"]:
            if job["do"] == "clone":
                own.append((sc["shared"][job["s"]]["key"], dict(sc["shared"][job["s"]]["params"])))
            elif job["do"] == "new":
                own.append((job["key"], dict(job["params"])))
            elif job["do"] == "set":
                own[job["o"]][1][job["n"]] = job["v"]
            elif job["op"]["op"] == "volatility":
                key, p = own[job["o"]] if "o" in job else (sc["shared"][job["s"]]["key"], sc["shared"][job["s"]]["params"])
                st, v, _ = ctx.quote(key, p, {"op": "call" if job["op"]["call"] else "put"})
                prices[id(job)] = pool.vol_op(job["op"], v) if st == "ok" and not isinstance(v, dict) else {"op": "call"}
    s = Scheduler(k, sc["preempt"], opcodes=sc["opcodes"])
    answers = []

    def body(ti, th):
        def f():
            own = []
            for ji, job in enumerate(th["jobs"]):
                rec = {"t": ti, "j": ji, "job": job}
                answers.append(rec)
                try:
                    if job["do"] == "clone":
                        src = sc["shared"][job["s"]]
                        own.append([src["key"], dict(src["params"]), None])
                        own[-1][2] = C.clone(shared[job["s"]], job["how"])
                        rec["st"] = "ok"
                    elif job["do"] == "new":
                        own.append([job["key"], dict(job["params"]), None])
                        try:
                            own[-1][2] = C.BY[job["key"]].build(C.dec_params(job["params"]))
                        except Exception as e:     # noqa: BLE001
                            if e is getattr(s.threads[ti], "exc", None):
                                raise
                        rec["st"] = "ok"
                    else:
                        if "s" in job:
                            key, p, obj = sc["shared"][job["s"]]["key"], sc["shared"][job["s"]]["params"], shared[job["s"]]
                        else:
                            key, p, obj = own[job["o"]]
                        if obj is None:
                            rec["st"] = "skip"
                            continue
                        if job["do"] == "set":
                            try:
                                obj.set_param(job["n"], C.dec(job["v"]))
                                p[job["n"]] = job["v"]
                                rec["st"] = "ok"
                            except Exception as e:    # noqa: BLE001
                                if e is getattr(s.threads[ti], "exc", None):
                                    raise
                                rec["st"] = "ok"       # refused: the query that follows shows the old set
                            continue
                        op = prices.get(id(job), job["op"])
                        rec.update(key=key, params=dict(p), op=op)
                        rec["st"], rec["v"] = "ok", C.canon(C.query(obj, op))
                except (Violation, kernel.HarnessError, kernel.Deadlock, kernel.StepBudget):
                    raise
                except BaseException as e:    # noqa: BLE001
                    rec["st"], rec["e"] = "exc", e
                    if e is getattr(s.threads[ti], "exc", None) and job["do"] in ("set", "clone", "new"):
                        return          # its private option is lost; C11 deals with that
        return f
    for ti, th in enumerate(sc["threads"]):
        t = s.spawn(body(ti, th))
        if "inj" in th:
            t.exc = make_fault(th["inj"][0])
            t.inj = [t.exc, th["inj"][1]]
    s.run()
    for tr in s.trace:
        k.event(tr)
        k.state(tr)
    k.state("schedule", s.trace)
    k.probe("switches", s.switches)
    for t in s.threads:
        if t.out[0] == "exc":
            raise kernel.HarnessError(f"thread body failed: {t.out[1]!r}")
    for r in sorted(answers, key=lambda r: (r["t"], r["j"])):
        tag = f"thread {r['t']} job {r['j']} ({C.opname(r['op']) if 'op' in r else r['job']['do']})"
        exc = getattr(s.threads[r["t"]], "exc", None)
        if r["st"] == "exc" and r["e"] is exc:
            k.event(r["t"], r["j"], "interrupted")
            continue
        if "op" not in r:
            if r["st"] == "exc":
                raise Violation("job-failed", f"{tag} raised {r['e']!r}")
            continue
        wst, want, _ = ctx.quote(r["key"], r["params"], r["op"])
        k.event(r["t"], r["j"], r["st"], C.short(r.get("v"), 40))
        if r["st"] != wst:
            raise Violation("outcome", f"{tag} on {r['key']} {r['params']} {'raised ' + repr(r.get('e')) if r['st'] == 'exc' else 'gave ' + C.short(r['v'])}; alone it {'raises' if wst == 'exc' else 'gives ' + C.short(want)}", key=r["key"])
        if wst == "ok" and not pool.same_answer(r["v"], want):
            if exc is not None and r["op"]["op"] in ("summary", "str"):
                continue       # an ordinary error may only cost the summary its price section
            raise Violation("differs", f"{tag} on {r['key']} {r['params']} is {C.short(r['v'])}; alone it is {C.short(want)}", key=r["key"])
    for o, obj in zip(sc["shared"], shared):
        if C.BY[o["key"]].settable:
            got = dict(C.canon(obj.get_params())["dict"])
            want = dict(C.canon(C.BY[o["key"]].reported(C.dec_params(o["params"])))["dict"])
            if set(got) != set(want) or not all(C.same(got[x], want[x], 0) for x in want):
                raise Violation("shared-changed", f"a shared {o['key']} option reports {got} afterwards", key=o["key"])
        op = {"op": "call"}
        st, v = k.run(lambda: C.query(obj, op), label="afterwards")
        wst, want, _ = ctx.quote(o["key"], o["params"], op)
        if st != wst or st == "ok" and not pool.same_answer(C.canon(v), want):
            raise Violation("shared-changed", f"a shared {o['key']} option quotes {C.short(v)} afterwards, a new one {C.short(want)}", key=o["key"])
    k.sample = {"shared": [o["key"] for o in sc["shared"]], "threads": sc["threads"], "preempt": sc["preempt"][:8], "switches": s.trace[:12]}
    return s.switches > 0
