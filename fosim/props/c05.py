"""C05: Monte Carlo tracing reports the real loop averages and changes nothing."""
import copy
import re
import sys

import numpy as np

from .. import mc
from ..kernel import Violation, make_fault

RUNS = {"quick": 4000, "thorough": 40000}
LINES = True
LISTS = ["acts"]
RULE = ("one run = 1-2 contracts, each as a traced and an untraced twin over equal draws, and 1-6 pricings; the output stream fails at a generated write in about a third of them; "
        "non-trivial when a traced pricing with at least two loops completed or a stream fault fired")
STATE = "(traced, loops class, stream fault, call/put, previous act) combinations"
REAL = ["finoptions.monte_carlo_options.MonteCarloOption incl. trace output"]
STUB = ["sys.stdout (recording, failing on command)", "innovation sources"]
ASSUME = ["a trace entry is a loop number followed by two numbers on one line", "numbers printed with at least 7 significant digits"]
ERR = ["OSError", "ValueError", "SimFault", "KeyboardInterrupt", "MemoryError", "SimCancel", "BrokenPipeError", "BlockingIOError", "InterruptedError", "UnicodeEncodeError", "EOFError", "SystemExit", "CancelledError"]
NUM = r"(?:np\.float64\()?([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan))\)?"
ENTRY = re.compile(r"(?<![\d.])(\d+)[\s:|,;]+" + NUM + r"[\s,;:|]+" + NUM)


class Stream:
    def __init__(self, k, at=None, exc=None, how="write"):
        self.text, self.n, self.at, self.exc, self.how, self.k, self.fired = [], 0, at, exc, how, k, False

    def write(self, s):
        self.n += 1
        if self.how == "write" and self.at is not None and self.n == self.at:
            self.fired = True
            self.k.fault("stream:" + type(self.exc).__name__)
            raise self.exc
        self.text.append(s)
        return len(s)

    def flush(self):
        pass

    @property
    def out(self):
        return "".join(self.text)


def gen(R, i, tier):
    opts = []
    for _ in range(R.choice([1, 1, 2])):
        o = mc.gen_option(R, tier, big=False)
        o["loops"] = R.choice([1, 2, 3, R.randint(1, 15), 40])
        o["mc_paths"] = min(o["mc_paths"], 64)
        o["path_length"] = min(o["path_length"], 16)
        if R.random() < .04:
            o.update(loops=R.choice([101, 128, 150, 257, 300]), mc_paths=min(o["mc_paths"], 6), path_length=min(o["path_length"], 4))
        if R.random() < .05:
            o.update(odd=mc.gen_odd(R, ["nan"]), payoff=o["payoff"].replace("builtin-", ""))
        opts.append(o)
    acts = []
    for _ in range(R.randint(1, 6)):
        a = {"o": R.randrange(len(opts)), "m": R.choice(["call", "put"]), "trace": R.random() < .8}
        if a["trace"] and R.random() < .35:
            a["fail"] = [R.randint(1, 12 + 3 * opts[a["o"]]["loops"]), R.choice(ERR)]
        acts.append(a)
    return {"seed": R.randrange(2 ** 31), "options": opts, "acts": acts}


def valid(sc):
    return bool(sc["acts"])


def simplify(sc):
    for i, o in enumerate(sc["options"]):
        for key, val in (("loops", 1), ("loops", 2), ("mc_paths", 2), ("path_length", 1), ("anti", False), ("std", False), ("source", "fresh"), ("path", "builtin"), ("payoff", "builtin-vanilla")):
            if o[key] != val and not (isinstance(val, int) and not isinstance(val, bool) and o[key] < val):
                c = copy.deepcopy(sc)
                c["options"][i][key] = val
                yield c


def run(sc, ctx):
    k = ctx.k
    real = sys.stdout
    live = []
    for i, o in enumerate(sc["options"]):
        wt, wp = mc.World(k, sc["seed"] + i), mc.World(k, sc["seed"] + i)
        live.append((mc.build({**o, "trace": True}, wt), wt, mc.build({**o, "trace": False}, wp), wp))
    good = 0
    last = "-"
    for j, a in enumerate(sc["acts"]):
        o = sc["options"][a["o"]]
        traced, wt, plainopt, wp = live[a["o"]]
        tag = f"act {j}"
        obj, w, twin, wtwin = (traced, wt, plainopt, wp) if a["trace"] else (plainopt, wp, traced, wt)
        exc = make_fault(a["fail"][1]) if a.get("fail") else None
        stream = Stream(k, a["fail"][0] if exc is not None else None, exc)
        p = mc.Pricing(tag)
        start = w.count
        w.push(p)
        sys.stdout = stream
        try:
            st, v = k.run(getattr(obj, a["m"]), label=tag)
        finally:
            sys.stdout = real
            w.pop()
        if stream.fired:
            good += 1
            if st != "exc" or v is not exc:
                raise Violation("stream-error-lost", f"{tag}: the output stream raised {exc!r} but the caller got {(st, v)!r:.200}")
            k.event(j, "stream failed")
            k.state(a["trace"], "fail", a["m"], last)
            last = "fail"
            continue
        if st != "ok":
            raise Violation("pricing-failed", f"{tag}: {a['m']}() with trace={a['trace']} raised {v!r}")
        mc.check_pricing(o, a["m"], p, v, tag)
        if a["trace"]:
            check_trace(v, stream.out, tag)
            good += o["loops"] >= 2
        elif stream.out:
            raise Violation("untraced-output", f"{tag}: trace=False wrote {stream.out!r:.120}")
        # the twin with the other setting, over the same draws
        save, wtwin.count = wtwin.count, start
        q = mc.Pricing(tag + " twin")
        wtwin.push(q)
        sys.stdout = Stream(k)
        try:
            st, u = k.run(getattr(twin, a["m"]), label=tag)
        finally:
            sys.stdout = real
            wtwin.pop()
        wtwin.count = save
        if st != "ok":
            raise Violation("pricing-failed", f"{tag}: {a['m']}() of the twin raised {u!r}")
        if len(q.draws) != len(p.draws):
            raise Violation("trace-consumes", f"{tag}: tracing changed the number of innovations consumed")
        if np.shape(u) != np.shape(v) or not np.allclose(u, v, rtol=1e-12, atol=0, equal_nan=True):
            raise Violation("trace-changes-price", f"{tag}: tracing changed the returned prices")
        k.event(j, a["m"], a["trace"], float(np.sum(v)).hex())
        k.state(a["trace"], min(o["loops"], 3), a["m"], last, a.get("fail") is not None)
        last = "trace" if a["trace"] else "plain"
    k.sample = {"acts": sc["acts"], "loops": [o["loops"] for o in sc["options"]]}
    return good > 0


def check_trace(v, text, tag):
    got = [(int(n), float(x), float(y)) for n, x, y in ENTRY.findall(text)]
    if [g[0] for g in got] != list(range(len(v))):
        raise Violation("trace-loops", f"{tag}: {len(v)} loops were priced, the trace has entries for loops {[g[0] for g in got][:12]}")
    scale = float(np.max(np.abs(v[np.isfinite(v)]), initial=0.0))

    def close(x, y, tiny):
        return x == y or (np.isnan(x) and np.isnan(y)) or abs(x - y) <= 1e-6 * abs(y) + tiny * scale
    with np.errstate(all="ignore"):
        for n, x, y in got:
            c = float(np.mean(v[:n + 1]))
            if not close(x, v[n], 1e-12):
                raise Violation("trace-average", f"{tag}: the trace gives {x} for loop {n}, its average is {v[n]}")
            if not close(y, c, 1e-10):
                raise Violation("trace-cumulative", f"{tag}: the trace gives {y} as cumulative average at loop {n}, it is {c}")
