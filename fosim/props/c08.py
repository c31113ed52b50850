"""C08: a GARCH fit reports the variances and residuals of the model it reports."""
import copy
import math
import sys

import numpy as np

from .. import env, garch as G, ref
from ..kernel import Scheduler, Violation, make_fault
from .c03 import gen_preempt
from .c02 import Sink

RUNS = {"quick": 2500, "thorough": 20000}
LINES = True
LISTS = ["fits", "preempt"]
RULE = ("one run = 1-3 fits of series simulated by a reference recursion (start parameters true, perturbed or default; symmetric or not; iteration limits 0-6; traced or not), some cancelled "
        "at a generated line and repeated, a fifth of the runs as interleaved threads sharing data; non-trivial when a fit moved away from its start or filtered at the true parameters")
STATE = "(start kind, symmetric, gamma, iteration limit, trace, fault, order) combinations and schedules"
REAL = ["finoptions.heston_nandi_options.hngarch_fit and its filter", "scipy.optimize.minimize"]
STUB = ["data series (reference recursion, seeded)", "thread scheduler", "fault injection at source lines"]
ASSUME = ["start parameters with a positive stationary variance and a finite likelihood", "reported numbers compared to 1e-6 relative with a reference filter in scalar arithmetic"]
ERR = ["KeyboardInterrupt", "SystemExit", "SimCancel", "MemoryError", "FloatingPointError", "TimeoutError", "CancelledError"]


def gen(R, i, tier):
    threads = R.random() < .2
    fits = []
    for _ in range(R.choice([2, 2, 3]) if threads else R.randint(1, 3)):
        p = G.gen_params(R)
        if R.random() < .15:
            G.rescale(p, 10.0 ** R.randint(-7, 2))
        f = {"p": p, "n": R.choice([2, 3, R.randint(5, 40), R.randint(20, 90)]), "start": R.choice(["true", "perturbed", "perturbed", "default"]),
             "symmetric": R.random() < .5, "maxiter": R.choice([0, 0, 1, 2, 3, 6]), "trace": R.random() < .25 and not threads, "data": R.choice(["plain", "readonly", "strided"]), "rf": R.random() < .7}
        if R.random() < .04 and not threads:
            f["n"], f["maxiter"] = R.choice([128, 250, 256, 365, 500, R.randint(100, 600)]), R.choice([0, 0, 0, 1])
        if threads:
            f["n"], f["maxiter"] = min(f["n"], 25), min(f["maxiter"], 2)
            f["share"] = R.random() < .5
        f["pert"] = [R.uniform(-.5, .5), R.uniform(.5, 2), R.uniform(.3, 2), R.uniform(.3, 1.05), R.choice([0.0, R.uniform(.5, 1.2)])]
        if R.random() < .3:
            f["inj"] = [R.choice(ERR), int(math.exp(R.uniform(0, math.log(60 * f["n"] * (1 + f["maxiter"])))))]
        fits.append(f)
    if threads:
        for f in [f for f in fits if "inj" in f][1:]:
            del f["inj"]
    return {"seed": R.randrange(2 ** 31), "fits": fits, "threads": threads, "preempt": gen_preempt(R, 1500) if threads else []}


def valid(sc):
    return bool(sc["fits"])


def simplify(sc):
    for i, f in enumerate(sc["fits"]):
        for key, val in (("n", 2), ("n", 3), ("n", 10), ("maxiter", 0), ("maxiter", 1), ("trace", False), ("data", "plain"), ("start", "true"), ("symmetric", True)):
            if f[key] != val and not (isinstance(val, int) and not isinstance(val, bool) and f[key] < val):
                c = copy.deepcopy(sc)
                c["fits"][i][key] = val
                yield c
        if "inj" in f:
            c = copy.deepcopy(sc)
            del c["fits"][i]["inj"]
            yield c


def prepare(f, seed, j):
    p = f["p"]
    z = np.random.default_rng([seed, j]).normal(size=f["n"])
    x, h = ref.hn_sim(z, p["lamb"], p["omega"], p["alpha"], p["beta"], p["gamma"], p["rf"])
    if f["data"] == "readonly":
        x.setflags(write=False)
    elif f["data"] == "strided":
        b = np.zeros(2 * len(x))
        b[::2] = x
        x = b[::2]
    s = {k: p[k] for k in ("lamb", "omega", "alpha", "beta", "gamma")}
    if f["start"] == "perturbed":
        m = f["pert"]
        s = {"lamb": s["lamb"] + m[0], "omega": s["omega"] * m[1], "alpha": s["alpha"] * m[2], "beta": min(s["beta"] * m[3], .95), "gamma": s["gamma"] * m[4]}
    elif f["start"] == "default":
        s = {"lamb": -.5, "omega": None, "alpha": None, "beta": .1, "gamma": 0}
    rf = p["rf"] if f["rf"] else 0
    eff = dict(s)
    if eff["omega"] is None:
        eff["omega"] = float(np.var(x))
        eff["alpha"] = .1 * eff["omega"]
    if f["symmetric"]:
        eff["gamma"] = 0
    if eff["beta"] + eff["alpha"] * eff["gamma"] ** 2 >= .985:
        eff["beta"] = s["beta"] = 0.05
        if eff["beta"] + eff["alpha"] * eff["gamma"] ** 2 >= .985:
            eff["gamma"] = s["gamma"] = 0.0
    if not 0 < eff["beta"]:
        eff["beta"] = s["beta"] = 1e-3
    return x, z, s, eff, rf


def fit(f, x, s, rf, trace):
    kw = {k: v for k, v in s.items() if v is not None}
    return env.fo.heston_nandi_options.hngarch_fit(x, rf=rf, symmetric=f["symmetric"], trace=trace, options=dict(maxiter=f["maxiter"]), **kw)


def near(a, b, r=1e-6, at=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=r, atol=at))


def check(f, x, z, s, eff, rf, res, tag):
    """returns True if non-trivial; None if outside the domain"""
    if not isinstance(res, dict):
        raise Violation("result", f"{tag}: hngarch_fit returned {type(res).__name__}")
    l0, _, _ = ref.hn_filter(x, eff["lamb"], eff["omega"], eff["alpha"], eff["beta"], eff["gamma"], rf)
    if not near(res["value"], l0, 1e-7, 1e-6):
        raise Violation("start-value", f"{tag}: initial value {res['value']}, the negative log-likelihood of the start parameters is {l0}")
    m = res["model"]
    if f["symmetric"] and m["gamma"] != 0:
        raise Violation("symmetric-gamma", f"{tag}: a symmetric fit reports gamma = {m['gamma']}")
    if not near(m["rf"], rf):
        raise Violation("model-rf", f"{tag}: reported rf {m['rf']}, given {rf}")
    if not near(res["estimate"], [m[q] for q in ("lamb", "omega", "alpha", "beta", "gamma")]):
        raise Violation("estimate-vs-model", f"{tag}: estimate {res['estimate']} is not the model {m}")
    l1, z1, h1 = ref.hn_filter(x, m["lamb"], m["omega"], m["alpha"], m["beta"], m["gamma"], rf)
    if not np.all(np.isfinite(np.asarray(res["h"], float))) and z1 is None:
        return None
    if z1 is None:
        raise Violation("variances", f"{tag}: the reported model {m} has no positive variance path, yet variances are reported")
    if not near(res["h"], h1):
        raise Violation("variances", f"{tag}: reported variances are not those of filtering with the reported model")
    if not near(res["z"], z1, 1e-6, 1e-7):
        raise Violation("residuals", f"{tag}: reported residuals are not those of filtering with the reported model")
    n = len(x)
    mx = n * math.sqrt(2 * math.pi) - l1
    if not near(res["minimum"], mx, 1e-7, 1e-6 * n):
        raise Violation("maximum", f"{tag}: reported maximum {res['minimum']}, the reported model gives {mx}")
    pers = m["beta"] + m["alpha"] * m["gamma"] ** 2
    if not near(res["persistence"], pers) or not near(res["sigma2"], (m["omega"] + m["alpha"]) / (1 - pers)):
        raise Violation("statistics", f"{tag}: persistence {res['persistence']} / sigma2 {res['sigma2']} do not belong to the reported model")
    if not l1 <= l0 + 1e-6 * max(1, abs(l0)):
        raise Violation("less-likely", f"{tag}: the reported model has negative log-likelihood {l1}, the start had {l0}")
    if f["maxiter"] == 0 and f["start"] == "true" and rf == f["p"]["rf"] and all(near(m[q], f["p"][q], 1e-7) for q in ("lamb", "omega", "alpha", "beta", "gamma")):
        if not near(res["z"], z, 1e-5, 1e-6):
            raise Violation("innovations", f"{tag}: filtering the simulated series with its true parameters does not recover the innovations")
        return True
    return l1 < l0


def equal(a, b):
    if set(a) != set(b):
        return False
    for q in a:
        if isinstance(a[q], dict):
            if not equal(a[q], b[q]):
                return False
        elif isinstance(a[q], str):
            if a[q] != b[q]:
                return False
        elif not (np.shape(a[q]) == np.shape(b[q]) and np.allclose(np.asarray(a[q], float), np.asarray(b[q], float), rtol=1e-9, atol=1e-13, equal_nan=True)):
            return False
    return True


def run(sc, ctx):
    k = ctx.k
    with np.errstate(all="ignore"):
        return threaded(sc, k) if sc["threads"] else sequential(sc, k)


def sequential(sc, k):
    real = sys.stdout
    good = 0
    last = "-"
    for j, f in enumerate(sc["fits"]):
        tag = f"fit {j}"
        x, z, s, eff, rf = prepare(f, sc["seed"], j)
        x0 = x.copy()

        def go(trace, inject=None):
            sys.stdout = Sink()
            try:
                return k.run(lambda: fit(f, x, s, rf, trace), inject=inject, label=tag)
            finally:
                sys.stdout = real
        exc = make_fault(f["inj"][0]) if "inj" in f else None
        st, res = go(f["trace"], (exc, f["inj"][1]) if exc is not None else None)
        fired = bool(k.fired)
        if not np.array_equal(x, x0):
            raise Violation("data-modified", f"{tag}: the data were modified")
        if fired:
            if st != "exc" or res is not exc:
                raise Violation("fault-swallowed", f"{tag}: {exc!r} did not reach the caller: {(st, res)!r:.200}")
            tag += " (repeated)"
            st, res = go(f["trace"])
        if st != "ok":
            raise Violation("failed", f"{tag}: hngarch_fit raised {res!r}")
        nt = check(f, x, z, s, eff, rf, res, tag)
        if nt is None:
            k.probe("variance-not-positive")
        if not np.array_equal(x, x0):
            raise Violation("data-modified", f"{tag}: the data were modified")
        if f["trace"] or fired:
            st, r2 = go(not f["trace"])
            if st != "ok" or not equal(res, r2):
                raise Violation("trace-changes-fit", f"{tag}: tracing changed the fit")
        good += bool(nt)
        k.event(j, float(np.sum(res["h"])).hex(), float(res["minimum"]).hex())
        k.state(f["start"], f["symmetric"], f["p"]["gamma"] != 0, f["maxiter"], f["trace"], fired, last, f["data"])
        last = fired
    k.sample = {"fits": sc["fits"][:2]}
    return good > 0


def threaded(sc, k):
    s = Scheduler(k, sc["preempt"])
    data = []
    for j, f in enumerate(sc["fits"]):
        if f.get("share") and j:
            f = dict(f, p=sc["fits"][0]["p"], n=sc["fits"][0]["n"], data=sc["fits"][0]["data"])
            x, z, st, eff, rf = prepare(f, sc["seed"], 0)
            if len(x) == len(data[0][1]):
                x = data[0][1]
        else:
            x, z, st, eff, rf = prepare(f, sc["seed"], j)
        data.append((f, x, z, st, eff, rf, x.copy()))
        t = s.spawn(lambda f=f, x=x, st=st, rf=rf: fit(f, x, st, rf, False))
        if "inj" in f:
            t.exc = make_fault(f["inj"][0])
            t.inj = [t.exc, f["inj"][1]]
    s.run()
    for tr in s.trace:
        k.event(tr)
    k.state(s.trace)
    good = 0
    for j, (t, (f, x, z, st, eff, rf, x0)) in enumerate(zip(s.threads, data)):
        tag = f"thread {j}"
        if not np.array_equal(x, x0):
            raise Violation("data-modified", f"{tag}: the data were modified")
        o, res = t.out
        if "inj" in f and t.inj is None:
            if res is not t.exc:
                raise Violation("fault-swallowed", f"{tag}: the injected {t.exc!r} did not reach the caller")
            continue
        if o != "ok":
            raise Violation("failed", f"{tag}: hngarch_fit raised {res!r}")
        good += bool(check(f, x, z, st, eff, rf, res, tag))
        st2, alone = k.run(lambda: fit(f, x, st, rf, False), label=tag)
        if st2 != "ok" or not equal(res, alone):
            raise Violation("interleaved", f"{tag}: the interleaved fit differs from the same fit alone")
        k.event(j, float(np.sum(res["h"])).hex())
    k.sample = {"fits": sc["fits"][:2], "preempt": sc["preempt"][:8], "switches": s.trace[:10]}
    return good > 0 and s.switches > 0
