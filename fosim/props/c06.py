"""C06: Monte Carlo estimates agree with the closed-form value for every seed."""
import copy
import math

import numpy as np

from .. import env, ref
from ..kernel import Violation

RUNS = {"quick": 700, "thorough": 12000}
LINES = False
UNIT = "Monte Carlo loops priced"
LISTS = ["cases"]
RULE = ("one run = 1-3 contracts priced with the shipped sampler, path and payoffs, the scrambling seeded by the simulator; the loop mean must be within 8 standard errors "
        "(plus a bias allowance of order 1/paths) of the closed form, call and put; non-trivial when the option is worth more than 8 standard errors")
STATE = "(payoff, flags, path-length, size class, moneyness class) combinations"
REAL = ["MonteCarloOption, NormalSobolInnovations, WienerPath, PlainVanillaPayoff, ArithmeticAsianPayoff, GBSOption, scipy.stats.qmc.Sobol"]
STUB = ["the scrambling's random numbers (seeded)"]
ASSUME = ["loops are independent given independent scramblings, so the standard error of their mean is estimated from their spread",
          "the Asian reference is an independent simulation with 200,000 paths and a geometric-average control variate"]


def gen(R, i, tier):
    cases = []
    for _ in range(R.choice([1, 1, 2, 3])):
        S = float("%.5g" % math.exp(R.uniform(0, 5.5)))
        r = float("%.4g" % R.uniform(-.02, .12))
        t = float("%.4g" % math.exp(R.uniform(math.log(.03), math.log(3))))
        s = float("%.4g" % math.exp(R.uniform(math.log(.05), math.log(.7))))
        c = {"S": S, "K": float("%.5g" % (S * math.exp(R.gauss(0, 1.0) * min(s * math.sqrt(t), .5)))), "t": t, "r": r, "b": R.choice([0.0, r, float("%.4g" % R.uniform(-.1, .12))]),
             "sigma": s, "payoff": R.choice(["vanilla", "vanilla", "asian"]), "path_length": R.choice([1, 2, 3, 4, 5, 8, 12, 16, 21]),
             "paths": R.choice([64, 128, 256, 500, 512, 1000, 1024, 2048, 100, 333]), "anti": R.random() < .5, "std": R.random() < .5, "loops": R.choice([24, 32, 48])}
        if R.random() < .07:
            c.update(path_length=R.choice([30, 64, 65, 100, 128, 252, 260, 300, 365, 504]), paths=R.choice([64, 128, 256]), payoff=R.choice(["vanilla", "asian", "asian"]))
        if R.random() < .12:
            c["sigma"] = float("%.4g" % R.uniform(1.0, 1.6))
            c["t"] = min(c["t"], float("%.4g" % R.uniform(.05, .45)))
            c["K"] = float("%.5g" % (S * math.exp(R.gauss(0, .4))))
        cases.append(c)
    return {"seed": R.randrange(2 ** 31), "cases": cases}


def valid(sc):
    return bool(sc["cases"])


def simplify(sc):
    for i, o in enumerate(sc["cases"]):
        for key, val in (("anti", False), ("std", False), ("payoff", "vanilla"), ("path_length", 1), ("path_length", 2), ("paths", 512), ("b", 0.0)):
            if o[key] != val:
                c = copy.deepcopy(sc)
                c["cases"][i][key] = val
                yield c


def asian(c, seed, n=200000):
    """E of the arithmetic-average call over dates dt..t, and its standard error"""
    rng = np.random.default_rng([seed, 77])
    m, dt = c["path_length"], c["t"] / c["path_length"]
    n = min(n, 2 * (3000000 // m))
    z = rng.normal(size=(n // 2, m))
    z = np.concatenate((z, -z))
    x = np.cumsum((c["b"] - c["sigma"] ** 2 / 2) * dt + c["sigma"] * math.sqrt(dt) * z, axis=1)
    A = c["S"] * np.exp(x).mean(axis=1)
    lg = math.log(c["S"]) + x.mean(axis=1)
    i = np.arange(1, m + 1)
    mu = math.log(c["S"]) + (c["b"] - c["sigma"] ** 2 / 2) * dt * i.mean()
    var = c["sigma"] ** 2 * dt * float(np.minimum.outer(i, i).sum()) / m ** 2
    d = math.exp(-c["r"] * c["t"])
    sd = math.sqrt(var)
    d2 = (mu - math.log(c["K"])) / sd
    from scipy.special import ndtr
    geo = d * (math.exp(mu + var / 2) * ndtr(d2 + sd) - c["K"] * ndtr(d2))
    pa, pg = d * np.maximum(A - c["K"], 0), d * np.maximum(np.exp(lg) - c["K"], 0)
    y = pa - (pg - geo)
    y2 = (y[:n // 2] + y[n // 2:]) / 2
    call, se = float(y2.mean()), float(y2.std() / math.sqrt(n // 2))
    EA = c["S"] * float(np.exp(c["b"] * dt * i).mean())
    return call, call - d * (EA - c["K"]), se


def run(sc, ctx):
    k = ctx.k
    mco = env.fo.monte_carlo_options
    big = 0
    for j, c in enumerate(sc["cases"]):
        pay = mco.PlainVanillaPayoff if c["payoff"] == "vanilla" else mco.ArithmeticAsianPayoff
        opt = mco.MonteCarloOption(c["loops"], c["path_length"], c["paths"], c["S"], c["K"], c["t"], c["r"], c["b"], c["sigma"],
                                   mco.NormalSobolInnovations, mco.WienerPath, pay, antithetic=c["anti"], standardization=c["std"])
        if c["payoff"] == "vanilla":
            a = [c[x] for x in ("S", "K", "t", "r", "b", "sigma")]
            want, wse = {"call": ref.gbs(1, *a), "put": ref.gbs(-1, *a)}, 0.0
            g = env.fo.GBSOption(*a)
            for m in ("call", "put"):
                q = float(getattr(g, m)())
                if not abs(q - want[m]) <= 4e-7 * (c["S"] + c["K"]):
                    raise Violation("closed-form", f"case {j}: GBSOption.{m}() is {q}, the Black-Scholes value is {want[m]}")
        else:
            cl, pt, wse = asian(c, sc["seed"])
            want = {"call": cl, "put": pt}
        for m in ("call", "put"):
            st, v = k.run(getattr(opt, m), label=f"case {j}")
            if st != "ok":
                raise Violation("pricing-failed", f"case {j}: {m}() raised {v!r}")
            v = np.asarray(v, float)
            if v.shape != (c["loops"],):
                raise Violation("wrong-shape", f"case {j}: {m}() returned shape {v.shape}")
            k.clock += len(v)
            se = float(v.std(ddof=1) / math.sqrt(len(v)))
            est = float(v.mean())
            bias = BIAS * (c["S"] * c["sigma"] * math.sqrt(c["t"])) / c["paths"]
            tol = 8 * math.hypot(se, wse) + bias + 1e-9 * (c["S"] + c["K"])
            z = (est - want[m]) / tol
            k.event(j, m, est.hex())
            k.state(c["payoff"], m, c["anti"], c["std"], c["path_length"], min(c["paths"] // 256, 4), round(math.log(c["K"] / c["S"]) / (c["sigma"] * math.sqrt(c["t"]))))
            k.worst = max(getattr(k, "worst", 0), abs(z))
            big += want[m] > 2 * tol
            if not abs(z) <= 1:
                raise Violation("estimate", f"case {j}: {c['payoff']} {m} estimate {est:.6g} is {abs(est - want[m]):.3g} from the true value {want[m]:.6g}; sampling error {se:.2g}",
                                payoff=c["payoff"], method=m)
    k.probe(f"worst-z:{round(k.worst, 1)}")
    k.sample = {"cases": sc["cases"]}
    return big > 0


BIAS = 0.5
