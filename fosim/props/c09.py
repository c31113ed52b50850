"""C09: Heston-Nandi prices equal the expectation under the simulated GARCH dynamics."""
import copy
import math

import numpy as np
from scipy.special import ndtr

from .. import catalog as C, env, kernel, pool, ref
from ..catalog import rnd
from ..kernel import Violation, make_fault

RUNS = {"quick": 520, "thorough": 12000}
LINES = True
LISTS = ["opts", "acts"]
RULE = ("one run = 1-2 generated risk-neutral models and 2-5 quotes, some cancelled at a generated line (also inside the integrator's callback) and repeated; every quote is compared with the "
        "mean over paths made by the library's own simulator (last step integrated out, constant-volatility control variate) and with a reference integral; "
        "non-trivial when an option with a random variance (t > 1) was compared with its simulation")
STATE = "(quote, maturity class, gamma, moneyness class, fault, previous act) combinations"
REAL = ["HestonNandiOption, hngarch_sim, scipy.integrate.quad"]
STUB = ["path innovations (seeded)", "fault injection at source lines"]
ASSUME = ["strikes within a few standard deviations, daily volatility 0.4-5 %, persistence up to 0.95, up to 30 days (one run in eight: up to 730 days)", "simulation tolerance 12 standard errors plus 0.2 % of the value, reference tolerance 1e-6 of spot plus strike"]
ERR = ["KeyboardInterrupt", "SystemExit", "SimCancel", "MemoryError", "TimeoutError", "ValueError", "CancelledError"]
KEYS = ("S", "K", "t", "r", "lamb", "omega", "alpha", "beta", "gamma")


def gen_long(R):
    """months to years: one quote, undisturbed"""
    while True:
        p = C.g_hn(R)
        p["t"] = R.choice([45, 60, 63, 64, 90, 100, 120, 126, 128, 180, 252, 256, 300, 365, 366, 400, 504, 512, 730])
        gs = p["gamma"] + p["lamb"] + .5
        pers = p["beta"] + p["alpha"] * gs * gs
        if pers < .96:
            sd = math.sqrt((p["omega"] + p["alpha"]) / (1 - pers) * p["t"])
            if sd < .8:
                p["K"] = rnd(p["S"] * math.exp(R.uniform(-2.3, 2.3) * sd))
                return p


def gen(R, i, tier):
    if R.random() < .12:
        qs = R.sample(["call", "put", "delta", "pdelta", "gamma"], 2)
        return {"seed": R.randrange(2 ** 31), "opts": [gen_long(R)], "acts": [{"o": 0, "q": q} for q in qs], "paths": 100 if tier == "quick" else 500}
    opts = []
    for _ in range(R.choice([1, 1, 2, 2, 3])):
        if opts and R.random() < .75:
            q = pool.sweep(R, "HN", opts[0], 1)       # one that differs in a single parameter
            if q:
                opts.append(q[0][1])
                continue
        p = C.g_hn(R)
        while True:
            gs = p["gamma"] + p["lamb"] + .5
            if p["beta"] + p["alpha"] * gs * gs < .96:
                break
            p = C.g_hn(R)
        opts.append(p)
    acts = []
    qs = R.sample(["call", "put", "delta", "pdelta", "gamma"], R.choice([1, 2, 5]))
    for i in range(R.randint(2, 4)):
        a = {"o": i if len(opts) > 1 and i < len(opts) else R.randrange(len(opts)), "q": R.choice(qs)}
        if R.random() < .35:
            t = opts[a["o"]]["t"]
            a["inj"] = [R.choice(ERR), int(math.exp(R.uniform(0, math.log(400 * (12 + 2 * t)))))]
        acts.append(a)
    return {"seed": R.randrange(2 ** 31), "opts": opts, "acts": acts, "paths": 300 if tier == "quick" else 1500}


def valid(sc):
    return bool(sc["acts"]) and all(a["o"] < len(sc["opts"]) for a in sc["acts"])


def simplify(sc):
    for i, p in enumerate(sc["opts"]):
        for key, val in (("t", 1), ("t", 2), ("t", 3), ("gamma", 0.0), ("r", 0.0), ("lamb", 0.0)):
            if p[key] != val and not (key == "t" and p[key] < val):
                c = copy.deepcopy(sc)
                c["opts"][i][key] = val
                yield c
    for i, a in enumerate(sc["acts"]):
        if "inj" in a:
            c = copy.deepcopy(sc)
            del c["acts"][i]["inj"]
            yield c


def quote(opt, q):
    return opt.delta(call=True) if q == "delta" else opt.delta(call=False) if q == "pdelta" else getattr(opt, q)()


def simulate(p, seed, n):
    """{quote: (mean, standard error)} from paths of the library's simulator under the risk-neutral parameters"""
    t, r, S, K = p["t"], p["r"], p["S"], p["K"]
    gs = p["gamma"] + p["lamb"] + .5
    sim = env.fo.heston_nandi_options.hngarch_sim
    rng = np.random.default_rng([seed, 5])
    if t == 1:
        n = 2
    z = rng.normal(size=(n // 2, t))
    z = np.concatenate((z, -z))
    z[:, -1] = 0.0
    X, h = np.empty(n), np.empty(n)
    h0 = (p["omega"] + p["alpha"]) / (1 - p["beta"] - p["alpha"] * gs * gs)
    for i in range(n):
        x = sim(lamb=-.5, omega=p["omega"], alpha=p["alpha"], beta=p["beta"], gamma=gs, rf=r, n=t, inno=z[i])
        X[i] = math.exp(float(np.sum(x[:-1])))
        h[i] = 2 * (r - float(x[-1]))
    Y = np.exp((t - 1) * (r - h0 / 2) + math.sqrt(h0) * z[:, :-1].sum(axis=1))

    def cond(X, h):
        s = np.sqrt(h)
        d1 = (np.log(S * X / K) + r + h / 2) / s
        df = math.exp(-r * t)
        e = math.exp(r)
        c = df * (S * X * e * ndtr(d1) - K * ndtr(d1 - s))
        return {"call": c, "put": c - S * X * math.exp(-r * (t - 1)) + K * df, "delta": df * X * e * ndtr(d1), "pdelta": -df * X * e * ndtr(-d1),
                "gamma": df * X * e * np.exp(-d1 ** 2 / 2) / math.sqrt(2 * math.pi) / (S * s)}
    a, b = cond(X, h), cond(Y, np.full(n, h0))
    V = h0 * t                      # exact values of the constant-volatility control
    s = math.sqrt(V)
    d1 = (math.log(S / K) + r * t + V / 2) / s
    df = math.exp(-r * t)
    c = S * ndtr(d1) - K * df * ndtr(d1 - s)
    exact = {"call": c, "put": c - S + K * df, "delta": ndtr(d1), "pdelta": ndtr(d1) - 1, "gamma": math.exp(-d1 * d1 / 2) / math.sqrt(2 * math.pi) / (S * s)}
    out = {}
    for q in a:
        y = a[q] - b[q] + exact[q]
        y = (y[:n // 2] + y[n // 2:]) / 2
        out[q] = (float(y.mean()), float(y.std(ddof=1) / math.sqrt(len(y))) if len(y) > 1 else 0.0)
    return out


def run(sc, ctx):
    k = ctx.k
    hn = env.fo.heston_nandi_options
    live = [hn.HestonNandiOption(**{q: p[q] for q in KEYS}) for p in sc["opts"]]
    sims, refs, first = {}, {}, {}
    good, last = 0, "-"
    for j, a in enumerate(sc["acts"]):
        p, obj = sc["opts"][a["o"]], live[a["o"]]
        tag = f"act {j}: {a['q']} of {p}"
        o = a["o"]
        if o not in sims:
            kernel.instrument(False)
            sims[o] = simulate(p, sc["seed"], sc["paths"])
            c, q, d, g = ref.hn(*[p[x] for x in KEYS])
            refs[o] = {"call": c, "put": q, "delta": d, "pdelta": d - 1, "gamma": g}
        kernel.instrument("inj" in a)
        exc = make_fault(a["inj"][0]) if "inj" in a else None
        st, v = k.run(lambda: quote(obj, a["q"]), inject=(exc, a["inj"][1]) if exc is not None else None, label=f"act {j}")
        fired = bool(k.fired)
        if fired:
            if st != "exc" or v is not exc:
                raise Violation("fault-swallowed", f"{tag}: {exc!r} did not reach the caller: {(st, v)!r:.160}")
            st, v = k.run(lambda: quote(obj, a["q"]), label=f"act {j}")
        if st != "ok":
            raise Violation("failed", f"{tag} raised {v!r}")
        v = float(np.asarray(v).ravel()[0])
        q = a["q"]
        m, se = sims[o][q]
        scale = {"call": p["S"] + p["K"], "put": p["S"] + p["K"], "delta": 1.0, "pdelta": 1.0, "gamma": abs(refs[o]["gamma"]) + 1 / p["S"]}[q]
        # the standard error of a few rare paths is unreliable, hence the allowances; the reference integral is the sharp test
        sd = math.sqrt((p["omega"] + p["alpha"]) / (1 - p["beta"] - p["alpha"] * (p["gamma"] + p["lamb"] + .5) ** 2) * p["t"])
        tol = 12 * se + 2e-6 * scale + 2e-3 * abs(refs[o][q]) + (6e-4 if q in ("delta", "pdelta") else 6e-4 * scale * sd if q != "gamma" else 3e-3 / (p["S"] * sd))
        rt = {"gamma": 1e-4 * scale, "delta": 1e-5, "pdelta": 1e-5}.get(q, 1e-6 * scale)
        z = abs(v - m) / tol
        k.worst = max(getattr(k, "worst", 0), z)
        if not abs(v - m) <= tol:
            raise Violation("simulation", f"{tag} is {v:.9g}; {sc['paths']} simulated paths give {m:.9g} +- {se:.2g}", quote=q)
        if not abs(v - refs[o][q]) <= rt:
            raise Violation("integral", f"{tag} is {v:.10g}; the reference integral gives {refs[o][q]:.10g}", quote=q)
        if (o, q) in first and not abs(first[o, q] - v) <= 1e-12 * scale:
            raise Violation("not-repeatable", f"{tag} was {first[o, q]!r} and is now {v!r}")
        first.setdefault((o, q), v)
        good += p["t"] > 1
        k.event(j, q, v.hex(), fired)
        k.state(q, min(p["t"], 4), p["gamma"] != 0, round(math.log(p["K"] / p["S"]) / math.sqrt(p["t"]) * 30), fired, last)
        last = (q, fired)
    kernel.instrument(True)
    k.probe(f"worst-z:{round(k.worst, 1)}")
    k.sample = {"opts": sc["opts"], "acts": sc["acts"]}
    return good > 0
