"""The option classes, described by their public interface: how to generate, build, query and price them."""
import math
import pickle
import copy as _copy

import numpy as np

from . import env, ref

A1 = ("S", "K", "t", "r", "b", "sigma")


def lg(R, a, b):
    return math.exp(R.uniform(math.log(a), math.log(b)))


def rnd(x, n=6):
    return float(f"%.{n}g" % x)


# ---------------------------------------------------------------- parameter generators (calibrated domain)
def g_euro(R):
    S = rnd(lg(R, 1, 500))
    r = rnd(R.uniform(0.005, 0.15))
    return {"S": S, "K": rnd(S * math.exp(R.gauss(0, 0.25))), "t": rnd(lg(R, 0.03, 3)), "r": r,
            "b": R.choice([0.0, r, rnd(R.uniform(-0.1, 0.12))]), "sigma": rnd(lg(R, 0.08, 0.8))}


def g_baw(R):
    """a cost of carry close to the rate makes the critical-price search very long"""
    p = g_euro(R)
    p["b"] = R.choice([0.0, rnd(R.uniform(-.1, p["r"] - .02)), rnd(R.uniform(-.1, p["r"] - .02)), rnd(p["r"] + R.uniform(.01, .05))])
    return p


def g_b76(R):
    p = g_euro(R)
    return {"FT": p["S"], "K": p["K"], "t": p["t"], "r": p["r"], "sigma": p["sigma"]}


def g_ms(R):
    p = g_euro(R)
    return {"Pt": rnd(math.exp(-p["r"] * p["t"])), "FT": p["S"], "K": p["K"], "t": p["t"], "T": rnd(p["t"] + R.uniform(0.05, 1)),
            "sigmaS": p["sigma"], "sigmaE": rnd(R.uniform(.05, .4)), "sigmaF": rnd(R.uniform(.002, .03)),
            "rhoSE": rnd(R.uniform(-.8, .9)), "rhoSF": rnd(R.uniform(-.3, .3)), "rhoEF": rnd(R.uniform(-.3, .3)),
            "KappaE": rnd(R.uniform(.3, 2)), "KappaF": rnd(R.uniform(.1, 1))}


def g_rgw(R):
    p = g_euro(R)
    return {"S": p["S"], "K": p["K"], "t": p["t"], "td": rnd(p["t"] * R.uniform(.1, .9)), "r": p["r"],
            "D": rnd(p["S"] * R.uniform(.001, .08)), "sigma": p["sigma"]}


def g_tree(R):
    p = g_euro(R)
    p["type"] = R.choice(["european", "american"])
    p["n"] = R.choice([1, 2, 3, 4, 5, 6, 8, 11, R.randint(1, 24)])
    return p


def g_two(R):
    p = g_euro(R)
    S2 = rnd(p["S"] * math.exp(R.gauss(0, .25)))
    return {"S1": p["S"], "S2": S2, "t": p["t"], "r": p["r"], "b1": p["b"], "b2": rnd(R.uniform(-.1, .12)),
            "sigma1": p["sigma"], "sigma2": rnd(lg(R, .08, .8)), "rho": rnd(R.uniform(-.9, .9))}


def g_tail(R):
    return {"Q1": R.choice([1.0, rnd(lg(R, .4, 2.5))]), "Q2": R.choice([1.0, rnd(lg(R, .4, 2.5))])}


def g_all(R):
    p = g_two(R)
    p.update(g_tail(R))
    op = R.randint(1, 9)
    a, b = p["Q1"] * p["S1"], p["Q2"] * p["S2"]
    p["K"] = rnd({1: R.choice([1, -1]) * abs(a - b) + 1, 2: max(a, b), 3: min(a, b), 4: a, 5: a, 6: a + b, 7: a, 8: a / b, 9: a * b}[op]
                 * R.uniform(.8, 1.2))
    p["K2"] = rnd(b * R.uniform(.8, 1.2))
    p["option"] = op
    p["otype"] = R.choice(["european", "american"])
    p["n"] = R.randint(1, 7)
    return p


def g_fixed(kind):
    def g(R):
        p = g_two(R)
        p.update(g_tail(R))
        a, b = p["Q1"] * p["S1"], p["Q2"] * p["S2"]
        K = {1: abs(a - b) + 1, 2: max(a, b), 3: min(a, b)}[kind] * R.uniform(.8, 1.2)
        q = {"S1": p["S1"], "S2": p["S2"], "K": rnd(K)}
        q.update({k: p[k] for k in ("t", "r", "b1", "b2", "sigma1", "sigma2", "rho", "Q1", "Q2")})
        q["otype"] = R.choice(["european", "american"])
        q["n"] = R.randint(1, 7)
        return q
    return g


def g_spa(R):
    q = g_fixed(1)(R)
    del q["otype"], q["n"]
    return q


def g_hn(R):
    t = R.choice([1, 2, 3, 5, 10, R.randint(1, 30)])
    sdd = lg(R, .004, .05)
    lam = rnd(R.uniform(-.5, 2) if R.random() < .6 else R.uniform(-8, 40))
    g = R.choice([0.0, rnd(R.uniform(0, 250))])
    plain = R.random() < .15        # exact coincidences and round values
    if plain:
        lam, g = R.choice([0.0, -.5, .5, lam]), R.choice([0.0, .5, g])
    gs = g + lam + .5
    pers = R.uniform(.1, .95)
    al = lg(R, 1e-7, 1e-5)
    if al * gs * gs > .9 * pers:
        al = pers * R.uniform(.05, .9) / gs ** 2
    beta = pers - al * gs * gs
    om = max(sdd ** 2 * (1 - pers) - al, 1e-9)
    sd = math.sqrt((om + al) / (1 - pers) * t)
    S = rnd(lg(R, 1, 300))
    K = rnd(S * math.exp(R.uniform(-2.5, 2.5) * sd), 8)
    if plain and R.random() < .5:
        K = S = R.choice([S, 100.0, 100, float(round(S)) or 1.0])
    return {"S": S, "K": K, "t": t, "r": 0.0 if plain and R.random() < .5 else rnd(R.uniform(0, .0003) if R.random() < .75 else R.uniform(-.0004, 0)),
            "lamb": lam, "omega": rnd(om, 8), "alpha": rnd(al, 8), "beta": rnd(beta, 8), "gamma": g}


# ---------------------------------------------------------------- reference values
def _z(call):
    return 1 if call else -1


def r_euro(p, op):
    a = [p[k] if p.get(k) is not None else None for k in ("S", "K", "t", "r", "b", "sigma")]
    name, call = op["op"], op.get("call", True)
    sc = np.abs(np.asarray(p["S"], float)) + np.abs(np.asarray(p["K"], float))
    if name in ("call", "put"):
        return ref.gbs(_z(name == "call"), *a), 4e-7 * sc
    if op.get("method") == "fdm":
        return None
    g = {"lamb": "lambda", "c_of_c": "CofC"}.get(name, name)
    t = np.asarray(p["t"], float)
    tol = {"delta": 1e-6, "theta": 1e-6 * sc * (1 + 1 / t), "vega": 1e-6 * sc, "rho": 1e-6 * sc * (1 + t), "gamma": 1e-6 / np.asarray(p["S"], float) / (np.asarray(p["sigma"], float) * np.sqrt(t)),
           "CofC": 1e-6 * sc * (1 + t)}
    v = ref.gbs_greeks(_z(call), *a)
    if g in tol:
        return v[g], tol[g]
    if g == "lambda":
        price = np.abs(ref.gbs(_z(call), *a))
        S = np.asarray(p["S"], float)
        if np.any(price < 1e-4 * sc):
            return None
        return v[g], 1e-6 * S / price + 4e-7 * sc * np.abs(v["delta"]) * S / price ** 2
    return None


def r_b76(p, op):
    q = dict(S=p["FT"], K=p["K"], t=p["t"], r=p["r"], b=0.0, sigma=p["sigma"])
    return r_euro(q, op)


def r_ms(p, op):
    if op["op"] in ("call", "put"):
        return ref.ms(_z(op["op"] == "call"), *[p[k] for k in ("Pt", "FT", "K", "t", "T", "sigmaS", "sigmaE", "sigmaF", "rhoSE", "rhoSF", "rhoEF", "KappaE", "KappaF")]), 5e-7 * (np.asarray(p["FT"], float) + np.asarray(p["K"], float))
    return None


def r_rgw(p, op):
    if op["op"] == "call":
        return ref.rgw(*[p[k] for k in ("S", "K", "t", "td", "r", "D", "sigma")]), 1e-6 * (p["S"] + p["K"])
    if op["op"] == "is_call_optimal":
        return None
    return None


def r_baw(p, op):
    if op["op"] in ("call", "put"):
        return ref.baw(_z(op["op"] == "call"), *[p[k] for k in A1]), 5e-6 * (p["S"] + p["K"])
    return None


def r_bs(p, op):
    if op["op"] in ("call", "put"):
        v, I = ref.bs93(_z(op["op"] == "call"), *[p[k] for k in A1])
        return {"OptionPrice": v, "TriggerPrice": I}, 2e-6 * (p["S"] + p["K"])
    return None


def r_tree(kind):
    def f(p, op):
        if op["op"] in ("call", "put"):
            z = _z(op["op"] == "call")
            a = [p[k] for k in A1] + [p["type"], p["n"]]
            lv = ref.tritree(z, *a) if kind == "TRI" else ref.bitree(kind, z, *a)
            tol = 1e-8 * (p["S"] + p["K"] + float(np.max(np.abs(lv[-1]))))
            if op.get("tree"):
                return (ref.tritree_matrix(lv) if kind == "TRI" else ref.bitree_matrix(lv)), tol
            return float(lv[0][0]), tol
        return None
    return f


class TwoTree:
    """a two-asset tree: the cell (j, i) of the matrix holds the value of the first step that reaches it"""

    def __init__(self, lv):
        self.lv = lv

    def __repr__(self):
        return f"root {float(self.lv[0][0, 0])!r}"

    def same(self, got, tol):
        got = np.asarray(got, float)
        n = len(self.lv) - 1
        if got.ndim != 2 or min(got.shape) < n + 1:
            return False
        sc = max(float(np.max(np.abs(v))) for v in self.lv) + 1
        return all(abs(got[j, i] - self.lv[max(i, j)][j, i]) <= tol * sc for i in range(n + 1) for j in range(n + 1))


def r_two(option=None):
    def f(p, op):
        if op["op"] in ("call", "put") and not op.get("tree"):
            kw = {k: p[k] for k in ("S1", "S2", "t", "r", "b1", "b2", "sigma1", "sigma2", "rho", "K", "Q1", "Q2", "otype", "n")}
            lv = ref.rubinstein(_z(op["op"] == "call"), K2=p.get("K2"), option=option or p["option"], **kw)
            return float(lv[0][0, 0]), 1e-8 * (abs(p["K"]) + p["S1"] + p["S2"] + float(np.max(np.abs(lv[-1]))))
        if op["op"] in ("call", "put"):
            kw = {k: p[k] for k in ("S1", "S2", "t", "r", "b1", "b2", "sigma1", "sigma2", "rho", "K", "Q1", "Q2", "otype", "n")}
            return TwoTree(ref.rubinstein(_z(op["op"] == "call"), K2=p.get("K2"), option=option or p["option"], **kw)), 1e-8
        return None
    return f


def r_spa(p, op):
    if op["op"] in ("call", "put"):
        a = [p[k] for k in ("S1", "S2", "K", "t", "r", "b1", "b2", "sigma1", "sigma2", "rho", "Q1", "Q2")]
        return ref.spread_approx(_z(op["op"] == "call"), *a), 1e-6 * (p["Q1"] * p["S1"] + p["Q2"] * p["S2"] + p["K"])
    return None


def r_hn(p, op):
    if op["op"] in ("call", "put", "delta", "gamma"):
        c, q, d, g = ref.hn(*[p[k] for k in ("S", "K", "t", "r", "lamb", "omega", "alpha", "beta", "gamma")])
        sc = p["S"] + p["K"]
        if op["op"] == "call":
            return c, 1e-6 * sc
        if op["op"] == "put":
            return q, 1e-6 * sc
        if op["op"] == "delta":
            return d - (0 if op.get("call", True) else 1), 1e-5
        return g, 1e-4 * abs(g) + 1e-4 / p["S"]
    return None


# ---------------------------------------------------------------- operations
def _both(*names, **kw):
    return [dict(op=n, call=c, **kw) for n in names for c in (True, False)]


PRICES = [{"op": "call"}, {"op": "put"}]
TREES = PRICES + [{"op": "call", "tree": True}, {"op": "put", "tree": True}]
TEXT = [{"op": "summary"}, {"op": "str"}, {"op": "repr"}, {"op": "get_params"}]
GB = PRICES + _both("delta", "theta", "rho", "lamb", "c_of_c", "greeks") + [{"op": "vega"}, {"op": "gamma"}]
GB_FDM = _both("delta", "theta", "lamb", method="fdm") + [{"op": "vega", "method": "fdm"}, {"op": "gamma", "method": "fdm"}]
FDM = _both("delta", "theta", "rho", "lamb", "greeks") + [{"op": "vega"}, {"op": "gamma"}]
VOL = [{"op": "volatility", "call": True, "f": 0.9}, {"op": "volatility", "call": False, "f": 1.1},
       {"op": "volatility", "call": True, "f": 1.04, "opts": {"verbose": True}}, {"op": "volatility", "call": False, "f": 0.97, "opts": {"tol": 1e-9, "maxiter": 700, "verbose": True}},
       {"op": "volatility", "call": True, "f": 1.0, "opts": {"tol": 1e-9}}]


class Spec:
    def __init__(self, key, path, gen, rf, ops, slow=(), alias=None, family="", set_=True, plot=False, arrays=(), sigma_none=None, exercise=None, putless=False, names=None):
        self.key, self.path, self.gen, self.ref, self.ops = key, path, gen, rf, ops
        self.slow, self.alias, self.family, self.settable, self.plot = list(slow), alias or {}, family, set_, plot
        self.arrays, self.sigma_none, self.exercise, self.putless = arrays, sigma_none, exercise, putless

    @property
    def cls(self):
        o = env.fo
        for part in self.path.split("."):
            o = getattr(o, part)
        return o

    @property
    def cname(self):
        return self.path.split(".")[-1]

    def build(self, params):
        p = {k: v for k, v in params.items() if not (self.key == "B76" and k == "b")}
        return self.cls(**p)

    def reported(self, params):
        """what get_params() should say for these constructor parameters"""
        if self.key == "B76":
            return {"FT": params["FT"], "K": params["K"], "t": params["t"], "r": params["r"], "b": 0, "sigma": params["sigma"]}
        return dict(params)


_E = ("S", "K", "t", "r", "b", "sigma")
SPECS = [
    Spec("GBS", "GBSOption", g_euro, r_euro, GB + TEXT, GB_FDM + VOL + _both("rho", method="fdm"), arrays=_E, sigma_none="sigma"),
    Spec("BLS", "BlackScholesOption", g_euro, r_euro, GB + TEXT, GB_FDM + VOL, arrays=_E, sigma_none="sigma"),
    Spec("B76", "Black76Option", g_b76, r_b76, GB + TEXT, GB_FDM + VOL + _both("rho", method="fdm"), alias={"S": "FT"}, arrays=("FT", "K", "t", "r", "sigma"), sigma_none="sigma"),
    Spec("MS", "MiltersenSchwartzOption", g_ms, r_ms, PRICES + TEXT, _both("delta", "theta", "lamb", "greeks") + [{"op": "vega"}, {"op": "gamma"}], arrays=("FT", "K", "sigmaS")),
    Spec("RGW", "basic_american_options.RollGeskeWhaleyOption", g_rgw, r_rgw, [{"op": "call"}, {"op": "is_call_optimal"}] + TEXT,
         [{"op": n} for n in ("delta", "theta", "vega", "rho", "lamb", "gamma", "greeks")] + [{"op": "volatility", "call": True, "f": 0.9, "nocall": True}, {"op": "volatility", "call": True, "f": 1.02, "nocall": True, "opts": {"verbose": True}}], putless=True, sigma_none="sigma"),
    Spec("BAW", "basic_american_options.BAWAmericanApproxOption", g_baw, r_baw, PRICES + TEXT, FDM, sigma_none="sigma"),
    Spec("BS93", "basic_american_options.BSAmericanApproxOption", g_euro, r_bs, PRICES + TEXT, FDM, sigma_none="sigma"),
    Spec("CRR", "binomial_tree_options.CRRBinomialTreeOption", g_tree, r_tree("CRR"), TREES + TEXT, FDM, plot=True, exercise="type", sigma_none="sigma"),
    Spec("JR", "binomial_tree_options.JRBinomialTreeOption", g_tree, r_tree("JR"), TREES + TEXT, FDM, plot=True, exercise="type", sigma_none="sigma"),
    Spec("TIAN", "binomial_tree_options.TIANBinomialTreeOption", g_tree, r_tree("TIAN"), TREES + TEXT, FDM, plot=True, exercise="type", sigma_none="sigma"),
    Spec("TRI", "binomial_tree_options.TrinomialTreeOption", g_tree, r_tree("TRI"), TREES + TEXT, FDM, plot=True, exercise="type", sigma_none="sigma"),
    Spec("ALL", "spread_options.BionomialSpreadAllTypes", g_all, r_two(), TREES + TEXT, FDM, exercise="otype"),
    Spec("MAX", "spread_options.BionomialMaxOption", g_fixed(2), r_two(2), TREES + TEXT, FDM, exercise="otype"),
    Spec("MIN", "spread_options.BionomialMinOption", g_fixed(3), r_two(3), TREES + TEXT, FDM, exercise="otype"),
    Spec("SPR", "spread_options.BionomialSpreadOption", g_fixed(1), r_two(1), TREES + TEXT, FDM, exercise="otype"),
    Spec("SPA", "spread_options.SpreadApproxOption", g_spa, r_spa, PRICES + TEXT, FDM),
    Spec("HN", "heston_nandi_options.HestonNandiOption", g_hn, r_hn, PRICES + [{"op": "delta", "call": True}, {"op": "delta", "call": False}, {"op": "gamma"}], set_=False),
]
BY = {s.key: s for s in SPECS}
SETTABLE = [s.key for s in SPECS if s.settable]
TREEKEYS = [s.key for s in SPECS if s.plot]


# ---------------------------------------------------------------- values <-> JSON
def dec(v):
    if isinstance(v, dict):
        if "arr" in v:
            a = np.array(v["arr"], dtype=v.get("dtype", float))
            if "shape" in v and a.size == math.prod(v["shape"]):
                a = a.reshape(v["shape"])
            if v.get("ro"):
                a.setflags(write=False)
            return a
        if "np" in v:
            return np.float64(v["np"])
        if "np0" in v:
            return np.array(v["np0"])
        if "str" in v:
            return v["str"]
    return v


def dec_params(p):
    return {k: dec(v) for k, v in p.items()}


def query(opt, op):
    """run one read-only operation on an option"""
    n = op["op"]
    if n in ("call", "put"):
        return getattr(opt, n)(tree=True) if op.get("tree") else getattr(opt, n)()
    if n == "str":
        return str(opt)
    if n == "repr":
        return repr(opt)
    if n == "summary":
        return opt.summary(printer=False)
    if n == "volatility":
        kw = {} if op.get("nocall") else {"call": op.get("call", True)}
        v = opt.volatility(dec(op["price"]), **kw, **op.get("opts", {}))
        return (v.x if hasattr(v, "x") else v.root) if op.get("opts", {}).get("verbose") else v
    kw = {}
    if "call" in op:
        kw["call"] = op["call"]
    if "method" in op:
        kw["method"] = op["method"]
    return getattr(opt, n)(**kw)


def opname(op):
    return op["op"] + "".join(f",{k}={op[k]}" for k in ("call", "tree", "method", "opts") if k in op)


def canon(x):
    """a plain, picklable picture of a result"""
    if isinstance(x, dict):
        return {"dict": [(str(k), canon(v)) for k, v in x.items()]}
    if isinstance(x, (list, tuple)):
        return {"seq": [canon(v) for v in x]}
    if isinstance(x, np.ndarray):
        if x.shape == ():
            return float(x)
        return x.copy()
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return float(x)
    if x is None or isinstance(x, str):
        return x
    return f"<{type(x).__name__}>"


def same(a, b, rtol=1e-9, atol=0.0):
    if isinstance(a, dict) and isinstance(b, dict):
        if "dict" in a and "dict" in b:
            x, y = dict(a["dict"]), dict(b["dict"])
            return list(x) == list(y) and all(same(x[k], y[k], rtol, atol) for k in x)
        if "seq" in a and "seq" in b:
            return len(a["seq"]) == len(b["seq"]) and all(same(p, q, rtol, atol) for p, q in zip(a["seq"], b["seq"]))
        return False
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype.kind not in "fiub" or b.dtype.kind not in "fiub":
            return a.shape == b.shape and bool(np.all(a == b))
        if a.size == 1 and b.size == 1:
            return same(float(a.ravel()[0]), float(b.ravel()[0]), rtol, atol)
        if a.shape != b.shape:
            return False
        sc = float(np.max(np.abs(b[np.isfinite(b)]))) if np.any(np.isfinite(b)) else 0.0
        return bool(np.allclose(a, b, rtol=rtol, atol=max(atol, rtol * sc), equal_nan=True))
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, float) and isinstance(b, float):
        return (a != a and b != b) or a == b or abs(a - b) <= max(atol, rtol * max(abs(a), abs(b)))
    return a == b


def evaluate(key, params, op):
    """build a fresh option and query it: (outcome, canonical value)"""
    try:
        opt = BY[key].build(dec_params(params))
        return "ok", canon(query(opt, op))
    except Exception as e:       # noqa: BLE001
        return "exc", type(e).__name__


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


# ---------------------------------------------------------------- reference greeks by finite differences
TWO = ("ALL", "MAX", "MIN", "SPR", "SPA")
ANALYTIC = ("GBS", "BLS", "B76")


def _wrt(key, name):
    """the parameters a greek differentiates by, and how the result is packed"""
    if key in TWO:
        return {"delta": ("S1", "S2"), "gamma": ("S1", "S2"), "lamb": ("S1", "S2"), "vega": ("sigma1", "sigma2"), "theta": ("t",), "rho": ("r",)}[name], name not in ("theta", "rho")
    if key == "MS" and name == "vega":
        return ("sigmaS", "sigmaE", "sigmaF"), False
    u = "FT" if key in ("MS", "B76") else "S"
    return {"delta": (u,), "gamma": (u,), "lamb": (u,), "vega": ("sigma",), "theta": ("t",), "rho": ("r",)}[name], False


def _price(spec, p, call):
    v = spec.ref(p, {"op": "call" if call else "put"})[0]
    return float(v["OptionPrice"] if isinstance(v, dict) else v)


class Slope:
    """a derivative of the reference price, and the finite-difference estimates that count as right"""

    def __init__(self, spec, p, name, call, x):
        self.n = n = 2 if name == "gamma" else 1
        kw = {"n": n}
        if name == "theta":
            kw["step"] = 1 / 252
        if name == "vega" and spec.key in ("BAW", "BS93"):
            kw["step"] = p[x] / 10

        def f(v):
            try:
                return _price(spec, {**p, x: float(v)}, call)
            except Exception:       # noqa: BLE001  outside the domain of the reference
                return math.nan
        x0 = float(p[x])
        self.sign = -1.0 if name == "theta" else 1.0
        self.mult = 1.0
        with np.errstate(all="ignore"):
            import numdifftools as nd
            self.value = float(nd.Derivative(np.vectorize(f, otypes=[float]), **kw)(x0))
            est = []
            base = max(abs(x0), .05)
            for h in [base * q for q in (.1, .03, .01, 3e-3, 1e-3) if q * base < abs(x0) or x == "r"] + ([1 / 252] if name == "theta" and x0 > 1 / 252 else []):
                est.append((f(x0 + h) - f(x0 - h)) / (2 * h) if n == 1 else (f(x0 + h) - 2 * f(x0) + f(x0 - h)) / h ** 2)
        est = [e for e in est if math.isfinite(e)]
        self.est = est
        sc = abs(_price(spec, p, call)) + sum(abs(float(p[q])) for q in ("S", "FT", "S1", "S2", "K") if p.get(q) is not None) * 1e-2
        self.noise = 1e-4 * sc / base ** n
        self.rel = 1e-5
        if spec.key == "BAW":           # the critical price is searched with a tolerance of its own
            self.rel, self.noise = 5e-3, 10 * self.noise

    def ok(self, got):
        """None when there is nothing to say"""
        got = float(got)
        want = self.sign * self.value * self.mult
        tol = abs(self.mult) * (self.rel * max([abs(e) for e in self.est] + [0.0]) + self.noise)
        if not math.isfinite(got):
            return None
        if math.isfinite(want) and abs(got - want) <= tol:
            return True
        if not self.est:
            return None
        e = [self.sign * self.mult * q for q in self.est]
        w = 1.0 * (max(e) - min(e)) + 10 * tol
        if math.isfinite(want) and not min(e) - w <= want <= max(e) + w:
            return None             # the method itself fails here: its steps are longer than the price is smooth
        return min(e) - w <= got <= max(e) + w

    @property
    def want(self):
        return self.sign * self.mult * (self.value if math.isfinite(self.value) else (self.est[-1] if self.est else math.nan))


def _slopes(spec, p, name, call):
    names, packed = _wrt(spec.key, name)
    out = []
    for x in names:
        s = Slope(spec, p, "delta" if name == "lamb" else name, call if name in ("delta", "theta", "rho", "lamb") else True, x)
        if name == "lamb":
            s.mult = float(p[x]) / _price(spec, p, call)
        out.append((x, s))
    return out, packed


def check_fdm(spec, p, name, call, got):
    """(ok, expected) or None"""
    if spec.key == "RGW" and name == "theta" and p["t"] - p["td"] < 3 / 252:
        return None         # a step takes the maturity before the dividend
    ss, packed = _slopes(spec, p, name, call)
    if name == "lamb" and not abs(_price(spec, p, call)) > 1e-6 * sum(abs(float(p[q])) for q in ("S", "FT", "S1", "S2", "K") if p.get(q) is not None):
        return None
    if packed:
        g = dict(got["dict"]) if isinstance(got, dict) and "dict" in got else {}
        if list(g) != [x for x, _ in ss]:
            return False, [x for x, _ in ss]
        vals = [np.asarray(g[x], float).ravel() for x, _ in ss]
    else:
        vals = list(np.asarray(got, float).ravel().reshape(-1, 1))
    if len(vals) != len(ss) or any(v.size != 1 for v in vals):
        return False, f"{len(ss)} numbers"
    res = [s.ok(v[0]) for v, (_, s) in zip(vals, ss)]
    if all(r is None for r in res):
        return None
    return all(r is not False for r in res), [s.want for _, s in ss]


def check_more(spec, p, op, got):
    """greeks by finite differences, greeks dictionaries, implied volatilities, exercise decisions; None if there is nothing to say"""
    name, call, key = op["op"], op.get("call", True), spec.key
    if key == "HN":
        return None
    if any(isinstance(v, np.ndarray) and v.size > 1 for v in p.values()):
        if not (name == "volatility" and key in ANALYTIC) and not (name == "greeks" and key in ANALYTIC):
            return None
    if name == "volatility":
        v = np.asarray(got, float)
        q = {**p, "sigma": v if key in ANALYTIC else float(v.ravel()[0])}
        w, tol = spec.ref(q, {"op": "call" if call else "put"})
        t = np.asarray(dec(op["price"]), float)
        lo = np.asarray(spec.ref({**q, "sigma": np.zeros_like(v) + 2e-3 if key in ANALYTIC else 2e-3}, {"op": "call" if call else "put"})[0], float)
        hi = np.asarray(spec.ref({**q, "sigma": np.zeros_like(v) + 4.0 if key in ANALYTIC else 4.0}, {"op": "call" if call else "put"})[0], float) if key in ANALYTIC else math.inf
        try:
            if np.any(lo + tol > t) or np.any(hi - tol < t):
                return None         # no volatility gives that price
            return bool(np.all(np.abs(np.asarray(w, float) - t) <= np.maximum(tol, 1e-6 * np.abs(t)))), {"price at that volatility": w}
        except ValueError:
            return None
    if name == "is_call_optimal":
        lim = p["K"] * (1 - math.exp(-p["r"] * (p["t"] - p["td"])))
        if abs(p["D"] - lim) < 1e-9 * p["K"]:
            return None
        return bool(got) == (p["D"] > lim), p["D"] > lim
    if name == "greeks":
        g = dict(got["dict"]) if isinstance(got, dict) and "dict" in got else {}
        want = {"MS": ["delta", "theta", "vega", "lambda", "gamma"]}.get(key, ["delta", "theta", "vega", "rho", "lambda", "gamma"] + (["CofC"] if key in ANALYTIC else []))
        if set(g) != set(want):
            return False, want
        said = False
        for n in want:
            one = {"op": {"lambda": "lamb", "CofC": "c_of_c"}.get(n, n), "call": call}
            r = check_one(spec, p, one, g[n])
            if r is not None:
                said = True
                if not r[0]:
                    return False, {n: r[1]}
        return (True, None) if said else None
    if name in ("delta", "theta", "vega", "rho", "lamb", "gamma") and (key not in ANALYTIC or op.get("method") == "fdm"):
        if key == "RGW" and p["td"] >= p["t"] - 1 / 200:
            return None
        return check_fdm(spec, p, name, call, got)
    if name == "repr":
        return check_repr(spec, p, got)
    return None


def check_repr(spec, p, got):
    want = [v for v in spec.reported(p).values()]
    if any(isinstance(v, np.ndarray) and v.ndim for v in want):
        return None
    if not (isinstance(got, str) and got.endswith(")") and "(" in got):
        return False, "Name(values)"
    parts = got[got.index("(") + 1:-1].split(", ")
    text = [str(v) for v in want]

    def eq(a, b):
        try:
            return float(a) == float(b)
        except ValueError:
            return a.strip("'\"") == b
    left = list(parts)
    for b in text:
        a = next((a for a in left if eq(a, b)), None)
        if a is None:
            return False, text
        left.remove(a)
    return not left, text


def check_one(spec, p, op, got):
    r = check_more(spec, p, op, got)
    if r is not None:
        return r
    r = spec.ref(p, op)
    if r is None or isinstance(r[0], dict):
        return None
    return _close(got, *r), r[0]


def check_ref(spec, params, op, value, scalar_only=True):
    """(ok, expected) against the independent reference model; None if the model has no opinion"""
    p = dec_params(params)
    if any(v is None or isinstance(v, str) and k not in ("type", "otype") for k, v in p.items() if k not in ("K2",) and not (k == "sigma" and op["op"] == "volatility")):
        return None
    try:
        r = check_more(spec, p, op, value)
        if r is not None:
            return r
        r = spec.ref(p, op)
    except Exception:            # noqa: BLE001  outside the domain of the reference
        return None
    if r is None:
        return None
    want, tol = r
    got = value
    if isinstance(want, dict):
        g = dict(got["dict"]) if isinstance(got, dict) and "dict" in got else {}
        return (list(want) == list(g) and all(_close(g[k], want[k], tol) for k in want)), want
    return _close(got, want, tol), want


def _close(g, w, tol):
    if isinstance(w, TwoTree):
        return w.same(g, tol)
    try:
        g = np.asarray(g, float)
        w = np.asarray(w, float)
    except (TypeError, ValueError):
        return False
    if g.size == 1 and w.size == 1:
        g, w = g.ravel(), w.ravel()
    if g.shape != w.shape:
        return False
    both_nan = np.isnan(g) & np.isnan(w)
    with np.errstate(all="ignore"):
        return bool(np.all(both_nan | (np.abs(g - w) <= tol) | (g == w)))


def snapshot_opt(opt):
    return canon(opt.get_params()) if hasattr(opt, "get_params") else None


def clone(opt, how):
    if how == "copy":
        return opt.copy()
    if how == "deepcopy":
        return _copy.deepcopy(opt)
    if how == "shallow":
        return _copy.copy(opt)
    if how.startswith("pickle"):
        return pickle.loads(pickle.dumps(opt, protocol=int(how[6:] or pickle.HIGHEST_PROTOCOL)))
    raise ValueError(how)
