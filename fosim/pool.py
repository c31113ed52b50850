"""Histories over a pool of options: generation of options, siblings and parameter changes."""
import math

import numpy as np

from . import catalog as C
from .catalog import BY, lg, rnd

CHEAP = ["GBS", "BLS", "B76", "MS", "BAW", "BS93", "CRR", "JR", "TIAN", "TRI", "ALL", "MAX", "MIN", "SPR", "SPA", "RGW"]
WEIGHT = ["GBS", "GBS", "BLS", "B76", "B76", "MS", "MS", "RGW", "BAW", "BS93", "CRR", "CRR", "JR", "TIAN", "TRI", "ALL", "ALL", "MAX", "MIN", "SPR", "SPA", "SPA"]
SCALE = {"S", "K", "FT", "S1", "S2", "K2", "Q1", "Q2", "D", "Pt"}


def gen_params(R, key, arrays=True, none=True):
    spec = BY[key]
    p = spec.gen(R)
    while slow_search(key, p):
        p = spec.gen(R)
    if arrays and spec.arrays and R.random() < .3:
        m = R.choice([1, 2, 3, 5, 5, 8])
        names = R.sample(list(spec.arrays), R.choice([1, 1, 2, len(spec.arrays)]))
        for n in names:
            p[n] = {"arr": [rnd(p[n] * math.exp(R.uniform(-.2, .2))) for _ in range(m)]}
        fancy(R, p, m)
    if R.random() < .2:
        relate(R, key, p)
    if none and spec.sigma_none and R.random() < .05:
        p[spec.sigma_none] = None
    return p


def fancy(R, p, m):
    """arrays as users have them: read-only, whole numbers, two-dimensional"""
    arrs = [n for n in p if isinstance(p[n], dict)]
    x = R.random()
    if x < .12:
        for n in arrs:
            p[n]["ro"] = True
    elif x < .24:
        for n in arrs:
            if n in ("S", "K", "FT") and min(p[n]["arr"]) >= 10:
                p[n] = {"arr": [round(v) for v in p[n]["arr"]], "dtype": "i8"}
    elif x < .34 and m % 2 == 0:
        for n in arrs:
            p[n]["shape"] = R.choice([[2, m // 2], [m // 2, 2]]) if n == arrs[0] else p[arrs[0]]["shape"]


def relate(R, key, p):
    """exact coincidences between parameters, and round values"""
    def put(n, v):
        if n in p and v is not None and not isinstance(v, dict) and not isinstance(p[n], dict):
            p[n] = v
    two = "S1" in p
    what = R.sample(["atm", "rho", "atm", "assets", "carry", "sigma", "year", "zero-r", "strikes", "whole"], R.choice([1, 1, 2]))
    for w in what:
        if w == "atm" and not two:
            put("K", p.get("S", p.get("FT")))
        elif w == "rho":
            put("rho", 0.0)
        elif w == "assets" and two:
            put("S2", p["S1"])
            put("Q2", p.get("Q1"))
        elif w == "carry" and two:
            put("b1", R.choice([p["r"], 0.0]))
            put("b2", p["b1"])
        elif w == "sigma" and two:
            put("sigma2", p["sigma1"])
        elif w == "year":
            put("t", R.choice([1.0, 1, 2, 3]))
            put("sigma", .2)
        elif w == "zero-r" and key in ("GBS", "BLS", "B76", "CRR", "JR", "TIAN", "TRI", "ALL", "MAX", "MIN", "SPA"):
            put("r", R.choice([0.0, 0.0, rnd(R.uniform(-.03, 0))]))
            if R.random() < .5:
                put("b", p["r"])
        elif w == "strikes":
            put("K2", p.get("K"))
        elif w == "whole":
            for n in ("S", "K", "FT", "S1", "S2", "K2", "Q1", "Q2"):
                if isinstance(p.get(n), float) and p[n] >= (10 if n[0] != "Q" else .6):
                    p[n] = R.choice([float, int])(round(p[n]))
    if key == "MS":
        p["T"] = max(p["T"], rnd(p["t"] + .05)) if not isinstance(p["t"], dict) else p["T"]
    if key == "RGW":
        p["td"] = min(p["td"], rnd(p["t"] * .9)) if not isinstance(p["t"], dict) else p["td"]


def lengthen(R, key, p):
    """make one parameter a long array (summaries abbreviate those)"""
    spec = BY[key]
    if not spec.arrays:
        return
    n = R.choice(list(spec.arrays))
    base = p[n]["arr"][0] if isinstance(p[n], dict) else p[n]
    if base is not None:
        for q in list(p):
            if isinstance(p[q], dict):
                p[q] = p[q]["arr"][0]
        m = R.randint(6, 12)
        p[n] = {"arr": [rnd(base * R.uniform(.8, 1.25)) for _ in range(m)]}


def widen(R, key, p):
    """move to the edges of the usual domain: far strikes, short and long lives, low and high volatilities, deep trees"""
    def mul(n, lo, hi, least=None, most=None):
        if isinstance(p.get(n), float):
            v = p[n] * math.exp(R.uniform(lo, hi))
            p[n] = rnd(min(max(v, least or 0.0), most or math.inf))
    for f in R.sample([lambda: mul("K", -.9, .9), lambda: mul("t", -2.0, .7, .01, 4.0), lambda: [mul(n, -.7, .7, .05, 1.2) for n in ("sigma", "sigma1", "sigma2")],
                       lambda: mul("n", 0, 0), lambda: mul("Q1", -.8, .8), lambda: mul("Q2", -.8, .8)], 3):
        f()
    if key != "RGW" and R.random() < .4:        # another unit of money
        least = min((x for n in ("S", "K", "FT", "S1", "S2") for x in (p[n]["arr"] if isinstance(p.get(n), dict) else [p.get(n)]) if x and x > 0))
        u = max(math.exp(R.choice([R.uniform(-6, -3), R.uniform(-4, 3)])), .4 / least)     # difference steps are not meant for less
        for n in ("S", "K", "FT", "S1", "S2", "K2"):
            if isinstance(p.get(n), dict):
                p[n] = {"arr": [rnd(x * u) for x in p[n]["arr"]]}
            elif p.get(n) is not None and not (key == "ALL" and n == "K" and p.get("option") == 8):
                p[n] = rnd(p[n] * u * (u if key == "ALL" and n == "K" and p.get("option") == 9 else 1))
    if key == "RGW":
        p["td"] = rnd(p["t"] * R.uniform(.05, .97))
        p["D"] = rnd(p["S"] * R.uniform(.0005, .2))
    if key == "MS":
        p["T"] = rnd(p["t"] + R.choice([R.uniform(0.01, .1), R.uniform(.05, 2)]))
    if "n" in p:
        p["n"] = R.choice([R.randint(8, 40)] * 12 + [50, 64, 64, R.randint(65, 100)]) if key in ("CRR", "JR", "TIAN", "TRI") else R.randint(4, 14)


def slow_search(key, p):
    """the search for a call's critical price takes extremely many rounds when b is just below r and the life is short"""
    if key != "BAW" or any(not isinstance(p[n], (int, float)) for n in ("r", "b", "t")) or not p["t"] > 0:
        return False
    return 0 < p["r"] - p["b"] and (p["r"] - p["b"]) * math.sqrt(p["t"]) < .015


def change(R, key, p, only=None):
    for _ in range(8):
        n, v = _change(R, key, p, only)
        if not slow_search(key, {**p, n: dec_number(v)}):
            return n, v
    return n, p[n]


def dec_number(v):
    return C.dec(v) if isinstance(v, dict) and "arr" not in v else v


def _change(R, key, p, only=None):
    """(name, value): one valid-looking parameter change"""
    spec = BY[key]
    names = [n for n in p if not (n == "K2" and key != "ALL")]
    n = only or R.choice(names)
    cur = p[n]
    if R.random() < .1:
        return n, cur                       # set to what it is
    if n in ("S", "K", "FT") and R.random() < .12 and all(not isinstance(p.get(x), dict) and p.get(x) for x in ("S", "K", "FT") if x in p) \
            and sum(x in p for x in ("S", "K", "FT")) > 1:
        return n, p[next(x for x in ("K", "S", "FT") if x in p and x != n)]      # exactly at the money
    fresh = spec.gen(R)
    if n in ("type", "otype", "option", "n"):
        v = fresh[n]
    elif n in ("r", "b", "b1", "b2", "rho", "rhoSE", "rhoSF", "rhoEF"):
        v = fresh[n]
    else:
        base = cur if isinstance(cur, float) else fresh[n]
        if n == "K2" or base is None:
            base = fresh[n]
        if n in ("t", "sigma", "sigma1", "sigma2", "sigmaS", "sigmaE", "sigmaF", "KappaE", "KappaF"):
            f = math.exp(R.uniform(-.5, .5))
        elif n == "td":
            f = R.uniform(.6, 1.05)
        elif n == "T":
            f = R.uniform(1.0, 1.5) if R.random() < .8 else R.uniform(.3, 1.0)
        elif n == "Pt":
            f = R.uniform(.97, 1.0)
        else:
            f = math.exp(R.gauss(0, .15))
        if R.random() < .15:
            f = 1 + R.choice([-1, 1]) * 10.0 ** -R.randint(3, 9)
        v = float(f"%.{12}g" % (base * f)) if abs(f - 1) < 2e-3 else rnd(base * f)
        if n in ("S", "K", "FT") and R.random() < .1:
            v = int(round(v)) or 1
        elif R.random() < .08:
            v = {R.choice(["np", "np0"]): v}
        elif spec.arrays and n in spec.arrays and R.random() < .15:
            ms = [len(x["arr"]) for x in p.values() if isinstance(x, dict) and "arr" in x]
            m = R.choice(ms) if ms else R.choice([1, 2, 3])
            v = {"arr": [rnd(base * math.exp(R.uniform(-.2, .2))) for _ in range(m)]}
            like = [x["shape"] for x in p.values() if isinstance(x, dict) and "shape" in x]
            if like and m == math.prod(like[0]):
                v["shape"] = like[0]
    if n == spec.sigma_none and R.random() < .06:
        v = None
    return n, v


FAMILIES = [("GBS", "BLS", "BAW", "BS93"), ("CRR", "JR", "TIAN", "TRI"), ("MAX", "MIN", "SPR")]


def family(key):
    return next((f for f in FAMILIES if key in f), (key,))


def hn_near(q):
    """stationary, and the strike within a few standard deviations: elsewhere the integrator itself is inaccurate"""
    gs = q["gamma"] + q["lamb"] + .5
    pers = q["beta"] + q["alpha"] * gs * gs
    return pers < .95 and abs(math.log(q["K"] / q["S"])) < 2.7 * math.sqrt((q["omega"] + q["alpha"]) / (1 - pers) * q["t"])


def vary(R, key, p, n):
    """another sensible value for parameter n, or None"""
    spec = BY[key]
    if key == "HN":
        if n == "t":
            v = R.choice([x for x in (p["t"] // 2, p["t"] - 1, p["t"] + 1, 2 * p["t"], p["t"] + 5) if 0 < x <= 30 and x != p["t"]])
            return v if hn_near({**p, n: v}) else None
        f = R.choice([.5, .8, 1.25, 2.0])
        if n == "lamb" and R.random() < .6:
            v = rnd(p[n] + R.uniform(-25, 25))
            return v if hn_near({**p, n: v}) else None
        v = rnd(p[n] * (R.choice([.97, 1.02]) if n == "K" else f), 8) if p[n] else {"gamma": 40.0, "r": 1e-4, "lamb": .3}.get(n, 0.0)
        q = {**p, n: v}
        return v if hn_near(q) else None
    for _ in range(6):
        m, v = change(R, key, p, only=n)
        if v != p[n] and not isinstance(v, dict) and v is not None:
            return v
    return None


def sweep(R, key, p, most=9):
    """[(class, parameters)] of options that differ from (key, p) in exactly one parameter or only in their class"""
    out = []
    for n in R.sample(list(p), len(p)):
        v = vary(R, key, p, n)
        if v is not None:
            out.append((key, {**p, n: v}))
    out = out[:most]
    for other in family(key):
        if other != key and R.random() < .5:
            if slow_search(other, p):
                continue
            out.append((other, dict(p)))
    R.shuffle(out)
    return out


def hostile(R, key, p):
    """a change that is likely to be refused"""
    spec = BY[key]
    x = R.random()
    if x < .35:
        return R.choice(["foo", "Sigma", "s", "vol", "kwargs", "_S", "K3", "", "call"]), R.choice([1.0, 100.0, None])
    if key == "B76" and x < .6:
        return "b", R.choice([.05, -.02, {"arr": [.01, .02]}])
    scal = [n for n in p if n not in ("type", "otype", "n", "option")]
    if not spec.arrays and x < .7:
        return R.choice(scal), {"arr": [1.0, 2.0]}
    if x < .85:
        return R.choice([n for n in ("K", "S", "FT", "t", "S1", "r") if n in p]), {"str": "bad"}
    n = R.choice([n for n in ("K", "S", "FT", "t", "r", "S1", "n") if n in p])
    return n, None


def sibling(R, key, p):
    q = dict(p)
    for _ in range(R.choice([1, 1, 1, 2])):
        n, v = change(R, key, q)
        q[n] = v
    return q


def pick_op(R, key, p, slow=.06, vol=True):
    spec = BY[key]
    x = R.random()
    if spec.slow and x < slow:
        ops = spec.slow if vol else [o for o in spec.slow if o["op"] != "volatility"]
        return dict(R.choice(ops))
    return dict(R.choice(spec.ops))


def vol_op(op, price):
    """turn the relative price of a volatility query into an absolute one"""
    if op["op"] != "volatility" or "price" in op:
        return op
    v = np.asarray(price, float) * op["f"]
    d = {k: x for k, x in op.items() if k != "f"}
    d["price"] = {"arr": [float(y) for y in v.ravel()]} if v.ndim else float(v)
    return d


def same_text(a, b):
    """equal up to the last digits of the numbers in it"""
    import re
    if a == b:
        return True
    num = re.compile(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?")
    if num.sub("#", a) != num.sub("#", b):
        return False
    x, y = [float(v) for v in num.findall(a)], [float(v) for v in num.findall(b)]
    return all(abs(p - q) <= 1e-8 * max(abs(p), abs(q)) for p, q in zip(x, y))


def same_answer(a, b, rtol=1e-9):
    """two canonical answers (see catalog.canon) agree"""
    if isinstance(a, str) and isinstance(b, str):
        return same_text(a, b)
    if C.same(a, b, rtol):
        return True
    return False


def same_params(got, want):
    """two parameter dictionaries say the same, in any order"""
    g, w = dict(C.canon(got)["dict"]), dict(C.canon(want)["dict"])
    return set(g) == set(w) and all(C.same(g[x], w[x], 0) for x in w)


def scribble(v, how):
    """what a caller may do to something it was given"""
    if isinstance(v, dict):
        for k in list(v):
            if isinstance(v[k], np.ndarray) and how == "fill" and v[k].flags.writeable:
                pass            # an array inside a parameter dictionary may be the caller's own
            v[k] = -12345.0
        if how == "clear":
            v.clear()
        else:
            v["scribbled"] = 1
        return True
    if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
        v[...] = -12345.0
        return True
    if isinstance(v, list):
        v.clear()
        return True
    return False
