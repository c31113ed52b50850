"""Shared by the GARCH properties: parameters and innovations of simulations."""
import math

import numpy as np

from . import catalog as C


def gen_params(R, lam=None):
    p = C.g_hn(R)
    q = {k: p[k] for k in ("lamb", "omega", "alpha", "beta", "gamma")}
    if R.random() < .25 and q["gamma"]:
        q["gamma"] = -q["gamma"]
    pers = q["beta"] + q["alpha"] * q["gamma"] ** 2
    if pers > .97:
        q["beta"] = max(0.0, C.rnd(q["beta"] - (pers - .9)))
        pers = q["beta"] + q["alpha"] * q["gamma"] ** 2
        if pers > .97:
            q["gamma"] = 0.0
    q["rf"] = C.rnd(R.uniform(-.0005, .0008)) if R.random() < .7 else 0
    return q


def rescale(p, c):
    """the same dynamics for returns whose variance is c times as large"""
    for x in ("omega", "alpha"):
        p[x] = C.rnd(p[x] * c)
    p["gamma"] = C.rnd(p["gamma"] / math.sqrt(c))
    pers = p["beta"] + p["alpha"] * p["gamma"] ** 2
    if not pers < .999:
        p["gamma"] = 0.0
    return p


KINDS = ["float", "float", "float", "int", "float32", "list", "intlist", "readonly", "strided", "bigendian", "object-ints"]


def innovations(seed, tag, n, kind, tail=None):
    """the caller's innovations object for this kind, and its float values"""
    rng = np.random.default_rng([seed, tag])
    z = rng.normal(size=n)
    if tail and n:
        z[tail[0] % n] = tail[1]
    if kind in ("int", "intlist", "object-ints"):
        z = np.rint(z * 1.5)
    if kind == "float32":
        a = z.astype(np.float32)
        return a, a.astype(float)
    if kind == "int":
        return z.astype(np.int64), z
    if kind == "intlist":
        return [int(v) for v in z], z
    if kind == "object-ints":
        return z.astype(np.int8), z
    if kind == "list":
        return [float(v) for v in z], z
    if kind == "readonly":
        a = z.copy()
        a.setflags(write=False)
        return a, z
    if kind == "strided":
        b = np.zeros(3 * n)
        b[::3] = z
        return b[::3], z
    if kind == "bigendian":
        return z.astype(">f8"), z
    return z.copy(), z


def copy_of(a):
    return list(a) if isinstance(a, list) else (a.copy() if a is not None else None)


def intact(a, c):
    if a is None:
        return True
    if isinstance(a, list):
        return len(a) == len(c) and all(type(x) is type(y) and x == y for x, y in zip(a, c))
    return a.dtype == c.dtype and a.shape == c.shape and np.array_equal(a, c)


def state_eq(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


def same_series(x, w):
    x = np.asarray(x)
    if x.dtype.kind != "f" or x.shape != w.shape:
        return False
    sc = float(np.max(np.abs(w))) if w.size else 0.0
    return bool(np.all(np.isfinite(x)) and np.allclose(x, w, rtol=1e-8, atol=1e-10 * sc))
