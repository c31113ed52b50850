"""Monte Carlo plug-ins whose every draw is recorded, and the reference accounting of a pricing."""
import math

import numpy as np

from . import env, ref
from .kernel import Violation, make_fault, point

EXACT = 1e-9


class Pricing:
    """what one pricing consumed"""

    def __init__(self, tag):
        self.tag = tag
        self.draws = []       # private copies of the samples handed out
        self.handed = []      # (array handed out, copy) to prove the library left it alone
        self.seen = []        # parameters the plug-ins were given
        self.payoffs = 0


class World:
    """shared by the plug-in classes of one run"""

    def __init__(self, k, seed):
        self.k, self.seed = k, seed
        self.stack = {}       # thread ident -> [Pricing]
        self.count = 0
        self.hooks = {}       # event name -> callable(n) -> may raise
        self.calls = {"draw": 0, "path": 0, "payoff": 0}
        self.points = False
        self.spikes = {}      # draw number -> (flat cell, value)
        self.boost = {}       # payoff-call number -> value put into the first payoff

    def top(self):
        import threading
        st = self.stack.get(threading.get_ident())
        return st[-1] if st else None

    def push(self, p):
        import threading
        self.stack.setdefault(threading.get_ident(), []).append(p)

    def pop(self):
        import threading
        return self.stack[threading.get_ident()].pop()

    def hit(self, what):
        self.calls[what] += 1
        if self.points:
            point(what)
        h = self.hooks.get(what)
        if h:
            h(self.calls[what])


def sample_values(seed, n, shape, shift=0.0):
    return np.random.default_rng([seed, n]).normal(size=shape) + shift


def make_source(world, kind, rows=0, spread=1.0, shift=0.0):
    """an Innovations class: fresh | reuse | readonly | strided | fortran | stale | const-buffer"""
    mco = env.fo.monte_carlo_options

    class Source(mco.Innovations):
        def sample_innovation(self, *a, **kw):
            world.hit("draw")
            n = world.count
            world.count += 1
            shape = (max(1, self.mc_paths + rows), self.path_length)
            v = sample_values(world.seed, n, shape, shift) * spread
            if kind == "int":
                v = np.where(v > 0, 1, -1) * (1 + (np.abs(v) > 1))      # the steps of a random walk
            if n in world.spikes:
                cell, val = world.spikes[n]
                v.flat[cell % v.size] = val
                world.k.fault("draw:spike")
            p = world.top()
            if p is not None and p.handed:
                # the previous sample must still be as it was handed out, before its buffer is used again
                check_handed(p, p.handed[-1])
                if kind in ("reuse", "stale"):
                    p.handed.pop()
            if kind == "reuse":
                buf = self.__dict__.get("_buf")
                if buf is None:
                    buf = self._buf = np.empty(shape)
                buf[...] = v
                out = buf
                world.k.fault("source:buffer-reused")
            elif kind == "readonly":
                out = v.copy()
                out.setflags(write=False)
                world.k.probe("source:read-only")
            elif kind == "strided":
                big = np.zeros((shape[0] * 2, shape[1] * 3))
                big[::2, ::3] = v
                out = big[::2, ::3]
            elif kind == "fortran":
                out = np.asfortranarray(v)
            elif kind == "stale":
                # scribbles over what it handed out before: the library may not keep reading it
                old = self.__dict__.get("_old")
                if old is not None:
                    old[...] = 1e6
                    world.k.fault("source:stale-buffer-scribbled")
                out = v.copy()
                self._old = out
            else:
                out = v.copy()
            if p is not None:
                p.draws.append(v)
                p.handed.append((out, v))
            return out
    if kind == "sobol":
        class Sobol(mco.NormalSobolInnovations):
            def sample_innovation(self, *a, **kw):
                world.hit("draw")
                out = super().sample_innovation(*a, **kw)
                p = world.top()
                if p is not None:
                    p.draws.append(np.array(out, float))
                    p.handed.append((out, p.draws[-1]))
                return out
        return Sobol
    return Source


def check_handed(p, h):
    out, v = h
    if out.shape != v.shape or not np.array_equal(out, v):
        raise Violation("sample-modified", f"{p.tag}: the library modified the array the innovation source handed over")


def make_path(world, kind):
    mco = env.fo.monte_carlo_options

    class Custom(mco.Path):
        def generate_path(self, **kw):
            world.hit("path")
            p = world.top()
            if p is not None:
                p.seen.append(("path", self.sigma, self.dt, self.b))
            return custom_path(np.asarray(self.epsilon, float), self.sigma, self.dt, self.b)

    class Wiener(mco.WienerPath):
        def generate_path(self, **kw):
            world.hit("path")
            p = world.top()
            if p is not None:
                p.seen.append(("path", self.sigma, self.dt, self.b))
            return super().generate_path(**kw)
    return {"custom": Custom, "wiener": Wiener, "builtin": mco.WienerPath}[kind]


def custom_path(e, sigma, dt, b):
    # not symmetric, not additive over steps, sensitive to row and column order
    w = 1 + 0.1 * np.arange(e.shape[1])
    return b * dt + sigma * math.sqrt(dt) * (0.3 * np.sin(e) + 0.2 * e * w + 0.05)


def odd_rows(v, eps, odd):
    """payoffs that are no ordinary numbers, on the paths whose first innovation lies beyond a threshold"""
    if not odd:
        return v
    v = np.array(v, float)
    v[np.asarray(eps, float)[:, 0] > odd["above"]] = float(odd["v"])
    return v


def make_payoff(world, kind, odd=None):
    mco = env.fo.monte_carlo_options

    def note(self):
        world.hit("payoff")
        p = world.top()
        if p is not None:
            p.payoffs += 1
            p.seen.append(("payoff", self.S, self.K, self.t, self.r, self.b, self.sigma))

    class Custom(mco.Payoff):
        def call(self):
            note(self)
            return odd_rows(custom_payoff(1, self.path.generate_path(), self.S, self.K, self.t, self.r, self.b, self.sigma), self.path.epsilon, odd)

        def put(self):
            note(self)
            return odd_rows(custom_payoff(-1, self.path.generate_path(), self.S, self.K, self.t, self.r, self.b, self.sigma), self.path.epsilon, odd)

    class Vanilla(mco.PlainVanillaPayoff):
        def call(self):
            note(self)
            return odd_rows(super().call(), self.path.epsilon, odd)

        def put(self):
            note(self)
            return odd_rows(super().put(), self.path.epsilon, odd)

    class Asian(mco.ArithmeticAsianPayoff):
        def call(self):
            note(self)
            return odd_rows(super().call(), self.path.epsilon, odd)

        def put(self):
            note(self)
            return odd_rows(super().put(), self.path.epsilon, odd)
    return {"custom": Custom, "vanilla": Vanilla, "asian": Asian, "builtin-vanilla": mco.PlainVanillaPayoff, "builtin-asian": mco.ArithmeticAsianPayoff}[kind]


def custom_payoff(z, path, S, K, t, r, b, sigma):
    ST = S * np.exp(path.sum(axis=1))
    up = path.max(axis=1)
    return math.exp(-r * t) * np.maximum(z * (ST - K), 0.0) + 0.01 * z * K * up + 0.001 * sigma * S + b


def ref_payoff(opt, z, draw):
    """discounted payoffs of one loop for option description `opt` (a dict)"""
    e = ref.mc_effective(draw, opt["anti"], opt["std"])
    dt = opt["t"] / opt["path_length"]
    path = custom_path(e, opt["sigma"], dt, opt["b"]) if opt["path"] == "custom" else ref.wiener(e, opt["sigma"], dt, opt["b"])
    a = (z, path, opt["S"], opt["K"], opt["t"], opt["r"])
    kind = opt["payoff"].replace("builtin-", "")
    odd = opt.get("odd") if kind == opt["payoff"] else None
    if kind == "custom":
        return odd_rows(custom_payoff(*a, opt["b"], opt["sigma"]), e, odd)
    return odd_rows(ref.pay_asian(*a) if kind == "asian" else ref.pay_vanilla(*a), e, odd)


def expected(opt, z, draws):
    return np.array([float(np.mean(ref_payoff(opt, z, d))) for d in draws])


def gen_option(R, tier="quick", big=True):
    S = float("%.5g" % math.exp(R.uniform(0, 5.5)))
    t = float("%.5g" % math.exp(R.uniform(math.log(.03), math.log(3))))
    r = float("%.4g" % R.uniform(-.02, .12))
    o = {"S": S, "K": float("%.5g" % (S * math.exp(R.gauss(0, .3)))), "t": t, "r": r, "b": R.choice([0.0, r, float("%.4g" % R.uniform(-.1, .12))]),
         "sigma": float("%.4g" % math.exp(R.uniform(math.log(.05), math.log(.8)))),
         "loops": R.choice([1, 2, 3, 5, R.randint(1, 12), int(math.exp(R.uniform(0, 4.2)))]),
         "path_length": R.choice([1, 2, 3, 4, 7, R.randint(1, 12), int(math.exp(R.uniform(0, 4)))]),
         "mc_paths": R.choice([1, 2, 3, 4, 8, R.randint(1, 40), int(math.exp(R.uniform(0, 6)))]),
         "anti": R.random() < .5, "std": R.random() < .5, "trace": False,
         "source": R.choice(["fresh", "reuse", "readonly", "strided", "fortran", "stale"]),
         "path": R.choice(["custom", "wiener", "builtin"]), "payoff": R.choice(["custom", "vanilla", "asian", "builtin-vanilla", "builtin-asian"])}
    if big and R.random() < .04:
        o.update(mc_paths=R.choice([1000, 1025, 2048, 4096]), path_length=R.randint(1, 6), loops=R.randint(1, 4))
    if big and R.random() < .03:
        o.update(path_length=R.choice([65, 100, 129, 252, 260, 365, 512, 520]), mc_paths=R.randint(1, 20), loops=R.randint(1, 4))
    if big and R.random() < .01:
        o.update(loops=R.choice([256, 300, 500, 513, 1000, 1025]), mc_paths=R.randint(1, 3), path_length=R.randint(1, 3))
    if R.random() < .1:
        # whole numbers, as a user types them
        o.update(S=R.choice([1, 2, 50, 100]), K=R.choice([1, 2, 45, 100, 110]), t=R.choice([1, 2, 3]), r=R.choice([0, r]), sigma=R.choice([1, o["sigma"]]))
        o["b"] = R.choice([0, o["b"]])
    if big and R.random() < .04:
        o.update(loops=R.randint(60, 260), mc_paths=R.randint(1, 4), path_length=R.randint(1, 4))
    if R.random() < .06:
        o["rows"] = R.choice([1, 1, 2, 5, -1, o["mc_paths"]])
    if R.random() < .08:
        o["spread"] = R.choice([1e-9, 1e-7, 1e-5, 1e-3] + ([10.0, 1e3] if o["std"] else []))
    if max(1, o["mc_paths"] + o.get("rows", 0)) * o["path_length"] == 1:
        o["std"] = False if not o["anti"] else o["std"]
    return o


def gen_odd(R, kinds):
    return {"above": R.choice([-9.0, -1.0, 0.0, 1.0, 1.5, 2.5]), "v": R.choice(kinds)}


def build(opt, world, source=None, **kw):
    mco = env.fo.monte_carlo_options
    return mco.MonteCarloOption(
        opt["loops"], opt["path_length"], opt["mc_paths"], opt["S"], opt["K"], opt["t"], opt["r"], opt["b"], opt["sigma"],
        source or make_source(world, opt["source"], opt.get("rows", 0), opt.get("spread", 1.0)), make_path(world, opt["path"]), make_payoff(world, opt["payoff"], opt.get("odd")),
        trace=opt["trace"], antithetic=opt["anti"], standardization=opt["std"], **kw)


class Kept:
    """results returned earlier: later pricings must not rewrite them"""

    def __init__(self):
        self.items = []

    def add(self, tag, *arrays):
        for a in arrays:
            if isinstance(a, np.ndarray):
                self.items.append((tag, a, a.copy()))

    def check(self, when):
        for tag, a, was in self.items:
            if a.shape != was.shape or a.tobytes() != was.tobytes():
                raise Violation("result-rewritten", f"{when}: the array returned by {tag} was {was.ravel()[:4].tolist()} and is now {a.ravel()[:4].tolist()}")

    def scribble(self, rnd):
        """the caller overwrites a result it got; later pricings must not care"""
        if not self.items:
            return
        tag, a, was = self.items.pop(rnd % len(self.items))
        if a.flags.writeable:
            a[...] = -12345.5


def check_pricing(opt, kind, p, got, tag, strict_seen=True):
    """got is exactly what the reference accounting gives for the samples in p"""
    z = 1 if kind == "call" else -1
    n = opt["loops"]
    if not isinstance(got, np.ndarray) or got.shape != (n,):
        raise Violation("wrong-shape", f"{tag}: {kind}() returned {type(got).__name__} {getattr(got, 'shape', '')} instead of {n} loop averages")
    if len(p.draws) != n:
        raise Violation("draw-count", f"{tag}: {kind}() with {n} loops took {len(p.draws)} samples from the source")
    for h in p.handed:
        check_handed(p, h)
    with np.errstate(all="ignore"):
        want = expected(opt, z, p.draws)
        scale = np.maximum(np.abs(np.where(np.isfinite(want), want, 0.0)), 1e-6 * (opt["S"] + opt["K"]))
        bad = ~(np.abs(got - want) <= EXACT * scale * 10 + 1e-13 * (opt["S"] + opt["K"]))
        bad &= ~((np.isnan(got) & np.isnan(want)) | (got == want))
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation("loop-average", f"{tag}: {kind}() loop {i} is {got[i]!r}, its own sample gives {want[i]!r}")
    if strict_seen:
        dt = opt["t"] / opt["path_length"]
        for s in p.seen:
            w = ("path", opt["sigma"], dt, opt["b"]) if s[0] == "path" else ("payoff", opt["S"], opt["K"], opt["t"], opt["r"], opt["b"], opt["sigma"])
            if len(s) != len(w) or any(isinstance(x, float) and abs(x - y) > 1e-12 * abs(y) if isinstance(y, float) else x != y for x, y in zip(s, w)):
                raise Violation("plugin-params", f"{tag}: a {s[0]} was given {s[1:]}, the option has {w[1:]}")
