"""C04: built-in innovations are finite, fresh normals, whatever the random source does."""
import copy

import numpy as np
from scipy.special import ndtri

from .. import env, mc, sobolseam
from ..kernel import Violation, make_fault

RUNS = {"quick": 2200, "thorough": 40000}
LINES = True
LISTS = ["steps", "steps.*.plan"]
RULE = ("one run = 1-2 built-in Sobol sources of generated size and 1-6 steps (samples scrambled or not, Monte Carlo prices, copies); for each scrambled step a plan decides "
        "generation by generation whether the scrambling yields exact zeros (anywhere, streaks up to 60, rarely 1500), extreme but usable coordinates (5e-324 to 1 - 2^-53) or the generator raises; non-trivial when a plan entry took effect")
STATE = "(size class, plan shape, step kind, previous step) combinations"
REAL = ["NormalSobolInnovations", "MonteCarloOption, WienerPath, PlainVanillaPayoff", "scipy.stats.qmc.Sobol point sets"]
STUB = ["the scrambling's random numbers (seeded), injected zero coordinates, injected generator errors"]
ASSUME = ["the generator is scipy.stats.qmc.Sobol; one call of random() yields one point set", "quantiles compared to 1e-9"]
ERR = ["MemoryError", "ValueError", "SimFault", "KeyboardInterrupt", "OSError", "SimCancel", "CancelledError"]


def gen_plan(R):
    """list of generations: 0 = as is; [cells] = zeros there; "E:kind" = raise"""
    x = R.random()
    if x < .25:
        return []
    n = R.choice([1, 1, 1, 2, 3, 5, R.randint(1, 40)])
    if R.random() < .004:
        n = 1500
    plan = []
    for _ in range(n):
        plan.append([R.randrange(10 ** 6) for _ in range(R.choice([1, 1, 1, 2, 5]))])
    if R.random() < .3:
        plan.append([-1])      # the very first and the very last cell
    if R.random() < .35:
        plan.append("E:" + R.choice(ERR))
    if R.random() < .25:
        # extreme, but usable
        plan.insert(R.randrange(len(plan) + 1), {"v": R.choice([5e-324, 1e-300, 1e-40, 1e-17, 1e-13, 1e-10, 1 - 2.0 ** -53, 1 - 1e-12]), "at": R.randrange(10 ** 6)})
    return plan


def gen(R, i, tier):
    srcs = []
    for _ in range(R.choice([1, 1, 2])):
        srcs.append({"paths": R.choice([1, 2, 3, 4, 8, 16, R.randint(1, 70)]), "length": R.choice([1, 2, 3, 5, 8, R.randint(1, 24)]), "eps": R.random() < .12})
        if R.random() < .04:
            srcs[-1].update(R.choice([{"paths": R.choice([128, 256, 500, 1000, 1024]), "length": R.randint(1, 6)}, {"length": R.choice([32, 64, 100, 252, 366, 600]), "paths": R.randint(1, 12)}]))
        if R.random() < .02:
            srcs[-1].update(R.choice([{"length": R.choice([1000, 1111, 1500, 2000, 3000]), "paths": R.randint(1, 3)}, {"paths": R.choice([2000, 2048, 4096, 5000, 8192, 10000]), "length": R.randint(1, 2)}]))
        if srcs[-1]["eps"] and R.random() < .5:
            # given as it is, whatever its shape and type
            srcs[-1]["eshape"] = [R.choice([1, 2, srcs[-1]["paths"], srcs[-1]["paths"] + R.randint(1, 9), 2 * srcs[-1]["paths"]]), R.choice([1, srcs[-1]["length"], srcs[-1]["length"] + R.randint(1, 4)])]
            srcs[-1]["edtype"] = R.choice(["f8", "f8", "f4", "i8", ">f8"])
    steps = []
    for _ in range(R.randint(1, 6)):
        s = {"s": R.randrange(len(srcs)), "do": R.choice(["sample", "sample", "sample", "plain", "price", "price"]), "plan": gen_plan(R)}
        if s["do"] == "plain":
            s["plan"] = []
        if srcs[s["s"]]["paths"] > 100 or srcs[s["s"]]["length"] > 30:
            s["plan"] = s["plan"][-3:]
        if s["do"] == "price":
            s["loops"] = R.randint(1, 4)
            s["anti"] = R.random() < .3
            if len(s["plan"]) > 100:
                s["plan"] = s["plan"][:100]
        if R.random() < .15:
            s["copy"] = R.choice(["deepcopy", "pickle"])
        steps.append(s)
    return {"seed": R.randrange(2 ** 31), "sources": srcs, "steps": steps}


def valid(sc):
    return bool(sc["steps"])


def simplify(sc):
    for i, o in enumerate(sc["sources"]):
        for key in ("eshape", "edtype"):
            if key in o:
                c = copy.deepcopy(sc)
                del c["sources"][i][key]
                yield c
        for key, val in (("paths", 1), ("paths", 2), ("length", 1), ("length", 2), ("eps", False)):
            if o[key] != val and not (isinstance(val, int) and not isinstance(val, bool) and o[key] < val):
                c = copy.deepcopy(sc)
                c["sources"][i][key] = val
                yield c


def usable(pts):
    return bool(np.all((pts > 0) & (pts < 1)))


def match(v, pts):
    return isinstance(v, np.ndarray) and v.shape == pts.shape and np.allclose(v, ndtri(pts), rtol=1e-9, atol=1e-12)


def run(sc, ctx):
    import pickle
    k = ctx.k
    mco = env.fo.monte_carlo_options
    insts = []
    for i, s in enumerate(sc["sources"]):
        eps = mc.sample_values(sc["seed"], i, s.get("eshape") or (s["paths"], s["length"])) if s["eps"] else None
        if eps is not None and s.get("edtype", "f8") != "f8":
            eps = (eps * 2).astype(s["edtype"])
        insts.append([mco.NormalSobolInnovations(s["paths"], s["length"], eps), eps])
    took = 0
    seen = []        # point sets used by earlier samples
    state = {}

    def plan(engine, n, pts):
        pl = state["plan"]
        if state["i"] < len(pl):
            e = pl[state["i"]]
            state["i"] += 1
            if isinstance(e, str):
                state["exc"] = make_fault(e[2:])
                k.fault("generator:" + e[2:])
                raise state["exc"]
            if isinstance(e, dict):
                if pts.size < 4:
                    return pts      # would make two sets equal
                pts = pts.copy()
                pts.flat[e["at"] % pts.size] = e["v"]
                k.fault("scramble:extreme")
            elif e:
                pts = pts.copy()
                cells = [0, pts.size - 1] if e == [-1] else [c % pts.size for c in e]
                pts.flat[cells] = 0.0
                k.fault("scramble:zero", len(cells))
                k.probe("unusable-set")
        return pts
    last = "-"
    for j, s in enumerate(sc["steps"]):
        src = sc["sources"][s["s"]]
        inst, eps = insts[s["s"]]
        P, L = src["paths"], src["length"]
        tag = f"step {j}"
        if s.get("copy"):
            inst = copy.deepcopy(inst) if s["copy"] == "deepcopy" else pickle.loads(pickle.dumps(inst))
        state.update(plan=[e for e in s["plan"]], i=0, exc=None)
        sobolseam.PLAN, sobolseam.RECORD = plan, []
        try:
            if s["do"] == "price":
                cap = []

                class Rec(mco.NormalSobolInnovations):
                    def sample_innovation(self, *a, **kw):
                        v = super().sample_innovation(*a, **kw)
                        cap.append(np.array(v, float))
                        return v
                opt = mco.MonteCarloOption(s["loops"], L, P, 100.0, 95.0, .7, .04, .02, .3, Rec, mco.WienerPath, mco.PlainVanillaPayoff, antithetic=s["anti"], eps=eps)
                st, v = k.run(opt.call, label=tag)
            elif s["do"] == "plain":
                st, v = k.run(lambda: inst.sample_innovation(scramble=False), label=tag)
            else:
                st, v = k.run(inst.sample_innovation, label=tag)
        finally:
            rec = [p for scr, p in sobolseam.RECORD if scr]
            sobolseam.PLAN = sobolseam.RECORD = None
        took += state["i"]
        if state["exc"] is not None:
            if st != "exc" or v is not state["exc"]:
                raise Violation("generator-error-lost", f"{tag}: the generator raised {state['exc']!r}; the caller got {(st, v)!r:.200}")
            k.event(j, s["do"], "generator error")
            last = "error"
            continue
        if st != "ok":
            raise Violation("sample-failed", f"{tag}: {s['do']} raised {v!r}")
        if src["eps"]:
            got = cap if s["do"] == "price" else [v]
            for g in got:
                if np.shape(g) != eps.shape or not np.array_equal(g, eps):
                    raise Violation("eps-ignored", f"{tag}: pre-generated innovations were not returned as they are")
        elif s["do"] == "plain":
            want = ndtri(plain(P, L))
            if not (isinstance(v, np.ndarray) and v.shape == (P, L)):
                raise Violation("shape", f"{tag}: unscrambled sample has shape {np.shape(v)}, not {(P, L)}")
            if not np.all(np.isfinite(v)) or not np.allclose(v, want, rtol=1e-9, atol=1e-12):
                raise Violation("unscrambled", f"{tag}: the unscrambled sample is not Sobol points 1..{P} of dimension {L}")
        else:
            got = cap if s["do"] == "price" else [v]
            check_samples(got, rec, P, L, seen, tag)
            if s["do"] == "price":
                o = dict(loops=s["loops"], S=100.0, K=95.0, t=.7, r=.04, b=.02, sigma=.3, path_length=L, anti=s["anti"], std=False, path="builtin", payoff="builtin-vanilla")
                if not (isinstance(v, np.ndarray) and v.shape == (s["loops"],) and np.allclose(v, mc.expected(o, 1, got), rtol=1e-8)):
                    raise Violation("price", f"{tag}: the price is not the mean payoff over the delivered samples")
            elif v is not None:
                v[...] = np.nan           # scribbling over a delivered sample must not touch later ones
        k.event(j, s["do"], state["i"], "" if s["do"] == "price" else hash_(v))
        k.state(min(P, 3), min(L, 3), s["do"], min(len(s["plan"]), 4), last, src["eps"])
        last = s["do"]
    k.sample = {"sources": sc["sources"], "steps": [{**s, "plan": s["plan"][:4]} for s in sc["steps"]]}
    return took > 0


def hash_(v):
    import hashlib
    return hashlib.md5(np.ascontiguousarray(v).tobytes()).hexdigest()[:10]


def plain(P, L):
    from scipy.stats import qmc
    e = qmc.Sobol.__new__(qmc.Sobol)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sobolseam._o_init(e, L, scramble=False)
        return sobolseam._o_random(e, P + 1)[1:]


def check_samples(got, rec, P, L, seen, tag):
    for n, g in enumerate(got):
        if not (isinstance(g, np.ndarray) and g.shape == (P, L)):
            raise Violation("shape", f"{tag}: sample {n} has shape {np.shape(g)}, not {(P, L)}")
        if not np.all(np.isfinite(g)):
            raise Violation("not-finite", f"{tag}: sample {n} contains a number that is not finite")
        if any(match(g, old) for old in seen):
            raise Violation("not-fresh", f"{tag}: sample {n} repeats a point set that an earlier sample used")
        hits = [i for i, p in enumerate(rec) if usable(p) and match(g, p)]
        if not hits:
            raise Violation("not-a-point-set", f"{tag}: sample {n} is not the normal quantiles of one point set generated for it")
        i = hits[0]
        if any(usable(p) and p.shape == (P, L) for p in rec[:i]):
            raise Violation("usable-set-dropped", f"{tag}: sample {n} skipped a usable point set")
        seen.append(rec[i].copy())
        rec = rec[i + 1:]
