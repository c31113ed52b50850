"""The randomness seam: scipy's Sobol engine, seen by the library through scipy.stats.qmc.Sobol.

With no plan active the engine is seeded from the kernel's stream, so that scrambling is repeatable.  A plan makes the
i-th call of .random() on a *scrambled* engine return points with exact zeros / ones in chosen cells, or raise.  All
generated point sets are recorded.
"""
import numpy as np
from scipy.stats import qmc

PLAN = None         # object with .draw(engine, n, points) -> points ; or None
SEEDER = None       # callable -> int
RECORD = None       # list of dicts
_o_init = qmc.Sobol.__init__
_o_random = qmc.Sobol.random


def install():
    def __init__(self, d, *args, **kw):
        scr = kw.get("scramble", args[0] if args else True)
        rnd = any(k in kw and kw[k] is not None for k in ("seed", "rng"))
        if SEEDER is not None and scr and not rnd:
            kw["rng"] = np.random.default_rng(SEEDER())
        _o_init(self, d, *args, **kw)
        self._fosim_scr = bool(scr)

    def random(self, n=1, **kw):
        pts = _o_random(self, n, **kw)
        if PLAN is not None and getattr(self, "_fosim_scr", True):
            pts = PLAN(self, n, pts)
        if RECORD is not None:
            RECORD.append((getattr(self, "_fosim_scr", True), pts.copy()))
        return pts
    __init__.__wrapped__ = _o_init
    qmc.Sobol.__init__ = __init__
    qmc.Sobol.random = random
