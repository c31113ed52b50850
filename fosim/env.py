"""Bootstrap: load finoptions from the repository's working tree and put its nondeterminism behind seams.

boot() must run before anything else touches numpy or finoptions.  It
  * pins BLAS threads, the matplotlib backend and the bytecode cache (stale .pyc files in the tree are never used);
  * records every code object of the package as it is loaded, so that the kernel can observe and interrupt it;
  * gives library code locks the simulated scheduler understands;
  * puts the Sobol generator's randomness and failures under the simulator.
"""
import ast
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "finoptions") + os.sep

CODES = []          # every code object of the package
fo = None
np = None
_booted = False


class BuildError(Exception):
    pass


def _collect(code):
    if code.co_filename.startswith(PKG):
        CODES.append(code)
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            _collect(c)


def boot():
    global _booted, fo, np
    if _booted:
        return
    _booted = True
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
        os.environ[v] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    scratch = tempfile.mkdtemp(prefix="fosim-")
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(scratch, ignore_errors=True))
    os.environ["MPLCONFIGDIR"] = scratch
    import importlib.machinery as ilm
    import warnings
    warnings.simplefilter("ignore")
    import numpy
    import scipy.integrate, scipy.optimize, scipy.stats, scipy.special  # noqa: F401
    import scipy.stats.qmc  # noqa: F401
    import numdifftools  # noqa: F401
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401
    import copy, pickle, threading, io, json, hashlib  # noqa: F401
    np = numpy
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch, "pyc")
    sys.path.insert(0, SRC)
    for m in [m for m in sys.modules if m == "finoptions" or m.startswith("finoptions.")]:
        del sys.modules[m]
    orig = ilm.SourceFileLoader.get_code

    def get_code(self, fullname):
        c = orig(self, fullname)
        if c is not None and c.co_filename.startswith(PKG):
            _collect(c)
        return c

    ilm.SourceFileLoader.get_code = get_code
    from . import simlock
    simlock.install()
    try:
        import finoptions
    except BaseException as e:
        raise BuildError(f"finoptions cannot be imported from {SRC}: {e!r}") from e
    if not os.path.realpath(finoptions.__file__).startswith(PKG):
        raise BuildError(f"finoptions was imported from {finoptions.__file__}, not {PKG}")
    fo = finoptions
    from . import sobolseam
    sobolseam.install()
    from . import catalog, kernel, mc, pool, pristine, ref  # noqa: F401
    # keep the collector away from what was loaded so far: fewer copied pages in the thousands of forks to come
    import gc
    gc.collect()
    gc.freeze()


_protected = {}


def protected_lines(filename):
    """Lines of clean-up code (finally and except bodies, with headers, try headers).

    CPython itself cannot run these atomically under asynchronous exceptions; a cancellation is not injected there.
    """
    if filename not in _protected:
        lines = set()
        try:
            tree = ast.parse(open(filename, encoding="utf-8").read())
        except (OSError, SyntaxError):
            tree = None
        for n in ast.walk(tree) if tree else ():
            if isinstance(n, ast.Try):
                lines.add(n.lineno)
                for part in n.finalbody:
                    lines.update(range(part.lineno, part.end_lineno + 1))
                for h in n.handlers:
                    lines.update(range(h.lineno, h.end_lineno + 1))
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                lines.update(range(n.lineno, n.body[0].lineno))
        _protected[filename] = frozenset(lines)
    return _protected[filename]
