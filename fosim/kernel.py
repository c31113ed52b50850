"""The simulator: logical clock, fault injection and thread scheduling for one run.

Time is logical: the number of finoptions source lines (or bytecodes) executed.  sys.monitoring delivers an event
before each line of the package; the kernel uses it to
  * advance the clock,
  * raise an injected exception out of that line (cancellation, failed allocation, time-out ...),
  * hand the baton to another simulated thread.
Simulated threads are real threads that are parked on semaphores; exactly one is ever runnable, and which one is a
decision of the scenario.  Nothing here draws random numbers: a run is a pure function of its scenario.
"""
import asyncio
import hashlib
import sys
import threading

from . import env

TOOL = 4
_M = sys.monitoring
SCHED = None
K = None            # the kernel of the current run
_installed = False
_real_sem = threading.Semaphore


class Violation(Exception):
    def __init__(self, kind, msg, **details):
        super().__init__(msg)
        self.kind, self.msg, self.details = kind, msg, details


class HarnessError(Exception):
    pass


class Deadlock(BaseException):
    """raised inside the library when it waits for a lock that will never be released"""


class StepBudget(BaseException):
    """raised inside the library when an operation executes absurdly many lines"""


class SimCancel(BaseException):
    """a cancellation outside the ordinary Exception family (as asyncio.CancelledError or a time-limit signal is)"""


class SimFault(Exception):
    """an ordinary error of a plug-in, stream or generator"""


FAULTS = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "SystemExit": SystemExit,
    "SimCancel": SimCancel,
    "GeneratorExit": GeneratorExit,
    "MemoryError": MemoryError,
    "TimeoutError": TimeoutError,
    "SimFault": SimFault,
    "FloatingPointError": FloatingPointError,
    "OSError": OSError,
    "ValueError": ValueError,
    "StopIteration": StopIteration,
    "AttributeError": AttributeError,
    "BlockingIOError": BlockingIOError,
    "BrokenPipeError": BrokenPipeError,
    "ConnectionResetError": ConnectionResetError,
    "EOFError": EOFError,
    "InterruptedError": InterruptedError,
    "CancelledError": asyncio.CancelledError,
    "OverflowError": OverflowError,
    "RuntimeError": RuntimeError,
    "ZeroDivisionError": ZeroDivisionError,
    "UnicodeEncodeError": lambda tag: UnicodeEncodeError("ascii", "\u20ac", 0, 1, tag),
}
CANCELS = ("KeyboardInterrupt", "SystemExit", "SimCancel", "GeneratorExit", "CancelledError")


def make_fault(kind, tag="injected"):
    return FAULTS[kind](tag)


# ------------------------------------------------------------------------------------------ monitoring callbacks
def _line(code, line):
    k = K
    if k is not None:
        k._tick(code, line)


def _instr(code, off):
    s = SCHED
    if s is not None:
        s.tick(code, off)


_state = [None]


def instrument(lines=True, opcodes=False):
    """switch the event sources on or off for every code object of the package"""
    global _installed
    want = (_M.events.LINE if lines else 0) | (_M.events.INSTRUCTION if opcodes else 0)
    if not _installed:
        _M.use_tool_id(TOOL, "fosim")
        _M.register_callback(TOOL, _M.events.LINE, _line)
        _M.register_callback(TOOL, _M.events.INSTRUCTION, _instr)
        _installed = True
    key = (want, len(env.CODES))
    if _state[0] == key:
        return
    for c in env.CODES:
        _M.set_local_events(TOOL, c, want)
    _state[0] = key


# ------------------------------------------------------------------------------------------ kernel
class Kernel:
    BUDGET = 60_000_000

    def __init__(self):
        self.clock = 0
        self.log = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.inj = None          # [kind-exception, remaining] of the running operation
        self.fired = None
        self.op_lines = 0
        self.limit = self.BUDGET
        self.sample = None
        self.main = threading.get_ident()
        self._per = {}

    # bookkeeping
    def event(self, *a):
        self.log.append(" ".join(str(x) for x in a))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *parts):
        self.states.add(hashlib.blake2b(repr(parts).encode(), digest_size=6).hexdigest())

    def digest(self):
        return hashlib.sha256("\n".join(self.log).encode()).hexdigest()[:24]

    # line events
    def _tick(self, code, line):
        self.clock += 1
        s = SCHED
        if s is not None:
            if s.on_line(code, line):
                return
            return
        self.op_lines += 1
        if self.inj is not None:
            self.inj[1] -= 1
            if self.inj[1] <= 0 and not self._shielded():
                exc = self.inj[0]
                self.inj = None
                self.fired = (exc, code.co_qualname, line)
                raise exc
        if self.op_lines > self.limit:
            self.limit = float("inf")
            raise StepBudget(f"more than {self.BUDGET} lines executed")

    def _shielded(self, depth=3):
        f = sys._getframe(depth)
        while f is not None:
            fn = f.f_code.co_filename
            if fn.startswith(env.PKG) and f.f_lineno in env.protected_lines(fn):
                return True
            f = f.f_back
        return False

    def run(self, fn, inject=None, label=""):
        """Run one operation on the main thread.  inject = (exception, k): raise it out of the k-th line executed.

        Returns (outcome, value): ("ok", result) or ("exc", exception)
        """
        self.op_lines = 0
        self.limit = self.BUDGET
        self.fired = None
        self.inj = list(inject) if inject else None
        try:
            out = ("ok", fn())
        except (Violation, HarnessError):
            raise
        except (Deadlock, StepBudget) as e:
            raise Violation("no-progress", f"{label}: {e}") from None
        except BaseException as e:     # noqa: BLE001
            out = ("exc", e)
        finally:
            self.inj = None
        if self.fired:
            self.fault("line:" + type(self.fired[0]).__name__)
            self.probe("fired:" + self.fired[1])
            self.event("fault", type(self.fired[0]).__name__, self.fired[1])
        return out


# ------------------------------------------------------------------------------------------ threads
class SimThread:
    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.sem = _real_sem(0)
        self.done = False
        self.blocked = None
        self.out = None
        self.inj = None
        self.lines = 0
        self.thread = None


class Scheduler:
    """Runs thread bodies one at a time; switches exactly where the preemption list says.

    preempt: list of [gap, choice]: after `gap` more events of the running thread, run the choice-th runnable thread.
    events: library lines, or bytecodes if opcodes is set, and explicit yield points of plug-ins.
    """

    def __init__(self, kernel, preempt, opcodes=False, budget=100_000_000):
        self.k = kernel
        self.preempt = [list(p) for p in preempt]
        self.opcodes = opcodes
        self.budget = budget
        self.threads = []
        self.cur = None
        self.main_sem = _real_sem(0)
        self.gap = self.preempt[0][0] if self.preempt else None
        self.i = 0
        self.switches = 0
        self.trace = []
        self.dead = False

    def spawn(self, fn):
        t = SimThread(len(self.threads), fn)
        self.threads.append(t)
        return t

    def _body(self, t):
        t.sem.acquire()
        try:
            t.out = ("ok", t.fn())
        except BaseException as e:     # noqa: BLE001
            t.out = ("exc", e)
        t.done = True
        self._next(t, finished=True)

    def run(self):
        global SCHED
        if not self.threads:
            return
        instrument(True, self.opcodes)
        for t in self.threads:
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        SCHED = self
        self.cur = self.threads[0]
        try:
            self.cur.sem.release()
            self.main_sem.acquire()
        finally:
            SCHED = None
            instrument(True, False)
        for t in self.threads:
            t.thread.join(10)
        for t in self.threads:
            if t.out and t.out[0] == "exc" and isinstance(t.out[1], (Violation, HarnessError)):
                raise t.out[1]
        for t in self.threads:
            if t.out and t.out[0] == "exc" and isinstance(t.out[1], (Deadlock, StepBudget)):
                raise Violation("no-progress", f"thread {t.tid}: {t.out[1]}")

    def runnable(self, exclude=None):
        return [t for t in self.threads if not t.done and t.blocked is None and t is not exclude]

    def on_line(self, code, line):
        t = self.cur
        if t is None or t.thread.ident != threading.get_ident():
            return
        t.lines += 1
        if t.lines > self.budget:
            self.budget = float("inf")
            raise StepBudget("a simulated thread makes no progress")
        if t.inj is not None:
            t.inj[1] -= 1
            if t.inj[1] <= 0 and not self.k._shielded(4):
                exc, t.inj = t.inj[0], None
                self.k.fault("line:" + type(exc).__name__)
                self.trace.append(f"{t.tid}!{type(exc).__name__}@{code.co_qualname}")
                raise exc
        if not self.opcodes:
            self.tick(code, line)

    def tick(self, code, pos):
        t = self.cur
        if t is None or t.thread.ident != threading.get_ident() or self.gap is None:
            return
        self.gap -= 1
        if self.gap > 0:
            return
        choice = self.preempt[self.i][1]
        self.i += 1
        self.gap = self.preempt[self.i][0] if self.i < len(self.preempt) else None
        others = self.runnable(exclude=t)
        if not others:
            return
        self.switches += 1
        self._switch(t, others[choice % len(others)], f"{code.co_qualname}:{pos - code.co_firstlineno if not self.opcodes else pos}")

    def point(self, name):
        """an explicit scheduling point of a plug-in"""
        t = self.cur
        if SCHED is self and t is not None and t.thread.ident == threading.get_ident():
            self.tick(_Point(name), 0)

    def _switch(self, a, b, where):
        self.trace.append(f"{a.tid}>{b.tid}@{where}")
        self.cur = b
        b.sem.release()
        a.sem.acquire()
        if self.dead:
            raise Deadlock("every simulated thread waits for a lock")

    def _next(self, t, finished):
        r = self.runnable()
        if r:
            self.cur = r[0]
            r[0].sem.release()
        elif all(x.done for x in self.threads):
            self.main_sem.release()
        else:
            self.dead = True
            b = next(x for x in self.threads if not x.done)
            b.blocked = None
            self.cur = b
            b.sem.release()

    def block_on(self, lock):
        t = self.cur
        if t is None or t.thread.ident != threading.get_ident():
            raise Deadlock("a lock held by a simulated thread is never released")
        t.blocked = lock
        self.k.probe("lock-contention")
        r = self.runnable()
        if not r:
            self.dead = True
            t.blocked = None
            raise Deadlock("every simulated thread waits for a lock")
        self._switch(t, r[0], "lock")

    def yield_now(self):
        t = self.cur
        r = self.runnable(exclude=t)
        if r:
            self._switch(t, r[0], "yield")

    def unblock(self, lock):
        for x in self.threads:
            if x.blocked is lock:
                x.blocked = None


class _Point:
    co_firstlineno = 0

    def __init__(self, name):
        self.co_qualname = name


def point(name):
    if SCHED is not None:
        SCHED.point(name)


def activate(kernel):
    global K, SCHED
    K, SCHED = kernel, None
    instrument(True, False)
