"""Locks for library code that the simulated scheduler understands.

threading.Lock / RLock called from a finoptions frame give these; everybody else gets the real thing.
"""
import sys
import threading

from . import env

_Lock, _RLock = threading.Lock, threading.RLock


class SimLock:
    def __init__(self, reentrant=False):
        self._owner = None
        self._n = 0
        self._re = reentrant

    def _me(self):
        return threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        from . import kernel
        me = self._me()
        while True:
            if self._owner is None or (self._re and self._owner == me):
                self._owner = me
                self._n += 1
                return True
            if not blocking:
                return False
            sched = kernel.SCHED
            if sched is None:
                raise kernel.Deadlock("a lock is acquired that is never released")
            if timeout is not None and timeout >= 0:
                sched.yield_now()
                if self._owner is not None:
                    return False
                continue
            sched.block_on(self)

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n == 0:
            self._owner = None
            from . import kernel
            if kernel.SCHED is not None:
                kernel.SCHED.unblock(self)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __reduce_ex__(self, proto):
        raise TypeError("cannot pickle '_thread.lock' object")


def _from_library():
    f = sys._getframe(2)
    return f is not None and f.f_code.co_filename.startswith(env.PKG)


def install():
    def Lock():
        return SimLock() if _from_library() else _Lock()

    def RLock(*a):
        return SimLock(True) if _from_library() else _RLock(*a)
    threading.Lock, threading.RLock = Lock, RLock
