"""Loaded before differt2d: locks that differt2d creates become schedulable."""

import sys
import threading

_real = {"RLock": threading.RLock, "Lock": threading.Lock}
SCHED = None  # the active scheduler, if any
CREATED = []


class MLock:
    """A (re-entrant) lock whose waiting is visible to the scheduler."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0
        self.real = _real["RLock"]() if reentrant else _real["Lock"]()
        CREATED.append(self)

    def _free(self, me):
        return self.depth == 0 or (self.reentrant and self.owner == me)

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        s = SCHED
        if s is None or not s.controls(me):
            if not self.reentrant and self.depth and self.owner == me and blocking and timeout < 0:
                from lib.core import Violation

                raise Violation("thread-waits-for-itself", {"lock": "not re-entrant"})
            ok = self.real.acquire(blocking, timeout)
            if ok:
                self.owner, self.depth = me, self.depth + 1
            return ok
        s.pause(me, "acquire")
        while not self._free(me):
            if not blocking or timeout >= 0:  # (a timeout may expire at any moment)
                s.pause(me, "try")
                if not self._free(me):
                    return False
                break
            s.pause(me, "wait", self)
        if not self.real.acquire(False):
            raise RuntimeError("monitor lost track of a lock")
        self.owner, self.depth = me, self.depth + 1
        return True

    def release(self):
        me = threading.get_ident()
        if self.depth > 0:
            self.depth -= 1
            if self.depth == 0:
                self.owner = None
        self.real.release()
        s = SCHED
        if s is not None and s.controls(me):
            s.pause(me, "release")

    def locked(self):
        return self.depth > 0

    def _is_owned(self):
        return self.depth > 0 and self.owner == threading.get_ident()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _factory(kind):
    def make(*a, **k):
        fn = sys._getframe(1).f_code.co_filename
        if "/differt2d/" in fn:
            return MLock(kind == "RLock")
        return _real[kind](*a, **k)

    return make


threading.RLock = _factory("RLock")
threading.Lock = _factory("Lock")
