"""Lock seam: locks created by the code under test are owned by the simulator.

A simulated thread is parked at an arbitrary tick while it may hold a lock.  If another
simulated thread then blocked in the real lock, the whole simulation would hang, so
locks created from the packages below are replaced by locks whose blocking is a
scheduler decision.  Outside a threaded simulation they are ordinary locks.
"""
import sys
import threading
import _thread

OWNED = ("sectionproperties", "pypardiso")
_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock


class Deadlock(BaseException):
    """A thread waits for a lock that it holds itself, and nobody else can release it."""


scheduler = None  # set by threads.Scheduler while a threaded run is active


class SimLock:
    _reentrant = False

    def __init__(self):
        self._lock = _real_lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        sched = scheduler
        if sched is None or not sched.is_sim_thread():
            if blocking and timeout < 0 and self._owner == me and threading.active_count() == 1:
                raise Deadlock("a lock is acquired again by the thread that holds it")
            ok = self._lock.acquire(blocking, timeout)
        else:
            ok = self._lock.acquire(False)
            while not ok and blocking:
                if timeout is not None and timeout >= 0:
                    return False
                sched.block_on(self)
                ok = self._lock.acquire(False)
        if ok:
            self._owner = me
            self._count = 1
        return ok

    def release(self):
        if self._reentrant and self._owner == _thread.get_ident() and self._count > 1:
            self._count -= 1
            return
        self._owner = None
        self._count = 0
        self._lock.release()
        if scheduler is not None:
            scheduler.unblock(self)

    def locked(self):
        return self._lock.locked()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle lock object")


class SimRLock(SimLock):
    _reentrant = True


def _owned_caller():
    f = sys._getframe(2)
    while f is not None and f.f_globals.get("__name__") == "threading":
        f = f.f_back
    name = f.f_globals.get("__name__", "") if f is not None else ""
    return name.split(".")[0] in OWNED


def Lock():
    return SimLock() if _owned_caller() else _real_lock()


def RLock(*a):
    return SimRLock() if _owned_caller() else _real_rlock(*a)


def install():
    threading.Lock = Lock
    threading.RLock = RLock
    threading._allocate_lock_real = _real_lock
