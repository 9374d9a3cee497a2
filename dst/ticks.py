"""Tick seam: every step of the code under test is an event of the simulator.

Built on sys.monitoring with events local to the code objects of the packages under
simulation.  Two uses:

* abort points: calls of non-trivial callables (the callee fails), entries of functions
  and returns of C functions (an interrupt is delivered).  Points inside an exception
  handler and calls that are themselves clean-up (``close``, ``__exit__``...) are no
  abort points: the code has no way to survive a second failure there.
* switch points: line events, where the scheduler of ``sched.py`` may switch threads.
"""
import builtins
import gc
import os
import sys
import types
import _thread

from . import boot

mon = sys.monitoring
E = mon.events
TOOL = 3

TRIVIAL = {
    "setattr", "getattr", "hasattr", "isinstance", "issubclass", "len", "vars", "update", "items", "append", "extend", "enumerate",
    "zip", "range", "keys", "values", "get", "float", "int", "abs", "max", "min", "tuple", "list", "dict", "set", "str", "format",
    "join", "round", "sorted", "type", "super", "id", "iter", "next", "bool", "copy", "split", "insert", "pop", "index", "upper",
    "lower", "strip", "replace", "startswith", "endswith", "sum", "any", "all", "map", "filter", "reversed", "repr", "property",
    "callable", "hash", "divmod", "pow", "ord", "chr", "setdefault", "add", "discard", "remove", "clear", "count", "cast", "slice",
    "object", "__new__", "__init_subclass__", "encode", "decode", "bytes", "frozenset", "delattr", "isfinite", "isnan", "__setattr__",
    "asdict", "fields", "field", "wraps", "replace", "exception", "warn", "acquire", "locked", "complex",
}
CLEANUP = {
    "close", "release", "stop", "__exit__", "free_memory", "remove_stored_factorization", "shutdown", "cancel", "restore", "ioff", "ion",
    "unlink", "flush", "terminate", "join", "reset", "pop", "popitem", "get_fignums", "cleanup", "rmtree", "kill", "wait", "notify",
    "set", "exit", "callback", "seek", "truncate", "fileno", "fsync", "rename", "exists", "_exit", "get_ident", "invalidate", "delete",
}


# C functions that change a container; with kind "fill" an interrupt may follow each of them
FILLS = {"append", "extend", "insert", "add", "setdefault", "pop", "remove", "clear", "sort"}


def owned_files():
    import pypardiso

    return (os.path.realpath(boot.SRC) + os.sep, os.path.dirname(os.path.realpath(pypardiso.__file__)) + os.sep)


_codes = None


def codes(with_pardiso=True):
    """All code objects of the packages under simulation, in a stable order."""
    global _codes
    if _codes is None:
        src = os.path.realpath(boot.SRC) + os.sep
        try:
            import pypardiso

            par = os.path.dirname(os.path.realpath(pypardiso.__file__)) + os.sep
        except ImportError:
            par = None
        found = {}

        def add(c):
            f = os.path.realpath(c.co_filename)
            if c in found:
                return
            kind = "src" if f.startswith(src) else "par" if par and f.startswith(par) else None
            if kind is None:
                return
            found[c] = kind
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    add(k)

        seen = set()
        for o in gc.get_objects():
            if isinstance(o, types.FunctionType) and id(o) not in seen:
                seen.add(id(o))
                add(o.__code__)
        _codes = sorted(((c, k) for c, k in found.items() if c.co_name != "<module>"), key=lambda t: (t[0].co_filename, t[0].co_firstlineno, t[0].co_qualname))
    return [c for c, k in _codes if with_pardiso or k == "src"]


def _callee_name(f):
    n = getattr(f, "__name__", None)
    if n is None:
        n = type(f).__name__
    return n


_callee_cache = {}


def callee_class(f):
    """"trivial", "cleanup" or "real" - the kind of callee of a call."""
    n = _callee_name(f)
    r = _callee_cache.get(n)
    if r is None:
        if n in CLEANUP:
            r = "cleanup"
        elif n in TRIVIAL or (isinstance(f, type) and issubclass(f, BaseException)):
            r = "trivial"
        elif n.startswith("__") and n != "__call__":
            r = "trivial"
        else:
            r = "real"
        _callee_cache[n] = r
    return r


class Recorder:
    """Counts abort points; optionally raises at one of them.

    ``ticks`` counts eligible points in execution order, ``sites`` maps a distinct point
    (code, offset, kind) to the list [first tick, last tick, visits].
    """

    def __init__(self, fire_at=None, exc=None, kinds=("start", "call", "ret"), on_fire=None, extra=()):
        self.fire_at, self.exc, self.kinds = fire_at, exc, kinds
        self.ticks = 0
        self.sites = {}
        self.fired = None
        self.on_fire = on_fire
        self._codes = codes(with_pardiso=True)
        self._extra = [c for c in extra if c not in self._codes]  # entries of library functions
        self.active = False
        self.tid = _thread.get_ident()

    def _hit(self, code, off, kind, name):
        if sys.exception() is not None or _thread.get_ident() != self.tid:
            return
        self.ticks += 1
        if self.fire_at is None:
            key = (code.co_qualname, code.co_firstlineno, off, kind)
            s = self.sites.get(key)
            if s is None:
                self.sites[key] = [self.ticks, self.ticks, 1]
            else:
                s[1] = self.ticks
                s[2] += 1
        elif self.ticks == self.fire_at and self.fired is None:
            self.fired = [code.co_qualname, off, kind, name]
            self.active = False
            if self.on_fire:
                self.on_fire()
            raise self.exc

    def _start(self, code, off):
        if self.active:
            if code.co_name in ("__repr__", "__exit__", "__del__", "__getstate__") :
                return
            self._hit(code, off, "start", code.co_name)

    def _call(self, code, off, f, arg0):
        if self.active and callee_class(f) == "real":
            self._hit(code, off, "call", _callee_name(f))

    def _cret(self, code, off, f, arg0):
        if self.active:
            if callee_class(f) == "real":
                if "ret" in self.kinds:
                    self._hit(code, off, "ret", _callee_name(f))
            elif "fill" in self.kinds and _callee_name(f) in FILLS:
                self._hit(code, off, "ret", _callee_name(f))

    def _jump(self, code, off, dest):
        # between two rounds of a loop
        if self.active and dest < off:
            self._hit(code, off, "loop", code.co_name)

    def __enter__(self):
        mon.use_tool_id(TOOL, "dst")
        ev = 0
        if "start" in self.kinds:
            mon.register_callback(TOOL, E.PY_START, self._start)
            ev |= E.PY_START
        if "fill" in self.kinds:
            mon.register_callback(TOOL, E.JUMP, self._jump)
            ev |= E.JUMP
        if "call" in self.kinds or "ret" in self.kinds:
            ev |= E.CALL
            if "call" in self.kinds:
                mon.register_callback(TOOL, E.CALL, self._call)
            if "ret" in self.kinds or "fill" in self.kinds:
                mon.register_callback(TOOL, E.C_RETURN, self._cret)
        for c in self._codes:
            mon.set_local_events(TOOL, c, ev)
        for c in self._extra:
            mon.set_local_events(TOOL, c, E.PY_START)
        self.active = True
        return self

    def __exit__(self, *a):
        self.active = False
        for c in self._codes + self._extra:
            mon.set_local_events(TOOL, c, 0)
        for e in (E.PY_START, E.CALL, E.C_RETURN, E.LINE, E.JUMP):
            mon.register_callback(TOOL, e, None)
        mon.free_tool_id(TOOL)
        return False


def pick_ticks(sites, rng, n):
    """n abort points: distinct sites first (weighted to rare ones), varied occurrences."""
    keys = list(sites)  # first-visit order
    if not keys:
        return []
    out = []
    order = keys[:]
    rng.shuffle(order)
    # rarely visited sites are the structural steps; the many visits are element loops
    order.sort(key=lambda k: (sites[k][2] > 3) and rng.random() < 0.6)
    i = 0
    while len(out) < n and i < 4 * n:
        k = order[i % len(order)]
        first, last, cnt = sites[k]
        u = rng.random()
        if cnt == 1 or u < 0.4:
            t = first
        elif u < 0.75:
            t = last
        else:
            t = rng.randint(first, last)
        if t not in out:
            out.append(t)
        i += 1
    return out
