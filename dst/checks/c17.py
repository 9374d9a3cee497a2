"""C17: a long-lived process does not accumulate.

A run repeats one cycle of user operations many times.  Every cycle is done with other
numbers (other dimensions, other actions), its objects are dropped, and what the process
still holds is measured: memory, objects of the package, threads, open files, figures,
warning filters, files on disk, and the number of steps the next cycle takes.  A cache
that declares a bound may fill up to its bound; everything else has to stop growing.
"""
import atexit
import collections
import contextlib
import ctypes
import functools
import gc
import json
import logging
import os
import sys
import tempfile
import threading
import tracemalloc
import types
import warnings
import weakref

import numpy as np

from .. import boot, canon, exprs, gen, ticks, world
from ..engine import Check
from .aborts import EXC
from .c11 import content
from .c01 import drop_ops

DATA = os.path.join(boot.VERIF, "dst", "data")
FILES = {"holes": "section_holes.dxf", "plate": "3in x 2in.3dm", "complex": "complex_shape.3dm", "compound": "compound_shape.3dm"}
BAD_FILES = {
    "torn.dxf": {"kind": "dxf", "shapes": [["lines", [[0.0, 0.0], [30.0, 0.0], [30.0, 20.0], [0.0, 20.0]], "solid"]], "cut": 0.55},
    "nothing.dxf": {"kind": "dxf", "shapes": [["text"], ["open", [[0.0, 0.0], [30.0, 0.0], [30.0, 20.0]], "solid"]]},
    "garbage.dxf": {"kind": "garbage", "n": 300},
    "torn.3dm": {"kind": "data", "name": "3in x 2in.3dm", "cut": 0.7},
}
KINDS = ["an", "an", "stress", "stress", "q", "pts", "pts", "sq", "qmesh", "section", "derived", "gquery", "gplot", "gmethod", "secplot", "secplot", "splot", "splot", "disp", "fibre", "fibre", "bad", "bad", "remesh", "same", "same", "import", "import"]
WARM = 5
LOOK = 4
LONG = 18
LARGEST_CACHE = 1 << 17  # entries; a declared bound above this is none
NOISE = {"memory": 60000, "native memory": 400000, "steps": 50}


def vary(e, k):
    """The same drawing with every dimension multiplied by k."""
    if isinstance(e, list):
        if e and e[0] == "lib":
            return [e[0], e[1], {a: dim(v, k) if not (a == "material" or "mat" in a) else v for a, v in e[2].items()}]
        if e and e[0] in ("poly", "points", "cpoints", "dxf", "3dm", "3dmc"):
            return ["scaled", e, k]
        return [vary(x, k) for x in e]
    return e


def dim(v, k):
    if isinstance(v, bool) or isinstance(v, int):
        return v
    if isinstance(v, float):
        return v * k
    if isinstance(v, (list, tuple)):
        return [dim(x, k) for x in v]
    return v


def caches():
    return [o for o in gc.get_objects() if isinstance(o, functools._lru_cache_wrapper)]


class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


_mallinfo = ctypes.CDLL(None).mallinfo2
_mallinfo.restype = Mallinfo


def native():
    m = _mallinfo()
    return m.uordblks + m.hblkhd


def fill_block_caches():
    """numpy keeps up to 7 freed blocks of every small size; full, they do not vary."""
    for n in range(1, 129):
        keep = [np.empty(n) for _ in range(8)]
        keep = None  # noqa
    for n in range(1, 17):
        keep = [np.empty((1,) * n) for _ in range(8)]
        keep = None  # noqa


INSIDE = (dict, list, tuple, set, frozenset, collections.deque, types.FunctionType, types.MethodType, types.CellType, types.MappingProxyType, functools.partial, classmethod, staticmethod, property)


def package(t):
    return str(getattr(t, "__module__", "")).split(".")[0] == "sectionproperties"


def walk(roots):
    """Number of entries, and bytes of arrays, of everything the roots refer to.

    Stops at objects of other packages.
    """
    seen = set()
    todo = list(roots)
    n = size = 0
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        n += 1
        if isinstance(o, np.ndarray):
            size += o.nbytes
        elif isinstance(o, types.ModuleType):
            continue
        elif isinstance(o, type):
            if package(o):
                todo += list(vars(o).values())
        elif isinstance(o, INSIDE) or package(type(o)) or isinstance(o, (weakref.WeakKeyDictionary, weakref.WeakValueDictionary, weakref.WeakSet)):
            if isinstance(o, types.FunctionType):
                if package(o):
                    todo += [x for x in (o.__closure__, o.__defaults__, o.__kwdefaults__, o.__dict__) if x]
            else:
                todo += gc.get_referents(o)
                if isinstance(o, (dict, list, tuple, set, collections.deque)):
                    n += len(o)
    return n, size


def modules():
    return [vars(m) for k, m in sorted(sys.modules.items()) if m is not None and k.split(".")[0] == "sectionproperties"]


class CHECK(Check):
    id = "C17"
    quick_runs = 80
    thorough_runs = 2500
    quick_cap = 100.0
    rule = "a run repeats one seeded cycle of operations, with faults, up to 27 times with other numbers; distinct by (operations and outcomes of the cycle, mode)"
    assumptions = [
        "a cache that declares a bound of at most 131072 entries is emptied by the harness before measuring",
        "memory: what tracemalloc sees (Python and numpy) and what glibc's allocator holds; buffers that MKL maps itself are not seen, and what rhino3dm's own bindings lose per file is not judged",
    ]

    def files(self):
        return {**{k: os.path.join(DATA, v) for k, v in FILES.items()}, **self._bad}

    def prepare(self, seed, tier):
        self._caches = caches()  # of the package and of all libraries
        self._bad = {}
        for k, spec in BAD_FILES.items():
            self._bad[k] = os.path.join(boot.scratch_root(), k)
            with open(self._bad[k], "wb") as f:
                f.write(content(spec))
        tracemalloc.start(1)

    def plan(self, r, i, tier):
        fam = exprs.family(r, 2)
        mode = r.choice(["fresh", "fresh", "fresh", "held", "held", "held", "thread"])
        base = []
        h = gen.Hist(r, fam)
        if r.random() < 0.3:
            h.specs = [exprs.from_library(r)]
        s = h.section(h.geo())
        if mode == "held":
            for k in r.choice([["geometric"], ["geometric", "warping"], ["geometric", "warping", "plastic"], ["frame"]]):
                h.analyse(s, k)
            if r.random() < 0.5:
                h.stress(s)
            base, h.ops = h.ops, []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            k = r.choice(KINDS)
            if k == "same":
                # the same geometry once more
                h.section(r.choice([g for g in sorted(h.g) if h.g[g]["meshed"]] or [None]))
            elif k == "import":
                n = r.choice(sorted(FILES) + sorted(BAD_FILES) * 2)
                h.add({"op": "geo", "out": h.name("g"), "e": ["dxf" if n == "holes" or n.endswith("dxf") else r.choice(["3dm", "3dmc"]), n], "mesh": None})
            else:
                h.step(k)
        cyc = [op for op in h.ops if op["op"] != "del"]
        for op in cyc:
            if op["op"] in ("an", "stress", "mesh", "section", "fibre", "geo") and r.random() < 0.12:
                op["abort"] = {"tick": int(10 ** r.uniform(0, 3.6)), "exc": r.choice(["interrupt", "memory"])}
        return {"mode": mode, "base": base, "ops": cyc}

    # -- one cycle
    def cycle(self, w, ops, k, first, count):
        out, steps = [], 0
        for op in ops:
            a = op.get("abort")
            op = {x: y for x, y in op.items() if x != "abort"}
            if op["op"] == "geo":
                op["e"] = vary(op["e"], k)
                if op.get("mesh"):
                    op["mesh"] *= k * k
            if op["op"] == "mesh":
                op["size"] = [x * k * k for x in op["size"]] if isinstance(op["size"], list) else op["size"] * k * k
            if op["op"] == "pts":
                op["eps"] = 1e-3 * (k - 1.0)
            if "act" in op:
                op["act"] = {x: y * k for x, y in op["act"].items()}
            try:
                if a:
                    rec = ticks.Recorder(fire_at=a["tick"], exc=EXC[a["exc"]]())
                    try:
                        with rec:
                            obs = w.do(op, capture=False)
                    finally:
                        rec.exc = None
                elif count:
                    rec = ticks.Recorder(fire_at=-1, kinds=("start",))
                    with rec:
                        obs = w.do(op, capture=False)
                    steps += rec.ticks
                else:
                    rec = None
                    obs = w.do(op, capture=False)
                o = obs.get("exc") or ("skip" if obs.get("skip") else "ok")
            except BaseException as x:
                o = type(x).__name__
            obs = None
            if first:
                out.append([op["op"], o, rec.fired if rec else None])
        return out, steps

    def measure(self, scratch, steps, held):
        known = walk(modules())
        kept = walk(list(held.slots.values())) if held else (0, 0)
        endless = 0
        for _ in range(3):
            gc.collect()
        for c in self._caches:
            n = c.cache_parameters()["maxsize"]
            if n is not None and n <= LARGEST_CACHE:
                c.cache_clear()
            elif package(c):
                endless += c.cache_info().currsize
        gc.collect()
        fill_block_caches()
        import matplotlib.pyplot as plt

        m = {
            "memory": tracemalloc.get_traced_memory()[0],
            "native memory": native(),
            "threads": threading.active_count(),
            "open files": len(os.listdir("/proc/self/fd")),
            "figures": len(plt.get_fignums()),
            "warning filters": len(warnings.filters),
            "files": len(os.listdir(scratch)),
            "environment": len(os.environ),
            "search path": len(sys.path),
            "exit functions": atexit._ncallbacks(),
            "finalizers": len(weakref.finalize._registry),
            "log handlers": len(logging.root.handlers) + len(logging._handlers),
            "loggers": len(logging.root.manager.loggerDict),
            "import hooks": len(sys.meta_path) + len(sys.path_hooks),
            "steps": steps,
            "entries of the package": known[0],
            "entries of unbounded caches": endless,
            "arrays of the package": known[1],
            "entries of kept objects": kept[0],
            "arrays of kept objects": kept[1],
        }
        kinds = {}
        for o in gc.get_objects():
            t = type(o)
            n = t.__module__
            if isinstance(n, str) and (n.startswith("sectionproperties") or n.startswith("matplotlib.figure")):
                kinds[t.__qualname__] = kinds.get(t.__qualname__, 0) + 1
        for n, v in kinds.items():
            m["objects " + n] = v
        return m

    def execute(self, plan):
        warnings.simplefilter("ignore")
        sys.stdout, stdout = open(os.devnull, "w"), sys.stdout
        scratch = os.path.join(os.getcwd(), f"c17-{os.getpid()}")
        os.makedirs(scratch)
        os.chdir(scratch)
        tempfile.tempdir = scratch
        held = None
        if plan["mode"] == "held":
            held = world.World(files=self.files(), scratch=scratch)
            for op in plan["base"]:
                held.do(op)
            slots, prov = dict(held.slots), dict(held.prov)
        book = os.memfd_create("c17")
        log = {"first": None}
        state = {"i": 0, "steps": 0}

        count = plan["mode"] != "thread"

        def cycle():
            i = state["i"]
            if held is not None:
                w = held
                w.slots.clear()
                w.slots.update(slots)
                w.prov = dict(prov)
                w.builder.mats.clear()
            else:
                w = world.World(files=self.files(), scratch=scratch)
            out, state["steps"] = self.cycle(w, plan["ops"], 1.0 + 0.0004 * i, i == 0, count)
            if i == 0:
                log["first"] = out
            if held is not None:
                w.slots.clear()
                w.slots.update(slots)
                w.prov = {}
            gc.collect()

        def read():
            return [json.loads(x) for x in os.pread(book, 1 << 24, 0).splitlines()]

        def one():
            if plan["mode"] == "thread":
                t = threading.Thread(target=cycle)
                t.start()
                t.join()
                del t
            else:
                cycle()
            # kept outside the memory that is measured
            os.write(book, json.dumps(self.measure(scratch, state['steps'], held)).encode() + b"\n")
            state["i"] += 1

        try:
            for _ in range(WARM + LOOK):
                one()
            if self.suspects(read()[-LOOK:]):
                for _ in range(LONG):
                    one()
                series = read()
                log["long"] = True
                log["grown"] = self.grown(series[WARM + LOOK :])
        finally:
            sys.stdout = stdout
            os.chdir("/")
            with contextlib.suppress(OSError):
                for f in os.listdir(scratch):
                    os.unlink(os.path.join(scratch, f))
                os.rmdir(scratch)
        if os.environ.get("C17_DEBUG"):
            series = read()
            log["series"] = {k: [m.get(k, 0) for m in series] for k in sorted(set().union(*series))}
        return log

    @staticmethod
    def suspects(ms):
        return [k for k in sorted(set().union(*ms)) if ms[-1].get(k, 0) - ms[0].get(k, 0) > NOISE.get(k, 0) / 6]

    @staticmethod
    def grown(ms):
        """Measures whose last third lies above the middle one, and that above the first."""
        n = len(ms) // 3
        out = {}
        for k in sorted(set().union(*ms)):
            v = [m.get(k, 0) for m in ms]
            a, b, c = v[:n], v[n : 2 * n], v[2 * n :]
            if min(b) - max(a) > 0 and min(c) - max(b) > 0 and min(c) - max(a) > NOISE.get(k, 0):
                out[k] = [v[0], v[-1], len(v)]
        return out

    def judge(self, plan, log, refs):
        out = []
        third = any(str(op.get("e", [""])[0]).startswith("3dm") for op in plan["ops"])
        for k, (a, b, n) in (log.get("grown") or {}).items():
            if third and k == "native memory":
                continue  # rhino3dm's bindings lose 58 kB per file, without this package too
            out.append({"class": "grows:" + k.split()[0], "detail": f"{k} grows from {a} to {b} in {n} cycles of {canon.short(log['first'])}", "key": "grows:" + k})
        return out

    def smaller(self, plan, log, viol):
        yield from drop_ops(plan)
        for i, op in enumerate(plan["ops"]):
            if "abort" in op:
                yield {**plan, "ops": plan["ops"][:i] + [{a: b for a, b in op.items() if a != "abort"}] + plan["ops"][i + 1 :]}
        if plan["mode"] == "thread":
            yield {**plan, "mode": "fresh"}

    def stable(self, log):
        return log["first"]

    def states(self, plan, log):
        return [canon.fp([plan["mode"], log["first"], plan["base"]])]

    def account(self, st, plan, log):
        st["mode:" + plan["mode"]] += 1
        n = WARM + LOOK + (LONG if log.get("long") else 0)
        st["cycles"] += n
        for op, o, fired in log["first"] or []:
            st["op:" + op] += n
            if fired:
                st["fault:" + o] += n
            elif o not in ("ok", "skip"):
                st["fault:rejected_call_" + o] += n
