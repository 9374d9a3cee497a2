"""Back-end seam: the numerical components an analysis relies on can fail on command.

The third-party callables are wrapped where they are defined and wherever a module of the
code under test has bound them, so it does not matter how they are imported.  While a
``Faults`` context is active every call is counted; the chosen call raises, or its answer
is replaced by one that the component reports as failed, that is not finite, or that
violates the Lagrangian constraint.
"""
import functools
import importlib
import sys

import numpy as np

SEAMS = [
    # (seam, module, attribute)
    ("spsolve", "pypardiso", "spsolve"),
    ("spsolve", "pypardiso.scipy_aliases", "spsolve"),
    ("spsolve", "scipy.sparse.linalg", "spsolve"),
    ("cgs", "scipy.sparse.linalg", "cgs"),
    ("spilu", "scipy.sparse.linalg", "spilu"),
    ("brentq", "scipy.optimize", "brentq"),
    ("brentq", "scipy.optimize._zeros_py", "brentq"),
    ("triangulate", "cytriangle", "triangulate"),
]
METHODS = [
    ("pardiso.factorize", "pypardiso.pardiso_wrapper", "PyPardisoSolver", "factorize"),
    ("pardiso.solve", "pypardiso.pardiso_wrapper", "PyPardisoSolver", "solve"),
    ("pardiso.call", "pypardiso.pardiso_wrapper", "PyPardisoSolver", "_call_pardiso"),
]

active = None


class BackendError(Exception):
    """What a failing component raises when the plan asks for a plain exception."""


def make_exc(name):
    if name == "linalg":
        return np.linalg.LinAlgError("Singular matrix (injected)")
    return {"runtime": RuntimeError, "value": ValueError, "memory": MemoryError, "backend": BackendError, "arith": ArithmeticError}[name]("injected back-end failure")


def corrupt(u, how):
    """A linear solver's answer that is not finite or violates the constraint."""
    kind, arg = how[0], how[1]
    u = np.array(u, dtype=float)
    if kind == "nan_all":
        u[:] = np.nan
    elif kind == "inf_all":
        u[:] = np.inf
    elif kind in ("nan_at", "inf_at", "ninf_at"):
        u[int(arg * (u.size - 1))] = {"nan_at": np.nan, "inf_at": np.inf, "ninf_at": -np.inf}[kind]
    elif kind == "lagrange":
        u[-1] = arg * np.max(np.abs(u[:-1]))
    return u


def must_raise(seam, how, u):
    """Whether the property demands an exception after this fault."""
    if how[0] == "lagrange":
        return bool(abs(u[-1]) > 1e3 * np.finfo(float).eps)
    return how[0] not in ("precond_nan",)


class Faults:
    """plan: None (only record) or [seam, k, how] - how = [kind, argument]."""

    def __init__(self, fault=None):
        self.fault = fault
        self.calls = []
        self.count = {}
        self.fired = None

    def __enter__(self):
        global active
        install()
        active = self
        return self

    def __exit__(self, *a):
        global active
        active = None
        return False

    def run(self, seam, orig, a, k):
        n = self.count[seam] = self.count.get(seam, 0) + 1
        self.calls.append([seam, n])
        f = self.fault
        if f is None or self.fired or f[0] != seam or f[1] != n:
            return orig(*a, **k)
        how = f[2]
        if how[0] == "raise":
            self.fired = [seam, n, how, True]
            raise make_exc(how[1])
        if how[0] == "raise_after":
            orig(*a, **k)
            self.fired = [seam, n, how, True]
            raise make_exc(how[1])
        if seam == "brentq":
            # one step is not enough: the root finder itself reports that it failed
            self.fired = [seam, n, how, True]
            return orig(*a, **{**k, "maxiter": 1})
        if seam == "cgs":
            u, info = orig(*a, **k)
            if how[0] == "info":
                self.fired = [seam, n, how, True]
                return u, how[1]
            u = corrupt(u, how)
            self.fired = [seam, n, how, must_raise(seam, how, u)]
            return u, info
        if seam == "spilu":
            lu = orig(*a, **k)
            self.fired = [seam, n, how, False]

            class Broken:
                shape = lu.shape

                @staticmethod
                def solve(rhs, *aa, **kk):
                    return np.full_like(np.asarray(rhs, dtype=float), np.nan)

            return Broken()
        u = corrupt(orig(*a, **k), how)
        self.fired = [seam, n, how, must_raise(seam, how, u)]
        return u


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    wraps = {}

    def wrap(seam, orig):
        if id(orig) in wraps:
            return wraps[id(orig)]

        @functools.wraps(orig)
        def w(*a, **k):
            if active is None:
                return orig(*a, **k)
            # a seam called from inside the same seam is one call
            if getattr(active, "inside", None) == seam:
                return orig(*a, **k)
            prev = getattr(active, "inside", None)
            if seam == "brentq" or not seam.startswith("pardiso"):
                active.inside = seam
            try:
                return active.run(seam, orig, a, k)
            finally:
                if active is not None:
                    active.inside = prev

        wraps[id(orig)] = w
        w._dst_orig = orig
        return w

    for seam, mod, attr in SEAMS:
        try:
            m = importlib.import_module(mod)
            orig = getattr(m, attr)
        except (ImportError, AttributeError):
            continue
        if hasattr(orig, "_dst_orig"):
            continue
        w = wrap(seam, orig)
        setattr(m, attr, w)
        for name, module in list(sys.modules.items()):
            if module is not None and (name.split(".")[0] in ("sectionproperties", "pypardiso", "cytriangle") or name in ("scipy.sparse.linalg", "scipy.optimize")):
                for key, val in list(vars(module).items()):
                    if val is orig:
                        setattr(module, key, w)
    for seam, mod, cls, attr in METHODS:
        try:
            c = getattr(importlib.import_module(mod), cls)
            setattr(c, attr, wrap(seam, getattr(c, attr)))
        except (ImportError, AttributeError):
            continue


def kinds_for(seam):
    """Fault kinds of a seam: lists of [kind, argument]."""
    raises = [["raise", x] for x in ("runtime", "value", "memory", "backend", "linalg", "arith")]
    bad = [["nan_all", 0], ["inf_all", 0]] + [[k, x] for k in ("nan_at", "inf_at", "ninf_at") for x in (0.0, 0.37, 0.8, 1.0)]
    if seam == "spsolve":
        return raises[:1] + raises[3:5] + bad + [["lagrange", s * r] for r in (3e-7, 1e-6, 1e-5, 1e-3, 0.5, 3.0) for s in (1, -1)]
    if seam == "cgs":
        return raises[:3] + [["info", 1], ["info", 7], ["info", -1], ["info", 10000]] * 2 + bad + [["lagrange", s * r] for r in (5e-5, 1e-3, 0.5, 3.0) for s in (1, -1)]
    if seam == "spilu":
        return raises + [["precond_nan", 0]]
    if seam == "brentq":
        return raises[:3] + [["noconv", 0]] * 6
    if seam == "triangulate":
        return raises + [["raise_after", "runtime"]]
    return raises + [["raise_after", "runtime"]]
