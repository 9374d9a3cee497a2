"""Canonical form of observations, comparison with tolerances, exact fingerprints."""
import hashlib
import math
import re

import numpy as np

RTOL = 1e-6
ATOL_REL = 1e-8  # relative to the largest magnitude of the enclosing group


def canon(x, depth=0):
    """Plain, picklable, order-stable form of an observed value."""
    if depth > 12:
        return "<deep>"
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return x
    if isinstance(x, float):
        return float(x)
    if isinstance(x, np.generic):
        return canon(x.item(), depth + 1)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return [canon(v, depth + 1) for v in x.tolist()]
        return np.array(x)
    if isinstance(x, dict):
        return {str(k): canon(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        if x and all(isinstance(v, (float, int, np.floating, np.integer)) and not isinstance(v, bool) for v in x):
            return np.array([float(v) for v in x])
        return [canon(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((canon(v, depth + 1) for v in x), key=repr)
    if hasattr(x, "geom_type"):
        from shapely import get_coordinates

        return {"shape": x.geom_type, "coords": np.array(get_coordinates(x))}
    if type(x).__name__ == "Material" and hasattr(x, "elastic_modulus"):
        return {"mat": x.name, "v": np.array([x.elastic_modulus, x.poissons_ratio, x.yield_strength, x.density], dtype=float), "c": str(x.color)}
    if isinstance(x, BaseException):
        return {"exc": type(x).__name__}
    return f"<{type(x).__name__}>"


NUM = re.compile(r"[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?|\bnan\b|\binf\b")


class Mismatch(Exception):
    pass


def _scale_of(x):
    if isinstance(x, np.ndarray) and x.size and x.dtype.kind in "fiu":
        f = x[np.isfinite(x)] if x.dtype.kind == "f" else x
        return float(np.max(np.abs(f))) if f.size else 0.0
    if isinstance(x, float):
        return abs(x) if math.isfinite(x) else 0.0
    return 0.0


def diff(a, b, rtol=RTOL, atol_rel=ATOL_REL, path="", scale=0.0, text_numbers=True):
    """None when a and b agree, else a short description of the first difference."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if isinstance(a, (int, float)) and not isinstance(a, bool):
            a = np.array([float(a)])
        if isinstance(b, (int, float)) and not isinstance(b, bool):
            b = np.array([float(b)])
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{path}: {short(a)} != {short(b)}"
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} != {b.shape}"
        if a.size == 0:
            return None
        if a.dtype.kind not in "fiu" or b.dtype.kind not in "fiu":
            return None if np.array_equal(a, b) else f"{path}: arrays differ"
        if a.dtype.kind in "iu" and b.dtype.kind in "iu":
            return None if np.array_equal(a, b) else f"{path}: integer arrays differ"
        af, bf = a.astype(float), b.astype(float)
        sc = max(_scale_of(af), _scale_of(bf), scale)
        ok = np.isclose(af, bf, rtol=rtol, atol=atol_rel * sc, equal_nan=True)
        if ok.all():
            return None
        i = tuple(int(k) for k in np.argwhere(~ok)[0])
        return f"{path}[{','.join(map(str, i))}]: {af[i]!r} != {bf[i]!r}"
    num = (int, float)
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool) and not isinstance(b, bool):
        if a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b)):
            return None
        if isinstance(a, int) and isinstance(b, int):
            return f"{path}: {a!r} != {b!r}"
        if math.isfinite(a) and math.isfinite(b) and abs(a - b) <= rtol * max(abs(a), abs(b)) + atol_rel * scale:
            return None
        return f"{path}: {a!r} != {b!r}"
    if type(a) is not type(b):
        return f"{path}: {short(a)} != {short(b)}"
    if isinstance(a, dict):
        if list(sorted(a)) != list(sorted(b)):
            extra = sorted(set(a) ^ set(b))
            return f"{path}: keys differ: {extra[:4]}"
        for k in sorted(a):
            d = diff(a[k], b[k], rtol, atol_rel, f"{path}.{k}", scale, text_numbers)
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, rtol, atol_rel, f"{path}[{i}]", scale, text_numbers)
            if d:
                return d
        return None
    if isinstance(a, str):
        if a == b:
            return None
        if text_numbers:
            return _text_diff(a, b, rtol, path)
        return f"{path}: {short(a)} != {short(b)}"
    return None if a == b else f"{path}: {short(a)} != {short(b)}"


def _text_diff(a, b, rtol, path):
    ta, tb = NUM.split(a), NUM.split(b)
    na, nb = NUM.findall(a), NUM.findall(b)
    # the sign of a number that rounds to zero may move characters between tokens
    norm = lambda ts: [re.sub(r"\s+", " ", t) for t in ts]
    if len(na) != len(nb) or norm(ta) != norm(tb):
        return f"{path}: text differs: {first_text_difference(a, b)}"
    fa, fb = [float(x) for x in na], [float(x) for x in nb]
    fin = [abs(v) for v in fa + fb if math.isfinite(v)]
    sc = max(fin) if fin else 0.0
    if len(na) >= 4 and None not in (_format(na), _format(nb)):
        if _format(na) != _format(nb):
            return f"{path}: numbers in text in another format: {na[:3]} != {nb[:3]}"
        for x, y in zip(na, nb):
            if x[-1] not in "nf" and y[-1] not in "nf" and (_shape(x) == _format(na)) != (_shape(y) == _format(na)):
                return f"{path}: a number in text in another format: {x} != {y}"
    for x, y, tx, ty in zip(fa, fb, na, nb):
        if x == y or (math.isnan(x) and math.isnan(y)):
            continue
        if len(tx) == len(ty) and abs(x - y) <= 1.01 * _unit(tx):
            # rounded to few digits, from the two sides of a boundary
            continue
        if abs(x - y) > max(rtol, 2e-6) * max(abs(x), abs(y)) + 1e-9 * sc:
            return f"{path}: number in text: {x!r} != {y!r}"
    return None


def _unit(t):
    """One unit in the last place of a number in a text."""
    m, _, e = t.lower().partition("e")
    return 10.0 ** (int(e or 0) - len(m.partition(".")[2]))


def _shape(t):
    m, e, _ = t.lower().partition("e")
    return (bool(e), len(m.partition(".")[2]))


def _format(ts):
    """The number format most numbers of a text share, if there is one."""
    fs = [_shape(t) for t in ts]
    f = max(set(fs), key=fs.count)
    return f if fs.count(f) > 0.6 * len(fs) else None


def first_text_difference(a, b):
    for la, lb in zip(a.splitlines(), b.splitlines()):
        if la != lb:
            return f"{la.strip()[:80]!r} != {lb.strip()[:80]!r}"
    return f"{len(a)} != {len(b)} characters"


def short(x):
    s = repr(x)
    return s if len(s) < 90 else s[:87] + "..."


# ---- exact fingerprints ------------------------------------------------------------

def _feed(h, x, depth, seen):
    if depth > 14:
        return
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        h.update(repr(x).encode())
        h.update(b";")
        return
    if isinstance(x, np.ndarray):
        h.update(str(x.dtype).encode() + str(x.shape).encode())
        h.update(np.ascontiguousarray(x).tobytes() if x.dtype != object else repr(x.tolist()).encode())
        return
    if isinstance(x, np.generic):
        h.update(repr(x.item()).encode())
        return
    if isinstance(x, dict):
        h.update(b"{")
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            _feed(h, x[k], depth + 1, seen)
        h.update(b"}")
        return
    if isinstance(x, (list, tuple)):
        h.update(b"[")
        for v in x:
            _feed(h, v, depth + 1, seen)
        h.update(b"]")
        return
    if isinstance(x, (set, frozenset)):
        for v in sorted(x, key=repr):
            _feed(h, v, depth + 1, seen)
        return
    if hasattr(x, "wkb"):
        h.update(x.wkb)
        return
    if type(x).__name__ == "Material":
        h.update(repr(sorted(vars(x).items(), key=str)).encode())
        return
    h.update(type(x).__name__.encode())


def fp(x):
    h = hashlib.sha1()
    _feed(h, x, 0, set())
    return h.hexdigest()[:16]


# ---- arguments before and after a call -----------------------------------------------

def snapshot(x):
    """A copy of containers; other objects are kept by identity."""
    if isinstance(x, list):
        return ["list", x, [snapshot(v) for v in x]]
    if isinstance(x, tuple):
        return ["tuple", x, [snapshot(v) for v in x]]
    if isinstance(x, dict):
        return ["dict", x, [(k, snapshot(v)) for k, v in x.items()]]
    if isinstance(x, np.ndarray):
        return ["array", x, x.copy()]
    if type(x).__name__ == "Material":
        return ["mat", x, dict(vars(x))]
    return ["obj", x, x]


def same_as(snap):
    """True when the object still is what the snapshot recorded."""
    kind, x, was = snap
    if kind in ("list", "tuple"):
        return len(x) == len(was) and all(x[i] is w[1] and same_as(w) for i, w in enumerate(was))
    if kind == "dict":
        return list(x) == [k for k, _ in was] and all(x[k] is w[1] and same_as(w) for k, w in was)
    if kind == "array":
        return x.shape == was.shape and np.array_equal(x, was, equal_nan=x.dtype.kind == "f")
    if kind == "mat":
        return dict(vars(x)) == was
    return True


def plain_numbers(v):
    """A finite number, or a tuple of finite numbers."""
    if isinstance(v, (list, tuple)):
        return bool(v) and all(plain_numbers(x) for x in v)
    if isinstance(v, np.ndarray):
        return v.size > 0 and bool(np.isfinite(v).all())
    return isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, bool) and math.isfinite(v)
