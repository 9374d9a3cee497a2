"""Storage seam (Python side of iofault.c): arming faults, errno names, open handles."""
import ctypes
import errno
import os

OPS = {"none": 0, "open": 1, "write": 2, "close": 3, "read": 4, "fsync": 5, "rename": 6, "short_write": 7, "short_read": 8, "eintr_write": 9, "readcall": 10}
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["DST_IOFAULT"])
        _lib.iof_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int]
        _lib.iof_stat.restype = ctypes.c_long
        _lib.iof_stat.argtypes = [ctypes.c_int]
    return _lib


class Disk:
    """with Disk(root, fault): fault is None or {"op", "n", "err", "persist"}."""

    def __init__(self, root, fault=None):
        self.root, self.fault = os.path.realpath(root), fault
        self.fired = False
        self.stats = {}

    def __enter__(self):
        self.armed = self.fault is not None or "DST_IOFAULT" in os.environ
        if not self.armed:
            return self
        f = self.fault or {"op": "none", "n": 0}
        lib().iof_arm(self.root.encode(), OPS[f["op"]], int(f["n"]), getattr(errno, f.get("err", "EIO")), int(bool(f.get("persist"))))
        return self

    def __exit__(self, *a):
        if not self.armed:
            return False
        lib().iof_disarm()
        self.fired = lib().iof_fired() > 0
        self.stats = {k: lib().iof_stat(v) for k, v in OPS.items() if v}
        return False


HARMLESS = ("short_write", "short_read", "eintr_write")


def write_faults(r, stats, n):
    """Sampled faults for an operation that writes, from the counts of a fault-free run."""
    total, opens = stats["write"], max(1, stats["open"])
    edges = [0, 1, total - 1, total // 2, 8191, 8192, 8193, total - total % 8192, max(0, total - total % 8192 - 1)]
    out = []
    tries = 0
    while len(out) < n and tries < 10 * n:
        tries += 1
        u = r.random()
        if u < 0.5:
            at = r.choice([e for e in edges if 0 <= e < total] or [0]) if r.random() < 0.7 else r.randrange(max(1, total))
            f = {"op": "write", "n": at, "err": r.choice(["ENOSPC", "EIO", "EDQUOT"]), "persist": r.random() < 0.5}
        elif u < 0.65:
            f = {"op": "open", "n": r.randint(1, opens), "err": r.choice(["EACCES", "EMFILE", "EROFS", "ENOSPC", "EIO"]), "persist": r.random() < 0.5}
        elif u < 0.8:
            f = {"op": "close", "n": r.randint(1, max(1, stats["close"])), "err": r.choice(["EIO", "ENOSPC", "EDQUOT"])}
        elif u < 0.84 and stats.get("fsync"):
            f = {"op": "fsync", "n": r.randint(1, stats["fsync"]), "err": "EIO"}
        elif u < 0.88 and stats.get("rename"):
            f = {"op": "rename", "n": r.randint(1, stats["rename"]), "err": r.choice(["EIO", "EACCES", "ENOSPC"])}
        elif u < 0.96:
            f = {"op": "short_write", "n": r.choice([1, 7, 100, 4096])}
        else:
            f = {"op": "eintr_write", "n": r.choice([1, 3])}
        if f not in out:
            out.append(f)
    return out


def handles():
    """Open files of this process below the scratch directory."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if p.startswith("/") and not p.startswith(("/dev/", "/proc/")) and "/out-" not in p:
            out.append(p)
    return sorted(out)
