"""Runs simulated executions in forked children of one clean, fully imported process.

Every run starts from the same process state (imports done, nothing computed), which
makes a run a pure function of its plan, whatever ran before and on however many workers.
"""
import os
import pickle
import re
import resource
import select
import signal
import struct
import sys
import time
import traceback

from . import locks


class ChildError(Exception):
    """The harness itself failed inside a child."""


class Crashed:
    """Result of a child that died from a signal, or ran out of its wall-clock limit."""

    def __init__(self, kind, detail):
        self.kind, self.detail = kind, detail

    def __repr__(self):
        return f"Crashed({self.kind}, {self.detail})"


def _hang_watch(wfd, seconds):
    """A run that is still in Python code after this long is a hang, not a slow library."""

    def on_alarm(_sig, frame):
        kind, f = "hang", frame
        while f is not None:
            if f.f_code.co_filename == __file__ and f.f_code.co_name == "results" or f.f_code.co_filename.endswith("dst/servers.py"):
                kind = "timeout"  # waiting for children of its own, each watched itself
            f = f.f_back
        data = pickle.dumps((kind, "".join(traceback.format_stack(frame)[-4:])))
        os.set_blocking(wfd, True)
        os.write(wfd, struct.pack("<Q", len(data)) + data)
        os._exit(0)

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)


def _child(fn, arg, wfd, timeout):
    global _in_child
    try:
        _hang_watch(wfd, 0.6 * timeout)
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        if not _in_child:
            os.setsid()
        _in_child = True
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 0)
        logp = os.path.join(os.environ["DST_SCRATCH"], "work", f"out-{os.getpid()}")
        lf = os.open(logp, os.O_CREAT | os.O_RDWR | os.O_TRUNC, 0o600)
        os.unlink(logp)
        os.dup2(lf, 1)
        os.dup2(lf, 2)
        wd = os.path.join(os.environ["DST_SCRATCH"], "work", str(os.getpid()))
        os.makedirs(wd, exist_ok=True)
        os.chdir(wd)
        try:
            out = ("ok", fn(arg))
        except locks.Deadlock:
            out = ("hang", traceback.format_exc())
        except BaseException:
            out = ("err", traceback.format_exc())
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            data = pickle.dumps(out, protocol=5)
        except BaseException:
            data = pickle.dumps(("err", "unpicklable result: " + traceback.format_exc()))
        os.chdir("/")
        import shutil

        shutil.rmtree(wd, ignore_errors=True)
        with os.fdopen(wfd, "wb", closefd=False) as f:
            f.write(struct.pack("<Q", len(data)))
            f.write(data)
    except BaseException:
        os._exit(3)
    os._exit(0)


_in_child = False


class Task:
    __slots__ = ("key", "pid", "fd", "buf", "deadline", "timed_out")


def run_forked(fn, arg, timeout=None):
    """One forked child from the calling process; returns its result (used inside runs)."""
    p = Pool(1)
    p.submit("x", fn, arg, timeout or 300)
    for _, res in p.results():
        return res


class Pool:
    def __init__(self, workers=None):
        self.workers = workers or min(8, os.cpu_count() or 1)
        self.live = {}
        self.queue = []
        self.qi = 0

    def submit(self, key, fn, arg, timeout=120.0, front=False):
        item = (key, fn, arg, timeout)
        if front:
            self.queue.insert(self.qi, item)
        else:
            self.queue.append(item)

    def pending(self):
        return len(self.queue) - self.qi + len(self.live)

    def _spawn(self):
        while len(self.live) < self.workers and self.qi < len(self.queue):
            key, fn, arg, timeout = self.queue[self.qi]
            self.queue[self.qi] = None
            self.qi += 1
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for t in self.live.values():
                    try:
                        os.close(t.fd)
                    except OSError:
                        pass
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                signal.signal(signal.SIGINT, signal.default_int_handler)
                _child(fn, arg, w, timeout)
            os.close(w)
            t = Task()
            t.key, t.pid, t.fd, t.buf = key, pid, r, bytearray()
            t.deadline = time.monotonic() + timeout
            t.timed_out = False
            self.live[r] = t

    def kill_all(self):
        for t in list(self.live.values()):
            try:
                os.killpg(t.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                try:
                    os.kill(t.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            try:
                os.waitpid(t.pid, 0)
            except ChildProcessError:
                pass
            os.close(t.fd)
        self.live.clear()
        self.queue, self.qi = [], 0

    def results(self):
        """Yields (key, result); more tasks may be submitted while iterating."""
        while self.pending():
            self._spawn()
            fds = list(self.live)
            ready, _, _ = select.select(fds, [], [], 0.5)
            now = time.monotonic()
            done = []
            for fd in ready:
                t = self.live[fd]
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    t.buf += chunk
                else:
                    done.append(t)
            for t in self.live.values():
                if now > t.deadline and not t.timed_out:
                    t.timed_out = True
                    try:
                        os.killpg(t.pid, signal.SIGKILL)
                    except (ProcessLookupError, PermissionError):
                        os.kill(t.pid, signal.SIGKILL)
            for t in done:
                del self.live[t.fd]
                os.close(t.fd)
                _, status = os.waitpid(t.pid, 0)
                yield t.key, self._decode(t, status)

    def _decode(self, t, status):
        if t.timed_out:
            return Crashed("timeout", "wall-clock limit of the run exceeded")
        if len(t.buf) >= 8:
            (n,) = struct.unpack("<Q", t.buf[:8])
            if len(t.buf) == 8 + n:
                kind, val = pickle.loads(bytes(t.buf[8:]))
                if kind == "ok":
                    return val
                if kind in ("hang", "timeout"):
                    return Crashed(kind, val)
                at = re.findall(r'^ *File "([^"]*)"', val, re.M)
                if at and "/src/sectionproperties/" in at[-1]:
                    # the code under test raised where it never does, e.g. while a state
                    # that the run reached is built in a fresh process
                    return Crashed("unexpected-error", val[-1500:])
                raise ChildError(val)
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGKILL, signal.SIGXCPU):
            return Crashed("timeout", "ended by a resource limit")
        if os.WIFSIGNALED(status):
            return Crashed("signal", str(os.WTERMSIG(status)))
        return Crashed("timeout", f"child ended with status {status} and no result")
