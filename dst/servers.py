"""Process servers: freshly started interpreters of another configuration.

A server is a new process (exec), with its own hash seed, installed packages and
just-in-time compilation, that has imported everything and computed nothing.  Every
request runs in a child forked from it: a restarted process of that configuration.
"""
import os
import pickle
import select
import signal
import socket
import struct
import subprocess
import sys
import time

from . import boot


def _send(sock, obj):
    data = pickle.dumps(obj, protocol=5)
    sock.sendall(struct.pack("<Q", len(data)) + data)


def _recv(sock):
    buf = bytearray()
    while len(buf) < 8:
        c = sock.recv(1 << 16)
        if not c:
            return None
        buf += c
    (n,) = struct.unpack("<Q", buf[:8])
    while len(buf) < 8 + n:
        c = sock.recv(1 << 20)
        if not c:
            return None
        buf += c
    return pickle.loads(bytes(buf[8:]))


class Server:
    def __init__(self, name, hashseed="0", block=(), jit=False, warm=None):
        self.name = name
        self.path = os.path.join(boot.scratch_root(), f"srv-{name}")
        env = boot.child_env(jit=jit, hashseed=hashseed)
        env["DST_BOOTED"] = "1"
        env["DST_JIT"] = "1" if jit else "0"
        for k in ("LD_PRELOAD", "DST_IOFAULT"):
            env.pop(k, None)
        r, self.alive = os.pipe()  # the server ends when this end closes
        self.log = open(self.path + ".log", "w+b")
        self.proc = subprocess.Popen([boot.PY, "-m", "dst.servers", self.path, ",".join(block), warm or "", str(r)], env=env, cwd=boot.VERIF, pass_fds=[r], stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log)
        os.close(r)

    def wait(self, timeout=240):
        end = time.monotonic() + timeout
        while not os.path.exists(self.path + ".ready"):
            if self.proc.poll() is not None or time.monotonic() > end:
                self.log.seek(0)
                raise RuntimeError(f"server {self.name} did not start: {self.log.read()[-2000:]!r}")
            time.sleep(0.05)


def call(name, fn, arg, timeout=100):
    """fn is "module:function"; returns its result, or {"server_error": ...}."""
    path = os.path.join(boot.scratch_root(), f"srv-{name}")
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    s.settimeout(timeout)
    try:
        for _ in range(100):
            try:
                s.connect(path)
                break
            except (BlockingIOError, ConnectionRefusedError):
                time.sleep(0.02)
        _send(s, (fn, arg))
        res = _recv(s)
    except TimeoutError:
        return {"server_error": "timeout"}
    finally:
        s.close()
    return {"server_error": "no answer"} if res is None else res


def _serve(path, block, warm, alive):
    import importlib

    boot.import_all(tuple(b for b in block.split(",") if b))
    if warm:
        m, f = warm.split(":")
        getattr(importlib.import_module(m), f)()
    import gc

    gc.collect()
    gc.freeze()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    srv.bind(path)
    srv.listen(64)
    open(path + ".ready", "w").close()
    n = 0
    while True:
        ready, _, _ = select.select([srv, alive], [], [])
        if alive in ready:
            os._exit(0)
        conn, _ = srv.accept()
        n += 1
        pid = os.fork()
        if pid:
            conn.close()
            continue
        try:
            srv.close()
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            signal.alarm(100)
            wd = os.path.join(boot.scratch_root(), "work", f"s{os.getpid()}")
            os.makedirs(wd, exist_ok=True)
            os.chdir(wd)
            fn, arg = _recv(conn)
            m, f = fn.split(":")
            try:
                res = getattr(importlib.import_module(m), f)(arg)
            except BaseException:
                import traceback

                res = {"server_error": traceback.format_exc()}
            _send(conn, res)
            os.chdir("/")
            import shutil

            shutil.rmtree(wd, ignore_errors=True)
        finally:
            os._exit(0)


if __name__ == "__main__":
    _serve(sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]))
