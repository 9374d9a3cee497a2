"""Seeded scheduler: real threads of the simulated process, run one at a time.

Every simulated thread owns a gate; only the thread whose gate was opened runs.  At each
line of the code under simulation (each bytecode instruction of some functions in fine
mode) the policy may close the running thread's gate and open another one; a thread that
meets a held lock is parked by the lock seam (locks.py).  The schedule that was executed
is the list of [step, thread] switches; replaying this list repeats the run exactly.
"""
import random
import sys
import threading
import traceback
import _thread

from . import locks, ticks

mon = sys.monitoring
E = mon.events
TOOL = 4


BACKENDS = {"cytriangle", "cytriangle.cytriangle", "triangle", "pypardiso", "pypardiso.scipy_aliases", "pypardiso.pardiso_wrapper"}
BACKEND_NAMES = {"triangulate", "spsolve", "splu", "spilu", "cgs", "brentq", "solve", "factorize"}


def random_interrupt(r, n):
    """When the interrupt of one of n threads arrives."""
    u = r.random()
    tid = r.randrange(n)
    if u < 0.4:
        return {"tid": tid, "tick": int(10 ** r.uniform(0, 4.3))}
    if u < 0.7:
        return {"tid": tid, "by": "new", "tick": r.randint(1, 250)}
    return {"tid": tid, "by": "backend", "tick": r.choice([1, 1, 2, 2, 3, 4, 5, 6])}


class Policy:
    """Decides at each step whether another thread runs next."""

    def __init__(self, spec, nthreads, seed):
        self.spec, self.n = spec, nthreads
        self.r = random.Random(seed)
        self.kind = spec["p"]
        self.seen = {}
        self.focus = {}
        if self.kind == "pct":
            pr = list(range(nthreads))
            self.r.shuffle(pr)
            self.prio = {t: 100 + p for t, p in enumerate(pr)}
            self.change = sorted(int(10 ** self.r.uniform(0, spec.get("span", 4.7))) for _ in range(spec["d"]))
            self.low = 0
        if self.kind == "list":
            self.at = {}
            for s, t in spec["switches"]:
                self.at.setdefault(s, []).append(t)

    def in_focus(self, code):
        f = self.focus.get(code)
        if f is None:
            f = self.focus[code] = random.Random(f"{self.spec['salt']}/{code.co_qualname}").random() < self.spec["share"]
        return f

    def other(self, tid, ready):
        c = [t for t in ready if t != tid]
        return self.r.choice(c) if c else None

    def at_step(self, step, tid, code, where, ready):
        k = self.kind
        if k == "walk":
            return self.other(tid, ready) if self.r.random() < self.spec["q"] else None
        if k == "list":
            ts = self.at.get(step)
            while ts:
                t = ts.pop(0)
                if t in ready and t != tid:
                    return t
            return None
        if k == "pct":
            while self.change and step >= self.change[0]:
                self.change.pop(0)
                self.low -= 1
                self.prio[tid] = self.low
            best = max(ready, key=lambda t: self.prio[t])
            return best if best != tid else None
        if k in ("first", "stall"):
            key = (tid, code, where)
            c = self.seen.get(key, 0)
            if c >= self.spec["k"]:
                return None
            self.seen[key] = c + 1
            if self.r.random() < self.spec["q"]:
                return self.other(tid, ready)
            return None
        if k == "focus":
            if self.in_focus(code) and self.r.random() < self.spec["q"]:
                return self.other(tid, ready)
            return None
        return None

    def pick(self, step, ready):
        """The running thread ended or blocked: who is next."""
        if self.kind == "list":
            ts = self.at.get(step)
            while ts:
                t = ts.pop(0)
                if t in ready:
                    return t
            return min(ready)
        if self.kind == "pct":
            return max(ready, key=lambda t: self.prio[t])
        return self.r.choice(sorted(ready))


def random_policy(r):
    u = r.random()
    if u < 0.22:
        return {"p": "walk", "q": r.choice([0.3, 0.03, 0.003, 0.0005])}
    if u < 0.42:
        return {"p": "pct", "d": r.choice([1, 2, 3, 5]), "span": r.choice([3.5, 4.7])}
    if u < 0.62:
        return {"p": "first", "k": r.choice([1, 1, 2, 4]), "q": r.choice([0.02, 0.1, 0.5])}
    if u < 0.82:
        return {"p": "focus", "salt": r.randrange(1 << 30), "share": r.choice([0.03, 0.1]), "q": r.choice([0.05, 0.5]), "fine": r.random() < 0.4}
    # few preemptions, each on a line that is visited for the first time
    return {"p": "stall", "k": 1, "q": 0.01}


class Scheduler:
    def __init__(self, fns, policy, seed, interrupt=None):
        self.fns = fns
        self.policy = Policy(policy, len(fns), seed)
        self.interrupt = interrupt  # {"tid", "tick", "exc"}
        self.fine = policy.get("fine")
        n = len(fns)
        self.gates = [_thread.allocate_lock() for _ in range(n)]
        for g in self.gates:
            g.acquire()
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.state = ["ready"] * n
        self.waiting = [None] * n
        self.tids = {}
        self.cur = None
        self.step = 0
        self.trace = []
        self.where = []
        self.nticks = 0
        self.visited = set()
        self.fired = None
        self.deadlock = None
        self.errors = [None] * n
        self.results = [None] * n
        self.active = False

    # -- the lock seam asks these
    def is_sim_thread(self):
        return _thread.get_ident() in self.tids

    def block_on(self, lock):
        me = self.tids[_thread.get_ident()]
        self.state[me] = "blocked"
        self.waiting[me] = lock
        self._leave(me)
        self.gates[me].acquire()

    def unblock(self, lock):
        for t, w in enumerate(self.waiting):
            if w is lock:
                self.waiting[t] = None
                self.state[t] = "ready"

    # -- switching
    def ready(self):
        return [t for t, s in enumerate(self.state) if s == "ready"]

    def _leave(self, me):
        """me cannot go on: opens another gate, or reports the end."""
        ready = self.ready()
        if ready:
            nxt = self.policy.pick(self.step, ready)
            self.trace.append([self.step, nxt])
            self.cur = nxt
            self.gates[nxt].release()
            return
        if any(s == "blocked" for s in self.state):
            frames = sys._current_frames()
            ids = {v: k for k, v in self.tids.items()}
            self.deadlock = ["".join(traceback.format_stack(frames[ids[t]])[-4:]) for t, s in enumerate(self.state) if s == "blocked"]
        self.done.release()

    def _switch(self, me, nxt, code, where):
        self.trace.append([self.step, nxt])
        self.where.append((code.co_qualname, where, me, nxt))
        self.cur = nxt
        self.gates[nxt].release()
        self.gates[me].acquire()

    def _line(self, code, where):
        me = self.tids.get(_thread.get_ident())
        if me is None or not self.active:
            return
        self.step += 1
        nxt = self.policy.at_step(self.step, me, code, where, self.ready())
        if nxt is not None:
            self._switch(me, nxt, code, where)

    def _instr(self, code, off):
        if self.policy.in_focus(code):
            self._line(code, ("i", off))

    # -- interrupts
    def _hit(self, code, off, kind, name):
        if not self.active or self.tids.get(_thread.get_ident()) != self.interrupt["tid"] or self.fired or sys.exception() is not None:
            return
        by = self.interrupt.get("by", "tick")
        if by == "new":
            # counts the points that the thread visits for the first time
            if (code, off) in self.visited:
                return
            self.visited.add((code, off))
        elif by == "backend" and not (kind == "call" and getattr(self.callee, "__module__", None) in BACKENDS or name in BACKEND_NAMES):
            return
        self.nticks += 1
        if self.nticks == self.interrupt["tick"]:
            self.fired = [code.co_qualname, off, kind, name]
            raise KeyboardInterrupt("injected")

    def _start(self, code, off):
        if code.co_name not in ("__repr__", "__exit__", "__del__", "__getstate__"):
            self._hit(code, off, "start", code.co_name)

    def _call(self, code, off, f, arg0):
        if ticks.callee_class(f) == "real":
            self.callee = f
            self._hit(code, off, "call", ticks._callee_name(f))

    # -- run
    def _body(self, t):
        self.tids[_thread.get_ident()] = t
        self.started.release()
        self.gates[t].acquire()
        try:
            self.results[t] = self.fns[t]()
        except BaseException:
            self.errors[t] = traceback.format_exc()
        del self.tids[_thread.get_ident()]
        self.state[t] = "done"
        self._leave(t)

    def run(self):
        codes = ticks.codes()
        mon.use_tool_id(TOOL, "dst-sched")
        mon.register_callback(TOOL, E.LINE, self._line)
        ev = E.LINE
        if self.interrupt:
            mon.register_callback(TOOL, E.PY_START, self._start)
            mon.register_callback(TOOL, E.CALL, self._call)
            ev |= E.PY_START | E.CALL
        if self.fine:
            mon.register_callback(TOOL, E.INSTRUCTION, self._instr)
        self.started = _thread.allocate_lock()
        self.started.acquire()
        locks.scheduler = self
        sys.setswitchinterval(1000)
        threading.stack_size(64 << 20)
        self.threads = []
        for t in range(len(self.fns)):
            th = threading.Thread(target=self._body, args=(t,), daemon=True)
            th.start()
            self.started.acquire()
            self.threads.append(th)
        for c in codes:
            fine = self.fine and self.policy.in_focus(c)
            mon.set_local_events(TOOL, c, ev | (E.INSTRUCTION if fine else 0))
        self.active = True
        first = self.policy.pick(0, self.ready())
        self.trace.append([0, first])
        self.cur = first
        self.gates[first].release()
        self.done.acquire()
        self.active = False
        for c in codes:
            mon.set_local_events(TOOL, c, 0)
        mon.free_tool_id(TOOL)
        locks.scheduler = None
        if not self.deadlock:
            for th in self.threads:
                th.join(20)
        return self
