"""C12: progress display, verbosity and the clock never affect results.

The display of rich runs for real, on a terminal and a clock that the simulator controls.
Its refresh thread is replaced by an actor of the simulation that refreshes whenever the
virtual clock says so, between any two steps of the analysis.  The terminal fails, the
clock jumps and stalls, and analyses are interrupted.
"""
import contextlib
import io
import os
import sys
import threading

from .. import canon, exprs, gen, rng, ticks, world
from ..engine import Check, jkey
from .aborts import EXC
from .c01 import drop_ops


class FakeTerminal(io.TextIOBase):
    encoding = "utf-8"

    def __init__(self, tty):
        self.tty, self.n, self.chars, self.fault, self.fired = tty, 0, 0, None, 0

    def isatty(self):
        return self.tty

    def writable(self):
        return True

    def _io(self):
        self.n += 1
        f = self.fault
        if f and (self.n == f["n"] or (f["persist"] and self.n > f["n"])):
            self.fired += 1
            if f["kind"] == "closed":
                raise ValueError("I/O operation on closed file")
            raise OSError(5 if f["kind"] == "EIO" else 28, "injected")

    def write(self, s):
        self._io()
        self.chars += len(s)
        return len(s)

    def flush(self):
        self._io()


class Simulation:
    """Virtual clock, and the refresh actors of the live displays."""

    def __init__(self, seed, clock):
        self.r = rng.make("clock", seed)
        self.kind = clock
        self.now = 1000.0
        self.wall = 1.7e9
        self.actors = []
        self.busy = False
        self.refreshes = 0
        self.jumps = 0
        self.ticks = 0

    def monotonic(self):
        return self.now

    def walltime(self):
        return self.wall

    def tick(self):
        if self.busy:
            return
        self.ticks += 1
        r, k = self.r, self.kind
        dt = 2e-5
        if k == "slow":
            dt = 5e-3
        elif k == "stalled":
            dt = 0.0
        elif k == "random":
            dt = r.random() * 1e-3
        if k in ("jumpy", "random") and r.random() < 2e-3:
            dt = r.choice([0.1, 3600.0, 1e9, 0.0])
            self.jumps += 1
        self.now += dt
        self.wall += dt
        if k == "jumpy" and r.random() < 2e-3:
            self.wall += r.choice([-1e6, 3600.0])
        for a in list(self.actors):
            if a.alive and self.now >= a.due:
                a.act()


class Actor:
    """Stands in for rich's refresh thread."""

    def __init__(self, live, refresh_per_second):
        self.live, self.period = live, 1.0 / refresh_per_second
        self.alive = False
        self.done = False
        self.due = 0.0

    def start(self):
        s = Actor.sim
        self.alive = True
        self.due = s.now + self.period
        s.actors.append(self)

    def stop(self):
        self.alive = False
        self.done = True

    def join(self, timeout=None):
        pass

    def is_alive(self):
        return self.alive

    def act(self):
        s = Actor.sim
        f = sys._getframe(1)
        while f is not None:
            n = f.f_globals.get("__name__", "")
            if n.startswith("rich."):
                return  # the main thread holds the display's lock
            f = f.f_back
        s.busy = True
        try:
            self.live.refresh()
            s.refreshes += 1
        except Exception:
            self.alive = False  # the refresh thread died
        finally:
            s.busy = False
        while self.due <= s.now:
            self.due += max(self.period, (s.now - self.due) / 1000)


class Clocked(ticks.Recorder):
    """Every abort point is also a point where time passes."""

    def __init__(self, sim, *a, **k):
        super().__init__(*a, **k)
        self.sim = sim

    def _hit(self, code, off, kind, name):
        if not self.sim.busy:
            self.sim.tick()
            super()._hit(code, off, kind, name)


def silent(key):
    """The same request without progress display and verbose output."""
    def walk(x):
        if isinstance(x, dict):
            return {k: (False if k == "ti" else walk(v)) for k, v in x.items() if k != "verbose"}
        if isinstance(x, list):
            return [walk(v) for v in x]
        return x
    return walk(key)


def bare(obs):
    return {k: v for k, v in obs.items() if k in ("val", "exc", "skip")}


class CHECK(Check):
    id = "C12"
    quick_runs = 220
    thorough_runs = 5000
    rule = "a run is a history of analyses with progress display on a simulated terminal and clock, with terminal failures and interrupts; distinct by (operations, clock, fault, interrupted function, outcome) of each operation"
    assumptions = ["a refresh by the display's thread is atomic with respect to the analysis (rich guards it with a lock)", "values agree within 1e-6 relative"]
    stubs = ["rich's refresh thread (simulated actor calling the real Live.refresh)", "the terminal", "time.monotonic and time.time"]

    def plan(self, r, i, tier):
        # now and then a fine mesh: some displays and shortcuts depend on the number of elements
        fine = i % 20 == 7
        fam = [exprs.fine(r)] if fine else exprs.family(r, 2)
        acts = [gen.action(r) for _ in range(2)]
        h = gen.Hist(r, fam, acts=acts, ti=True)
        n = 4 if fine else r.choice([4, 7, 10])
        if r.random() < 0.3 and not fine:
            h.section(h.geo(), ti=False)
        while len(h.ops) < n:
            k = r.choice(["an", "an", "an", "section", "stress", "disp"] + ["q", "pts", "fibre"] * (not fine))
            before = len(h.ops)
            h.step(k)
            for op in h.ops[before:]:
                if op["op"] == "an" and op["kind"] == "plastic" and r.random() < 0.5:
                    op["verbose"] = True
        ops = []
        for op in h.ops:
            ops.append(op)
            if op["op"] in ("an", "stress", "disp", "section", "fibre"):
                u = r.random()
                if u < 0.2:
                    op["term"] = {"n": int(10 ** r.uniform(0, 2.2)), "persist": r.random() < 0.6, "kind": r.choice(["EIO", "ENOSPC", "closed"])}
                elif u < 0.4:
                    op["abort"] = {"tick": int(10 ** r.uniform(0, 4)), "exc": r.choice(["interrupt", "memory"])}
                if ("term" in op or "abort" in op) and r.random() < 0.8:
                    # tried again, undisturbed
                    ops.append({k: v for k, v in op.items() if k not in ("term", "abort")})
        return {"ops": ops, "clock": r.choice(["normal", "slow", "stalled", "stalled", "jumpy"] if fine else ["normal", "normal", "slow", "stalled", "jumpy", "random"]), "tty": r.random() < 0.8, "seed": r.randrange(1 << 30)}

    def execute(self, plan):
        import rich
        import rich.console
        import rich.live
        import time

        os.environ["TERM"] = "xterm-256color"
        sim = Simulation(plan["seed"], plan["clock"])
        Actor.sim = sim
        real_thread = rich.live._RefreshThread
        rich.live._RefreshThread = Actor
        rich.console.monotonic = sim.monotonic
        # displays that started successfully and were not stopped since (a display that
        # rich itself fails to start is not one of them)
        sim.running = running = {}
        start, stop = rich.live.Live.start, rich.live.Live.stop

        def start_(self, *a, **k):
            start(self, *a, **k)
            running[id(self)] = self

        def stop_(self, *a, **k):
            running.pop(id(self), None)
            return stop(self, *a, **k)

        rich.live.Live.start, rich.live.Live.stop = start_, stop_
        originals = {time.monotonic: sim.monotonic, time.time: sim.walltime, time.perf_counter: sim.monotonic}
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").split(".")[0] in ("sectionproperties", "rich"):
                for k, v in list(vars(m).items()):
                    try:
                        if v in originals:
                            setattr(m, k, originals[v])
                    except TypeError:
                        pass
        time.time, time.perf_counter, time.monotonic = sim.walltime, sim.monotonic, sim.monotonic
        rich.reconfigure(get_time=sim.monotonic, width=100, height=40)
        term = FakeTerminal(plan["tty"])
        sys.stdout, saved = term, sys.stdout
        threads0 = threading.enumerate()
        w = world.World(files=self.files())
        log = []
        try:
            for op in plan["ops"]:
                log.append(self.one(w, op, sim, term))
        finally:
            sys.stdout = saved
        log.append({"threads": [t.name for t in threading.enumerate() if t not in threads0], "sim": [sim.refreshes, sim.jumps, sim.ticks, term.n]})
        return log

    def one(self, w, op, sim, term):
        import rich

        if w.missing(op):
            return {"key": None, "obs": {"skip": True}}
        e = {"key": silent(world.ref_key(op, w.prov))}
        before = canon.fp(world.section_obs(w.slots[op["s"]])) if op["op"] == "an" else None
        prov = dict(w.prov)
        term.n, term.fired, term.fault = 0, 0, op.get("term")
        a = op.get("abort")
        rec = Clocked(sim, fire_at=a["tick"] if a else -1, exc=EXC[a["exc"]]() if a else None)
        out0 = sys.stdout
        op2 = {k: v for k, v in op.items() if k not in ("term", "abort")}
        with rec:
            try:
                e["obs"] = bare(w.do(op2, capture=False))
            except BaseException as x:
                e["obs"] = {"exc": type(x).__name__}
        e["fired"] = rec.fired or ([f"terminal {op['term']['kind']}"] if term.fired else None)
        term.fault = None
        e["live"] = {"running": len(sim.running), "actors": sum(x.alive for x in sim.actors), "stdout": sys.stdout is out0}
        sim.actors = [x for x in sim.actors if x.alive]
        if not e["live"]["stdout"]:
            sys.stdout = out0
        try:
            n = term.chars
            print("usable")
            e["live"]["usable"] = term.chars > n
        except Exception as x:
            e["live"]["usable"] = False
        if op["op"] == "an":
            if "exc" in e["obs"] and e["fired"]:
                if canon.fp(world.section_obs(w.slots[op["s"]])) != before:
                    # interrupted after its last step
                    p = prov[op["s"]]
                    w.prov[op["s"]] = {**p, "done": p["done"] + [[op["kind"], op.get("solver", "direct")]]}
            q = {"op": "q", "s": op["s"]}
            e["qkey"] = silent(world.ref_key(q, w.prov))
            e["q"] = bare(w.do(q, capture=False))
        return e

    def needs(self, plan, log):
        out = {}
        for e in log:
            for k in ("key", "qkey"):
                if e.get(k):
                    out[jkey(e[k])] = e[k]
        return out

    def judge(self, plan, log, refs):
        out = []
        for i, (op, e) in enumerate(zip(plan["ops"], log)):
            if not e["key"]:
                continue

            def bad(cls, text):
                out.append({"class": cls, "detail": f"op {i} {canon.short(op)} [{e['fired']}]: {text}", "key": f"{cls}:{op['op']}"})

            lv = e["live"]
            if lv["running"]:
                bad("display-left-running", f"{lv}")
            if lv["actors"]:
                bad("refresh-left-running", f"{lv['actors']} refresh threads")
            if not lv["stdout"] or not lv["usable"]:
                bad("stdout-not-restored", f"{lv}")
            ref = bare(refs[jkey(e["key"])])
            if e["fired"] and "exc" in e["obs"]:
                pass
            else:
                d = canon.diff(e["obs"], ref)
                if d and op["op"] != "disp":
                    bad("differs", d)
                if op["op"] == "disp" and ("exc" in e["obs"]) != ("exc" in ref):
                    bad("differs", str(e["obs"]))
            if e.get("qkey"):
                d = canon.diff(e["q"], bare(refs[jkey(e["qkey"])]))
                if d:
                    bad("results-differ", d)
        if log[-1].get("threads"):
            out.append({"class": "thread-left", "detail": str(log[-1]["threads"]), "key": "thread-left"})
        return out

    def smaller(self, plan, log, viol):
        yield from drop_ops(plan)
        if plan["clock"] != "stalled":
            yield {**plan, "clock": "stalled"}
        for i, op in enumerate(plan["ops"]):
            for k in ("term", "abort", "verbose"):
                if k in op:
                    yield {**plan, "ops": plan["ops"][:i] + [{a: b for a, b in op.items() if a != k}] + plan["ops"][i + 1 :]}

    def states(self, plan, log):
        return [canon.fp([op["op"], op.get("kind"), op.get("verbose"), plan["clock"], plan["tty"], e["fired"][:1], e["obs"].get("exc")]) for op, e in zip(plan["ops"], log) if e.get("fired")] + [canon.fp([plan["clock"], plan["tty"], log[-1]["sim"]])]

    def account(self, st, plan, log):
        for op, e in zip(plan["ops"], log):
            if e.get("fired"):
                st["fault:" + ("terminal_" + op["term"]["kind"] if op.get("term") else op["abort"]["exc"])] += 1
            st["op:" + op["op"]] += 1
            if "exc" in e["obs"]:
                st["probe:raised_" + e["obs"]["exc"]] += 1
        s = log[-1]["sim"]
        st["refreshes_between_steps"] += s[0]
        st["fault:clock_jump"] += s[1]
        st["clock:" + plan["clock"]] += 1
        st["simulated_steps"] += s[2]
