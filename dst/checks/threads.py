"""Shared machinery of the thread checks (C06, C07)."""
import os
import signal
import sys
import threading
import warnings

import numpy as np

from .. import canon, pool, sched, world
from ..engine import Check, jkey
from .c01 import drop_ops

HEAVY = ("q", "an")


def bare(obs):
    return {k: v for k, v in obs.items() if k in ("val", "exc", "msg", "skip", "warn")}


def process_state():
    """Settings that belong to the whole process, not to one computation."""
    return {
        "warning filters": canon.fp([repr(f) for f in warnings.filters]),
        "warning hook": repr(getattr(warnings.showwarning, "__qualname__", "")),
        "numpy errors": repr(sorted(np.geterr().items())),
        "recursion limit": sys.getrecursionlimit(),
        "directory": os.getcwd(),
        "environment": canon.fp(sorted(os.environ.items())),
        "standard streams": [sys.stdout is sys.__stdout__, sys.stderr is sys.__stderr__],
        "interrupt handler": repr(signal.getsignal(signal.SIGINT)),
    }


class Warned:
    """Collects the warnings of the simulated threads, each with the thread that gave it."""

    def __enter__(self):
        self.by = {}
        self.old = warnings.showwarning
        warnings.showwarning = self.hook
        return self

    def hook(self, message, category, filename, lineno, file=None, line=None):
        self.by.setdefault(threading.get_ident(), []).append((category.__name__, str(message), filename))

    def __exit__(self, *a):
        warnings.showwarning = self.old

    def take(self):
        """The warnings of the calling thread since the last call, as World.do notes them."""
        return sorted({f"{c}:{m[:60]}" for c, m, f in self.by.pop(threading.get_ident(), []) if "sectionproperties" in (f or "")})


class ThreadCheck(Check):
    """plan: {"base": ops in the main thread, "threads": [ops], "policy", "seed", "interrupt"}"""

    rerun_interrupted = True

    def thread_world(self, shared, k):
        # every thread has a folder of its own for the files that it writes
        folder = os.path.join(shared.scratch, f"t{k}")
        os.makedirs(folder, exist_ok=True)
        w = world.World(files=self.files(), scratch=folder)
        w.slots.update(shared.slots)
        w.prov.update(shared.prov)
        w.builder.mats = shared.builder.mats
        w.nfile = 1000 * (k + 1)
        return w

    def body(self, w, ops, log, warned):
        def run():
            for i, op in enumerate(ops):
                e = {"i": i, "key": None}
                if w.missing(op):
                    e["obs"] = {"skip": True}
                    log.append(e)
                    continue
                for attempt in range(2):
                    e["key"] = world.ref_key(op, w.prov) if op["op"] != "del" else None
                    try:
                        warned.take()
                        e["obs"] = bare(w.do(op, capture=False))
                        if "skip" not in e["obs"]:
                            e["obs"]["warn"] = warned.take()
                        break
                    except KeyboardInterrupt:
                        # the thread's owner tries again; what was completed counts as done
                        e["interrupted"] = True
                log.append(e)
        return run

    def execute(self, plan):
        shared = world.World(files=self.files())
        base = []
        for op in plan["base"]:
            base.append(bare(shared.do(op)))
        logs = [[] for _ in plan["threads"]]
        worlds = [self.thread_world(shared, k) for k in range(len(logs))]
        pol = plan["policy"] if "trace" not in plan else {"p": "list", "switches": plan["trace"], **({k: plan["policy"][k] for k in ("fine", "salt", "share") if k in plan["policy"]})}
        with Warned() as warned:
            state = process_state()
            s = sched.Scheduler([self.body(w, ops, lg, warned) for w, ops, lg in zip(worlds, plan["threads"], logs)], pol, plan["seed"], plan.get("interrupt"))
            s.run()
            left = process_state()
        if s.errors != [None] * len(logs):
            raise RuntimeError(str(s.errors))
        log = {"threads": logs, "trace": s.trace, "steps": s.step, "fired": s.fired, "deadlock": s.deadlock, "where": canon.fp([repr(x) for x in s.where]), "switches": len(s.where), "switch_points": sorted({x[0] for x in s.where})[:400]}
        log["left"] = [f"{k}: {state[k]} -> {left[k]}" for k in state if state[k] != left[k]] if not s.deadlock else []
        # afterwards, alone, in the main thread
        log["after"] = []
        if not s.deadlock:
            for op in plan.get("after", []):
                key = world.ref_key(op, shared.prov) if not shared.missing(op) else None
                log["after"].append({"key": key, "obs": bare(shared.do(op))})
        return log

    def needs(self, plan, log):
        out = {}
        for e in [x for t in log["threads"] for x in t] + log["after"]:
            if e["key"]:
                out[jkey(e["key"])] = e["key"]
        return out

    def judge(self, plan, log, refs):
        out = []
        if log["deadlock"]:
            out.append({"class": "deadlock", "detail": " || ".join(log["deadlock"])[:1500], "key": "deadlock"})
        if log["left"]:
            out.append({"class": "process-state", "detail": f"after all threads ended, a setting of the whole process is not what it was: {log['left']}", "key": "process-state"})
        for t, ops in enumerate(plan["threads"]):
            for e in log["threads"][t]:
                op = ops[e["i"]]
                if not e["key"]:
                    continue
                ref = bare(refs[jkey(e["key"])])
                d = canon.diff(e["obs"], ref)
                if d and "val" in e["obs"] and "val" in ref and op["op"] == "fibre":
                    d = canon.diff(e["obs"]["val"]["text"], ref["val"]["text"])
                    if not d and e["obs"]["val"].get("file_equal") is False:
                        d = "the saved file has another text"
                if d:
                    out.append({"class": f"differs:{op['op']}", "detail": f"thread {t} op {e['i']} {canon.short(op)}{' (after an interrupt)' if e.get('interrupted') else ''}: {d}", "key": f"{op['op']}"})
            if not log["deadlock"] and len(log["threads"][t]) != len(ops):
                out.append({"class": "thread-lost", "detail": f"thread {t} ended after {len(log['threads'][t])} of {len(ops)} operations", "key": "lost"})
        for op, e in zip(plan.get("after", []), log["after"]):
            if e["key"]:
                d = canon.diff(e["obs"], bare(refs[jkey(e["key"])]))
                if d:
                    out.append({"class": f"after:{op['op']}", "detail": f"after all threads ended: {canon.short(op)}: {d}", "key": f"after:{op['op']}"})
        return out

    def concrete(self, plan, log, viol):
        return {**plan, "trace": log["trace"]}

    def smaller(self, plan, log, viol):
        if plan.get("interrupt"):
            yield {k: v for k, v in plan.items() if k != "interrupt"}
        if plan.get("after") and not viol["class"].startswith("after"):
            yield {**plan, "after": []}
        if "trace" in plan:
            yield from drop_ops(plan, "trace")
        for k, ops in enumerate(plan["threads"]):
            for p in drop_ops({"ops": ops}, "ops"):
                q = {**plan, "threads": plan["threads"][:k] + [p["ops"]] + plan["threads"][k + 1 :]}
                yield q
                if "trace" in q:
                    yield {a: b for a, b in q.items() if a != "trace"}
        yield from drop_ops(plan, "base")

    def states(self, plan, log):
        return [log["where"]]

    def account(self, st, plan, log):
        st["steps"] += log["steps"]
        st["fault:preemption"] += log["switches"]
        if log["fired"]:
            st["fault:interrupt_in_thread"] += 1
        st["policy:" + plan["policy"]["p"]] += 1
        st["threads"] += len(plan["threads"])
        for t, ops in enumerate(plan["threads"]):
            for e in log["threads"][t]:
                st["op:" + ops[e["i"]]["op"]] += 1
                st["compared"] += bool(e["key"])

    def sample(self, plan, log):
        return {"plan": plan, "switches": log["switches"], "trace": log["trace"][:30], "functions_preempted": log["switch_points"][:20]}
