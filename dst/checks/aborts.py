"""Shared machinery of the abort checks (C02, C03, C04, C05, C09, C12, C14).

A run builds a world, then forks at the target operation: a probe child performs it
undisturbed and lists the abort points it passes; then one child per sampled abort point
performs it with a failure injected there and continues with the follow-up operations.
A branch is a pure function of (plan, tick, exception).
"""
import sys

from .. import canon, gen, pool, rng, ticks, world
from ..engine import Check, jkey
from .c01 import drop_ops


class InjectedError(RuntimeError):
    pass


EXC = {
    "interrupt": lambda: KeyboardInterrupt("injected"),
    "memory": lambda: MemoryError("injected"),
}


def slot_fp(w, name):
    o = w.slots[name]
    t = w.prov[name]["t"]
    if t == "g":
        return world.geom_fp(o)
    if t == "s":
        return {**world.section_fp(o), "props": world.props_fp(o)}
    return world.stress_fp(o)


def state_of(w):
    return {n: slot_fp(w, n) for n in sorted(w.slots)}


def changed(a, b, ignore=()):
    """Slots and parts that differ between two states."""
    out = []
    for n in sorted(a):
        if n in b:
            for k in sorted(a[n]):
                if a[n][k] != b[n].get(k) and (n, k) not in ignore:
                    out.append(f"{n}.{k}")
    return out


def sections_obs(w):
    return {n: world.section_obs(w.slots[n]) for n in sorted(w.slots) if w.prov[n]["t"] == "s"}


KINDS = ("start", "call", "ret")
FINE = KINDS + ("fill",)


class AbortCheck(Check):
    branches = 8
    exc_kinds = ("interrupt", "memory")

    # -- hooks of the subclasses
    def observe(self, w):
        """Extra state recorded before, after the abort and in the probe."""
        return {"fp": state_of(w), "sec": sections_obs(w)}

    def step(self, w, op):
        """One operation of the history before the target."""
        return w.do(op)

    def after_branch(self, w, plan, log, out):
        pass

    def execute(self, plan):
        w = world.World(files=self.files())
        w.watch_arguments()
        log = {"pre_ops": [], "branches": []}
        for op in plan["ops"]:
            log["pre_ops"].append(self.step(w, op))
        target = plan["target"]
        if w.missing(target):
            return {"skip": True}
        log["pre"] = self.observe(w)
        key = world.ref_key(target, w.prov) if target["op"] not in ("del", "copy") else None
        log["key"] = key

        def probe(_):
            with ticks.Recorder(kinds=plan.get("kinds", KINDS)) as rec:
                obs = w.do(target)
            return {"obs": obs, "sites": rec.sites, "ticks": rec.ticks, "post": self.observe(w)}

        pr = pool.run_forked(probe, None, 60)
        if isinstance(pr, pool.Crashed):
            return {"skip": True, "crashed": repr(pr)}
        log["obs"], log["post"], log["ticks"], log["nsites"] = pr["obs"], pr["post"], pr["ticks"], len(pr["sites"])
        if log["obs"].get("skip"):
            return {"skip": True}
        picks = plan.get("at")
        if picks is None:
            r = rng.make(*plan["rng"])
            picks = [[t, r.choice(self.exc_kinds)] for t in ticks.pick_ticks(pr["sites"], r, plan.get("branches", self.branches))]
        for t, exc in picks:
            res = pool.run_forked(lambda a: self.branch(w, plan, log, *a), (t, exc), 60)
            if isinstance(res, pool.Crashed):
                res = {"crashed": repr(res)}
            res["at"] = [t, exc]
            log["branches"].append(res)
            if "hang" in str(res.get("crashed")):
                break
        return log

    def attempt(self, w, op, tick, exc, plan):
        """Performs op with a failure at the given tick. Returns (fired point, outcome)."""
        with ticks.Recorder(fire_at=tick, exc=EXC[exc](), kinds=plan.get("kinds", KINDS)) as rec:
            try:
                obs = w.do(op)
            except BaseException as e:
                obs = {"exc": type(e).__name__}
        return rec.fired, obs

    def branch(self, w, plan, log, tick, exc):
        out = {}
        out["fired"], out["outcome"] = self.attempt(w, plan["target"], tick, exc, plan)
        out["after"] = self.observe(w)
        out["argwatch"] = list(w.argwatch)
        # what a section holds now: nothing new, or (aborted after the last step) everything
        t = plan["target"]
        if t["op"] == "an" and "exc" in out["outcome"]:
            now = out["after"]["sec"][t["s"]]
            if canon.diff(now, log["pre"]["sec"][t["s"]]) and not canon.diff(now, log["post"]["sec"][t["s"]]):
                p = w.prov[t["s"]]
                w.prov[t["s"]] = {**p, "done": p["done"] + [[t["kind"], t.get("solver", "direct")]]}
                out["committed"] = True
        if t["op"] == "mesh" and "exc" in out["outcome"]:
            g = w.slots[t["g"]]
            if canon.fp(g.mesh) == log["post"]["fp"][t["g"]]["mesh"] != log["pre"]["fp"][t["g"]]["mesh"]:
                w.prov[t["g"]] = {**w.prov[t["g"]], "mesh": {"size": t["size"], **{k: t[k] for k in ("min_angle", "coarse") if k in t}}}
                out["committed"] = True
        out["follow"] = []
        for op in plan["follow"]:
            if w.missing(op):
                out["follow"].append({"key": None, "obs": {"skip": True}})
                continue
            key = world.ref_key(op, w.prov) if op["op"] not in ("del", "copy") else None
            out["follow"].append({"key": key, "obs": w.do(op)})
        out["end"] = self.observe(w)
        return out

    # -- oracle pieces
    def follow_keys(self, log):
        out = {}
        for b in log.get("branches", []):
            for f in b.get("follow", []):
                if f["key"]:
                    out[jkey(f["key"])] = f["key"]
        return out

    def where(self, plan, b):
        f = b["fired"]
        return f"{b['at'][1]} at {f[0]} ({f[1]} {f[2]} of {f[3]})" if f else f"at tick {b['at'][0]} (not reached)"

    def judge_crash(self, plan, log):
        return [
            {"class": "crash", "detail": f"branch {b['at']}: {b['crashed']}", "key": "crash"}
            for b in log.get("branches", [])
            if "crashed" in b and "timeout" not in b["crashed"]
        ]

    def judge_follow(self, plan, log, refs):
        out = []
        for b in log.get("branches", []):
            for op, f in zip(plan["follow"], b.get("follow", [])):
                if not f["key"]:
                    continue
                d = canon.diff(f["obs"], refs[jkey(f["key"])])
                if d:
                    out.append({"class": f"after-abort:{op['op']}", "detail": f"target {canon.short(plan['target'])}, {self.where(plan, b)}; then {canon.short(op)}: {d}", "key": f"{plan['target']['op']}:{op['op']}", "at": b["at"]})
        return out

    # -- minimisation
    def concrete(self, plan, log, viol):
        """The plan with only the failing abort point."""
        if viol.get("at"):
            return {**plan, "at": [viol["at"]]}
        return plan

    def smaller(self, plan, log, viol):
        for p in drop_ops(plan, "ops"):
            yield p
            if p.get("at"):
                yield {**p, "at": None, "branches": 16}
        if len(plan["follow"]) > 1:
            yield from drop_ops(plan, "follow")

    def states(self, plan, log):
        out = []
        for b in log.get("branches", []):
            if b.get("fired"):
                out.append(canon.fp([plan["target"]["op"], plan["target"].get("kind"), b["fired"][0], b["fired"][1], b["at"][1], bool(b.get("committed")), [o["op"] for o in plan["follow"]]]))
        return out

    def account(self, st, plan, log):
        for b in log.get("branches", []):
            st["branches"] += 1
            if b.get("fired"):
                st[f"fault:{b['at'][1]}_in_{plan['target']['op']}"] += 1
                st["point:" + b["fired"][2]] = st.get("point:" + b["fired"][2], 0) + 1
            if b.get("committed"):
                st["probe:aborted_after_commit"] += 1
            if "exc" not in b.get("outcome", {}):
                st["probe:abort_swallowed_or_not_reached"] += 1
        st["target:" + plan["target"]["op"] + ":" + str(plan["target"].get("kind", plan["target"].get("fn", "")))] += 1
        st["abort_points_seen"] += log.get("ticks", 0)

    def sample(self, plan, log):
        return {"plan": plan, "points": log.get("nsites"), "branches": [[b["at"], b.get("fired")] for b in log.get("branches", [])]}


def random_target(h, r, only=None):
    """Chooses the operation to abort; its prerequisites are added to the history."""
    kinds = only or ["an"] * 8 + ["stress"] * 4 + ["pts", "secplot", "splot", "disp", "fibre", "fibre", "section", "geo", "remesh", "gplot", "copyless"]
    k = r.choice(kinds)
    n = len(h.ops)
    if k == "an":
        s = h.any_s()
        kd = r.choice(["geometric", "warping", "warping", "plastic", "frame"])
        # sometimes a repetition of an analysis that is complete
        if r.random() < 0.5:
            h.analyse(s, kd)
        h.analyse(s, kd, "cgs" if r.random() < 0.2 and kd in ("warping", "frame") else "direct")
        return h.ops.pop()
    if k == "geo":
        spec = r.choice(h.specs)
        op = {"op": "geo", "out": h.name("g"), "e": spec["e"], "mesh": spec["mesh"]}
        if h.g and r.random() < 0.5:
            src = r.choice(sorted(h.g))
            op["e"] = gen.derive(r, src, r.choice(sorted(h.g)))
            if not gen.may_mesh(op["e"], h.g[src]):
                op["mesh"] = None
        return op
    if k == "section":
        g = h.geo()
        return {"op": "section", "g": g, "out": h.name("s")}
    if k == "copyless":
        k = "pts"
    if k == "import":
        out = h.imported()
        h.g.pop(out, None)
        return h.ops.pop()
    h.step(k)
    while len(h.ops) == n:
        h.step(k)
    return h.ops.pop()
