"""C04: operations never modify the objects the user passed in.

Every live object is fingerprinted (exactly, bit for bit) before and after every operation,
completed or aborted; arguments are compared with a copy made before the call.
"""
from .. import canon, exprs, gen, rng, ticks, world
from . import aborts
from .aborts import changed, state_of


def users_of(w, name):
    """The compounds that hold this geometry object itself as one of their parts."""
    o = w.slots.get(name)
    return [n for n in sorted(w.slots) if w.prov[n]["t"] == "g" and any(p is o for p in getattr(w.slots[n], "geoms", ()))]


def allowed(op, users=()):
    """What the documented in-place operations may change."""
    if op["op"] == "mesh":
        return {(op["g"], "mesh")} | {(n, "part_meshes") for n in users}
    if op["op"] == "an":
        return {(op["s"], "props")}
    if op["op"] == "gset":
        g = op["g"]
        if op["what"] == "recovery":
            return {(n, "recovery") for n in [g, *users]}
        return {(n, "parts") for n in users} | {(g, k) for k in ("points", "facets", "holes", "control_points", "parts")}
    return set()


def diffs(before, after, op, users):
    if op.get("out") in before:
        before = {k: v for k, v in before.items() if k != op["out"]}
    return changed(before, after, allowed(op, users))


class CHECK(aborts.AbortCheck):
    id = "C04"
    level = "fault_enumeration"
    quick_runs = 170
    thorough_runs = 4000
    branches = 6
    rule = "a branch is one operation aborted at one point (or completed) with all live geometries, meshes, sections, materials, stress results and arguments compared before and after; distinct by (operation, function and byte offset of the abort, exception, follow-up kinds)"
    assumptions = ["abort points inside exception handlers and inside clean-up calls are not injected"]

    def plan(self, r, i, tier):
        fam = exprs.family(r, 2)
        acts = [gen.action(r) for _ in range(2)]
        h = gen.Hist(r, fam, acts=acts)
        mix = r.choice([None, ["import", "derived", "derived", "gmethod", "section"], ["derived", "remesh", "gset", "gplot", "gmethod", "gquery", "derived", "section"], ["an", "stress", "fibre", "pts", "splot", "secplot"]])
        h.geo()
        n = r.choice([5, 8, 12])
        while len(h.ops) < n:
            self.one(h, r, mix)
        if r.random() < 0.3:
            op = {"op": "gset", "g": r.choice(sorted(h.g)), "what": r.choice(["compile", "facets"])} if h.g else None
        else:
            op = None
        target = op or aborts.random_target(h, r, r.choice([None, ["geo"], ["remesh", "gplot", "fibre", "splot", "pts"]]))
        f = gen.Hist(r, fam, acts=acts)
        f.__dict__.update({k: h.__dict__[k] for k in ("g", "s", "p", "n")})
        for _ in range(3):
            self.one(f, r, mix)
        return {"ops": h.ops, "target": target, "follow": [target] + f.ops, "rng": ["C04", "at", r.random()]}

    @staticmethod
    def one(h, r, mix):
        k = r.choice(mix) if mix and r.random() < 0.85 else None
        if k == "gset":
            g = r.choice(sorted(h.g)) if h.g else h.geo()
            h.add({"op": "gset", "g": g, "what": r.choice(["compile", "facets", "recovery"])})
        else:
            h.step(k)

    def observe(self, w):
        return {"fp": state_of(w), "sec": {}}

    def step(self, w, op):
        del w.argwatch[:]
        before = state_of(w)
        users = users_of(w, op.get("g"))
        obs = w.do(op)
        return {"exc": obs.get("exc"), "changed": diffs(before, state_of(w), op, users), "args": list(w.argwatch)}

    def branch(self, w, plan, log, tick, exc):
        del w.argwatch[:]
        out = {}
        before = state_of(w)
        users = users_of(w, plan["target"].get("g"))
        out["fired"], out["outcome"] = self.attempt(w, plan["target"], tick, exc, plan)
        out["outcome"] = {k: v for k, v in out["outcome"].items() if k in ("exc", "skip")}
        out["changed"] = diffs(before, state_of(w), plan["target"], users)
        out["args"] = list(w.argwatch)
        out["follow"] = [self.step(w, op) for op in plan["follow"]]
        return out

    def judge(self, plan, log, refs):
        out = self.judge_crash(plan, log)

        def look(e, op, how, at=None):
            for c in e["changed"]:
                out.append({"class": f"modified:{c.split('.')[1]}", "detail": f"{canon.short(op)} {how} modified {c}", "key": f"{op['op']}:{c.split('.')[1]}", "at": at})
            for a in e["args"]:
                out.append({"class": "argument-modified", "detail": f"{canon.short(op)} {how}: {a}", "key": f"{op['op']}:argument", "at": at})

        for op, e in zip(plan["ops"], log.get("pre_ops", [])):
            look(e, op, "(completed)" if not e["exc"] else f"({e['exc']})")
        for b in log.get("branches", []):
            if "crashed" in b:
                continue
            look(b, plan["target"], "aborted by " + self.where(plan, b), b["at"])
            for op, e in zip(plan["follow"], b["follow"]):
                look(e, op, "(after an abort)", b["at"])
        return out

    def account(self, st, plan, log):
        super().account(st, plan, log)
        st["operations_compared"] += len(log.get("pre_ops", [])) + sum(1 + len(b.get("follow", [])) for b in log.get("branches", []))
        st["probe:argument_watch"] += 1
