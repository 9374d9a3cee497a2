"""C02: an aborted operation can be retried and then gives the exact result."""
from .. import exprs, gen, rng
from ..engine import jkey
from . import aborts


class CHECK(aborts.AbortCheck):
    id = "C02"
    level = "fault_enumeration"
    quick_runs = 110
    thorough_runs = 2500
    rule = "a branch is one operation aborted at one abort point, retried, and followed by operations on the same and other cross-sections; distinct by (operation, function and byte offset of the abort, exception, follow-up kinds)"
    assumptions = ["abort points inside exception handlers and inside clean-up calls (close, release, __exit__) are not injected", "values agree within 1e-6 relative"]

    def prepare(self, seed, tier):
        self.families = []
        for i in range(24 if tier == "quick" else 150):
            r = rng.make(seed, "C02", "family", i)
            self.families.append((exprs.family(r, 2), [gen.action(r) for _ in range(2)]))

    def plan(self, r, i, tier):
        fam, acts = self.families[i % len(self.families)]
        h = gen.Hist(r, fam, acts=acts)
        cold = r.random() < 0.2
        for _ in range(0 if cold else r.choice([0, 1, 2, 3])):
            h.step(r.choice(["section", "an", "stress", "fibre"]))
        if cold:
            # the first computation of the process
            target = gen.cold_target(h, r)
        else:
            target = aborts.random_target(h, r, ["import"] if r.random() < 0.12 else None)
        if target["op"] == "fibre" and r.random() < 0.7:
            # saved to a file, which the next attempt replaces
            target.update(save=True, file="fibre.txt")
        f = gen.Hist(r, fam, acts=acts)
        f.__dict__.update({k: h.__dict__[k] for k in ("g", "s", "p", "n")})
        follow = [target]
        if target["op"] == "an":
            follow.append({"op": "q", "s": target["s"]})
            f.s[target["s"]]["done"].add(target["kind"])
            if target["kind"] == "warping":
                f.stress(target["s"], r.choice(acts))
        if target["op"] == "geo":
            f.g[target["out"]] = {"spec": {"e": None, "mesh": target["mesh"]}, "meshed": bool(target["mesh"])}
        if target["op"] == "stress":
            f.p[target["out"]] = {"s": target["s"], "act": target["act"]}
        # another cross-section in the same process
        spec = r.choice(fam)
        f.specs = [spec]
        s2 = f.section(f.geo(spec))
        f.analyse(s2, r.choice(["geometric", "warping", "frame", "warping"]))
        f.add({"op": "q", "s": s2})
        if target["op"] == "stress" and r.random() < 0.5:
            f.add({"op": "splot", "p": target["out"], "fn": "plot_stress", "stress": "vm", "mode": "norender"})
        if target["op"] == "fibre":
            f.add({**target, "type": "3D"})
        plan = {"ops": h.ops, "target": target, "follow": follow + f.ops, "rng": ["C02", "at", r.random()]}
        if cold or r.random() < 0.25:
            plan["kinds"] = list(aborts.FINE)
        if cold:
            plan["branches"] = 16
        return plan

    def needs(self, plan, log):
        out = self.follow_keys(log)
        if log.get("key"):
            out[jkey(log["key"])] = log["key"]
        return out

    def judge(self, plan, log, refs):
        return self.judge_crash(plan, log) + self.judge_follow(plan, log, refs)
