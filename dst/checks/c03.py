"""C03: a failed analysis is all-or-nothing."""
from .. import canon, exprs, gen, rng
from . import aborts


class CHECK(aborts.AbortCheck):
    id = "C03"
    level = "fault_enumeration"
    quick_runs = 150
    thorough_runs = 3500
    branches = 10
    rule = "a branch is one analysis aborted at one abort point in one prior state of the section (nothing, some or all analyses done before); distinct by (analysis, function and byte offset of the abort, exception)"
    assumptions = ["abort points inside exception handlers and inside clean-up calls are not injected"]

    def plan(self, r, i, tier):
        fam = exprs.family(r, 2)
        acts = [gen.action(r) for _ in range(2)]
        h = gen.Hist(r, fam, acts=acts)
        s = h.section(h.geo(fam[0]))
        prior = r.choice([[], ["geometric"], ["geometric", "warping"], ["geometric", "plastic"], ["frame"], ["geometric", "warping", "plastic"], ["frame", "geometric"], ["geometric", "frame"], ["frame", "plastic"]])
        for k in prior:
            h.analyse(s, k)
        kind = r.choice(["geometric", "warping", "warping", "plastic", "frame"])
        if kind == "warping" and "geometric" not in prior:
            kind = r.choice(["geometric", "frame"])
        if kind == "plastic" and not prior:
            kind = r.choice(["geometric", "frame"])
        target = {"op": "an", "s": s, "kind": kind}
        if kind in ("warping", "frame") and r.random() < 0.25:
            target["solver"] = "cgs"
        follow = []
        done = set(prior)
        if "geometric" in done:
            follow.append({"op": "stress", "s": s, "out": "pz", "act": {"n": 1e3, "mxx": 1e5, **({"vx": 500.0, "mzz": 1e4} if "warping" in done else {})}})
            follow.append({"op": "pts", "s": s, "pts": [["c", 3]], "act": {"myy": 1e5}})
        else:
            follow.append({"op": "stress", "s": s, "out": "pz", "act": {"n": 1e3}})
        follow.append({"op": "disp", "s": s, "fn": "display_results"})
        if r.random() < 0.5:
            follow.append({"op": "secplot", "s": s, "fn": "plot_centroids", "mode": "norender"})
        return {"ops": h.ops, "target": target, "follow": follow, "rng": ["C03", "at", r.random()]}

    def needs(self, plan, log):
        return self.follow_keys(log)

    def judge(self, plan, log, refs):
        out = self.judge_crash(plan, log)
        t = plan["target"]
        for b in log.get("branches", []):
            if "crashed" in b or not b["fired"] or "exc" not in b["outcome"]:
                continue
            for s, now in b["after"]["sec"].items():
                d = canon.diff(now, log["pre"]["sec"][s])
                if not d or (s == t["s"] and not canon.diff(now, log["post"]["sec"][s])):
                    continue
                out.append({"class": "partial-results", "detail": f"{canon.short(t)} aborted by {self.where(plan, b)}: {s}{d}", "key": f"partial:{t['kind']}", "at": b["at"]})
        return out + self.judge_follow(plan, log, refs)
