"""C08: failures of the numerical back ends are reported and never stored.

The target call is performed once per sampled fault (component, number of the call,
kind of failure) in a copy of the same process.  A failed or constraint-violating answer
must make the call raise and leave every stored result, mesh and figure as it was; the
same call without the fault must then give the undisturbed result.
"""
from .. import backends, canon, exprs, gen, pool, rng, world
from ..engine import Check, jkey
from . import aborts
from .c01 import drop_ops


class CHECK(Check):
    id = "C08"
    level = "fault_enumeration"
    quick_runs = 350
    thorough_runs = 3500
    branches = 14
    rule = "a branch is one call during which one call of one numerical component fails in one way; distinct by (operation, component, number of its call, kind of failure, state of the section before)"
    assumptions = ["components are wrapped at their public entry points; what happens inside them is real unless the fault replaces the answer", "tolerances of the constraint: 1e-7 (direct), 1e-5 (iterative), as documented"]
    stubs = ["the answer of the failing call of a back end"]

    def plan(self, r, i, tier):
        fam = exprs.family(r, 2)
        acts = [gen.action(r) for _ in range(2)]
        h = gen.Hist(r, fam, acts=acts)
        kind = r.choice(["warping"] * 5 + ["frame"] * 2 + ["plastic"] * 3 + ["fibre", "mesh", "geo", "gplastic"])
        g = h.geo(fam[0])
        if kind == "mesh":
            h.section(g)
            target = {"op": "mesh", "g": g, "size": round(fam[0]["mesh"] * r.choice([0.7, 1.4]), 4), **({"coarse": True} if r.random() < 0.3 else {})}
        elif kind == "geo":
            e = r.choice([fam[1]["e"], ["shift", ["$", g], 3.0, 4.0]])
            target = {"op": "geo", "out": "gx", "e": e, "mesh": fam[1]["mesh"]}
        else:
            s = h.section(g, ti=r.random() < 0.25)
            prior = r.choice([[], ["geometric"], ["geometric"], ["geometric", "warping"], ["geometric", "warping", "plastic"], ["frame"], ["geometric", "plastic"], ["frame", "plastic"], ["geometric", "frame"]])
            if kind in ("warping", "plastic", "gplastic") and not prior:
                prior = ["geometric"]
            if kind == "warping" and "geometric" not in prior:
                prior = ["frame", "geometric"]
            for k in prior:
                h.analyse(s, k)
            if r.random() < 0.3:
                h.stress(s, {"n": 1e3, "mxx": 2e5})
            if kind == "fibre":
                target = {"op": "fibre", "o": r.choice([s, g]), "type": "3DOS", **({"save": True} if r.random() < 0.5 else {})}
            elif kind in ("plastic", "gplastic"):
                target = {"op": "an", "s": s, "kind": "plastic"}
                if r.random() < 0.3:
                    target["verbose"] = True
            else:
                target = {"op": "an", "s": s, "kind": kind}
                if r.random() < 0.4:
                    target["solver"] = "cgs"
        return {"ops": h.ops, "target": target, "rng": ["C08", "at", r.random()]}

    @staticmethod
    def do(w, op):
        """The progress display prints elapsed times: its text is not compared."""
        obs = w.do(op)
        obs["out"] = ""
        return obs

    def observe(self, w):
        import matplotlib.pyplot as plt

        return {"fp": aborts.state_of(w), "figs": list(plt.get_fignums())}

    def execute(self, plan):
        w = world.World(files=self.files())
        w.watch_arguments()
        for op in plan["ops"]:
            w.do(op)
        target = plan["target"]
        if w.missing(target):
            return {"skip": True}
        log = {"branches": [], "pre": self.observe(w)}

        def probe(_):
            with backends.Faults() as f:
                obs = self.do(w, target)
            return {"obs": obs, "calls": f.calls, "post": self.observe(w)}

        pr = pool.run_forked(probe, None, 60)
        if isinstance(pr, pool.Crashed):
            return {"skip": True}
        log["obs"], log["post"], log["calls"] = pr["obs"], pr["post"], pr["calls"]
        picks = plan.get("at")
        if picks is None:
            r = rng.make(*plan["rng"])
            opts = [[s, n, how] for s, n in log["calls"] for how in backends.kinds_for(s)]
            groups = {}
            for o in opts:
                groups.setdefault((o[0], o[1]), []).append(o)
            picks = []
            keys = list(groups)
            while keys and len(picks) < plan.get("branches", self.branches):
                k = r.choice(keys)
                o = r.choice(groups[k])
                if o not in picks:
                    picks.append(o)
                elif r.random() < 0.2:
                    break
        for fault in picks:
            res = pool.run_forked(lambda f: self.branch(w, plan, log, f), fault, 60)
            if isinstance(res, pool.Crashed):
                res = {"crashed": repr(res)}
            res["at"] = fault
            log["branches"].append(res)
        return log

    def branch(self, w, plan, log, fault):
        out = {}
        with backends.Faults(fault) as f:
            try:
                obs = self.do(w, plan["target"])
            except BaseException as e:
                obs = {"exc": type(e).__name__}
        out["fired"] = f.fired
        out["obs"] = obs
        after = self.observe(w)
        out["changed"] = aborts.changed({n: v for n, v in log["pre"]["fp"].items()}, after["fp"])
        out["new"] = sorted(set(after["fp"]) - set(log["pre"]["fp"]))
        out["figs"] = after["figs"]
        out["retry"] = self.do(w, plan["target"])
        out["end"] = canon.fp([v.get("props") for v in self.observe(w)["fp"].values()])
        return out

    def judge(self, plan, log, refs):
        out = []
        t = plan["target"]
        name = f"{t['op']}:{t.get('kind', '')}"
        base_fails = "exc" in log.get("obs", {})
        for b in log.get("branches", []):
            def bad(cls, text):
                out.append({"class": cls, "detail": f"{canon.short(t)} with failing {b['at'][0]} (call {b['at'][1]}, {b['at'][2]}): {text}", "key": f"{cls}:{name}:{b['at'][0]}:{b['at'][2][0]}", "at": b["at"]})

            if "crashed" in b:
                if "timeout" not in b["crashed"]:
                    bad("crash", b["crashed"])
                continue
            if not b["fired"]:
                continue
            failed = "exc" in b["obs"]
            if b["fired"][3] and not failed:
                bad("not-reported", "the call returned normally")
                continue
            if not failed and not base_fails:
                # the answer was usable: it has to be the right one
                d = canon.diff(b["obs"], log["obs"], rtol=1e-3, atol_rel=1e-4)
                if d:
                    bad("wrong-result", d)
                continue
            if b["changed"] or b["new"]:
                bad("stored", f"changed {b['changed'] + b['new']}")
            if b["figs"] != log["pre"]["figs"]:
                bad("figures", f"figures {b['figs']}")
            d = canon.diff(b["retry"], log["obs"])
            if d:
                bad("retry", f"the same call afterwards: {d}")
            elif b["end"] != canon.fp([v.get("props") for v in log["post"]["fp"].values()]):
                bad("retry", "the same call afterwards stores other results")
        return out

    def concrete(self, plan, log, viol):
        return {**plan, "at": [viol["at"]]} if viol.get("at") else plan

    def smaller(self, plan, log, viol):
        yield from drop_ops(plan, "ops")

    def states(self, plan, log):
        prior = sorted({o.get("kind") for o in plan["ops"] if o["op"] == "an"})
        return [canon.fp([plan["target"]["op"], plan["target"].get("kind"), b["fired"], prior]) for b in log.get("branches", []) if b.get("fired")]

    def account(self, st, plan, log):
        for b in log.get("branches", []):
            st["branches"] += 1
            if b.get("fired"):
                st[f"fault:{b['fired'][0]}_{b['fired'][2][0]}"] += 1
                if "exc" in b["obs"]:
                    st["probe:reported"] += 1
                elif not b["fired"][3]:
                    st["probe:tolerated_fault_right_result"] += 1
        st["target:" + plan["target"]["op"] + ":" + str(plan["target"].get("kind", ""))] += 1
        st["backend_calls_seen"] += len(log.get("calls", []))

    def sample(self, plan, log):
        return {"plan": plan, "calls": log.get("calls"), "branches": [[b["at"], b.get("obs", {}).get("exc")] for b in log.get("branches", [])]}
