"""C05: stress results are complete, independent snapshots.

* every result is compared with a small reference model of the section: element by
  element, which material the region under the element was given by the user;
* every result ever returned, and every array handed out from it, is fingerprinted and
  compared after each later operation, completed or aborted;
* its values equal those of a fresh process, and those of a fresh process in which equal
  materials are one object.
"""
import numpy as np

from .. import canon, exprs, gen, rng, world
from ..engine import jkey
from . import aborts


def user_parts(g):
    return g.geoms if type(g).__name__ == "CompoundGeometry" else [g]


def mat_key(m):
    return canon.fp(m)


def coverage(p):
    """Problems in how a stress result covers the elements of its section."""
    s = p.section
    n = len(s.elements)
    owner = {}
    out = []
    for gi, g in enumerate(p.material_groups):
        if list(g.el_ids) != [e.el_id for e in g.elements]:
            out.append("element numbers of a group do not match its elements")
        for e in g.elements:
            if e.el_id in owner:
                out.append(f"element {e.el_id} occurs twice")
            owner[e.el_id] = gi
            if mat_key(e.material) != mat_key(g.material):
                out.append(f"element {e.el_id} of material {e.material.name} in group {g.material.name}")
    if sorted(owner) != list(range(n)):
        out.append(f"{n - len(owner)} of {n} elements not covered")
    return out[:3], owner


def assigned(s, owner, p):
    """Elements whose group does not have the material of the region the user drew there."""
    from shapely import Point

    parts = user_parts(s.geometry)
    out = []
    for e in s.elements:
        xy = e.coords[:, :3].mean(axis=1)
        pt = Point(float(xy[0]), float(xy[1]))
        hits = [g for g in parts if g.geom.contains(pt)]
        if len(hits) != 1:
            continue
        want = mat_key(hits[0].material)
        gi = owner.get(e.el_id)
        if gi is not None and mat_key(p.material_groups[gi].material) != want:
            out.append(f"element {e.el_id} lies in a region of {hits[0].material.name} but is reported under another material")
    return out[:2]


def nodes_complete(p):
    """Nodal stresses exist on exactly the nodes of the group's elements (when not all zero)."""
    out = []
    for g, d in zip(p.material_groups, p.get_stress()):
        nodes = sorted({int(i) for e in g.elements for i in e.node_ids})
        z = np.array(d["sig_zz"])
        inside = np.zeros(len(z), dtype=bool)
        inside[nodes] = True
        if np.any(z[~inside] != 0):
            out.append(f"stress of {g.material.name} outside its region")
    return out


def groups_by_value(obs, mats):
    """Stress observation with groups ordered and merged by material value."""
    out = {}
    for d, m in zip(obs, mats):
        out.setdefault(m, []).append({k: v for k, v in d.items()})
    return {m: v for m, v in sorted(out.items())}


def unbang(x):
    """The same program with equal materials being one object."""
    if isinstance(x, list):
        return [unbang(v) for v in x]
    if isinstance(x, dict):
        return {k: unbang(v) for k, v in x.items()}
    if isinstance(x, str) and x.endswith("!") and x[:-1] in exprs.MATS:
        return x[:-1]
    return x


class CHECK(aborts.AbortCheck):
    id = "C05"
    level = "fault_enumeration"
    quick_runs = 150
    thorough_runs = 3500
    branches = 5
    rule = "a branch is a history with several live stress results of several sections, continued by an operation aborted at one point and by more operations; after each operation all results and handed-out arrays are compared bit for bit; distinct by (operation, function and byte offset of the abort, exception, follow-up kinds)"
    assumptions = ["abort points inside exception handlers and inside clean-up calls are not injected", "the material under an element is decided by the region polygon that contains its centroid; elements in no or several regions are skipped"]

    def plan(self, r, i, tier):
        fam = exprs.family(r, 2, r.choice(["compound", "compound", "any"]))
        acts = [gen.action(r) for _ in range(3)]
        h = gen.Hist(r, fam, acts=acts)
        s = h.section(h.geo(fam[0]))
        h.stress(s)
        if r.random() < 0.4:
            out = h.name("s")
            h.add({"op": "copy", "src": s, "out": out, "how": r.choice(["pickle", "deep"])})
            h.s[out] = {**h.s[s], "done": set(h.s[s]["done"])}
            h.stress(out)
        if r.random() < 0.4:
            # through derived geometry: copies of the materials travel along
            src = h.s[s]["g"]
            spec = h.g[src]["spec"]
            out = h.name("g")
            e = ["shift", ["$", src], 8.0, 3.0]
            h.add({"op": "geo", "out": out, "e": e, "mesh": spec["mesh"]})
            h.g[out] = {"spec": spec, "meshed": True}
            h.stress(h.section(out))
        mix = ["stress", "stress", "an", "pts", "splot", "sq", "remesh", "fibre", "q", "section", "disp", "del"]
        n = len(h.ops) + r.choice([3, 5, 8])
        while len(h.ops) < n:
            h.step(r.choice(mix))
        target = aborts.random_target(h, r, ["stress"] * 4 + ["an"] * 3 + ["pts", "splot", "remesh", "fibre"])
        f = gen.Hist(r, fam, acts=acts)
        f.__dict__.update({k: h.__dict__[k] for k in ("g", "s", "p", "n")})
        if target["op"] == "stress":
            f.p[target["out"]] = {"s": target["s"], "act": target["act"]}
        for _ in range(2):
            f.step(r.choice(["stress", "an", "sq", "splot"]))
        return {"ops": h.ops, "target": target, "follow": [target] + f.ops, "rng": ["C05", "at", r.random()]}

    # -- the record of everything handed out so far
    def execute(self, plan):
        self.kept = []
        return super().execute(plan)

    def state(self):
        return [[world.stress_fp(p)["groups"], canon.fp([list(map(np.asarray, a)) for a in arrays])] for p, arrays, _ in self.kept]

    def step(self, w, op):
        before = self.state()
        key = None
        if op["op"] in ("stress", "sq") and not w.missing(op):
            key = world.ref_key(op, w.prov)
        obs = w.do(op)
        now = self.state()
        e = {"exc": obs.get("exc"), "changed": [f"stress result {n} ({self.kept[n][2]})" for n in range(len(before)) if before[n] != now[n]], "cover": [], "key": None}
        if "val" in obs and op["op"] in ("stress", "sq"):
            p = w.slots[op["out"] if op["op"] == "stress" else op["p"]]
            e["cover"], owner = coverage(p)
            e["cover"] += assigned(p.section, owner, p) + nodes_complete(p)
            e["key"] = key
            e["obs"] = groups_by_value(obs["val"], [mat_key(g.material) for g in p.material_groups])
            if op["op"] == "stress":
                arrays = [[v for v in d.values() if isinstance(v, np.ndarray)] for d in p.get_stress()]
                self.kept.append((p, arrays, canon.short(op)))
        return e

    def branch(self, w, plan, log, tick, exc):
        out = {}
        before = self.state()
        out["fired"], oc = self.attempt(w, plan["target"], tick, exc, plan)
        out["outcome"] = {k: v for k, v in oc.items() if k in ("exc", "skip")}
        now = self.state()
        out["changed"] = [f"stress result {n} ({self.kept[n][2]})" for n in range(len(before)) if before[n] != now[n]]
        # an analysis aborted after it stored its results counts as done
        t = plan["target"]
        if t["op"] == "an" and "exc" in oc and t["s"] in w.slots:
            done = [[t["kind"], t.get("solver", "direct")]]
            got = canon.fp(world.section_obs(w.slots[t["s"]])["props"])
            if got == log["post"]["props"].get(t["s"]) != log["pre"]["props"].get(t["s"]):
                w.prov[t["s"]] = {**w.prov[t["s"]], "done": w.prov[t["s"]]["done"] + done}
        out["follow"] = [self.step(w, op) for op in plan["follow"]]
        return out

    def observe(self, w):
        return {"fp": {}, "sec": {}, "props": {n: canon.fp(world.section_obs(w.slots[n])["props"]) for n in sorted(w.slots) if w.prov[n]["t"] == "s"}}

    def reference(self, key):
        # groups ordered by material value, as in the run
        w = world.World(files=self.files())
        for k, p in key["uses"].items():
            w.materialise(p, "_" + k)
        op = dict(key["op"])
        if op["op"] == "stress":
            op["out"] = "_out"
        obs = w.do(op)
        if "val" not in obs:
            return {"exc": obs.get("exc")}
        p = w.slots["_out" if op["op"] == "stress" else "_p"]
        return groups_by_value(obs["val"], [mat_key(g.material) for g in p.material_groups])

    def entries(self, log):
        yield from log.get("pre_ops", [])
        for b in log.get("branches", []):
            yield from b.get("follow", [])

    def needs(self, plan, log):
        out = {}
        for e in self.entries(log):
            if e["key"]:
                for k in (e["key"], unbang(e["key"])):
                    out[jkey(k)] = k
        return out

    def judge(self, plan, log, refs):
        out = self.judge_crash(plan, log)

        def look(e, op, how, at=None):
            for c in e.get("changed", []):
                out.append({"class": "result-changed", "detail": f"{canon.short(op)} {how} changed {c}", "key": f"{op['op']}:changed", "at": at})
            for c in e.get("cover", []):
                out.append({"class": "coverage", "detail": f"{canon.short(op)} {how}: {c}", "key": "coverage", "at": at})
            if e.get("key"):
                for k, what in ((e["key"], "fresh"), (unbang(e["key"]), "shared-materials")):
                    d = canon.diff(e["obs"], refs[jkey(k)])
                    if d:
                        out.append({"class": f"values:{what}", "detail": f"{canon.short(op)} {how}: {d}", "key": f"values:{what}", "at": at})

        for op, e in zip(plan["ops"], log.get("pre_ops", [])):
            look(e, op, "(completed)")
        for b in log.get("branches", []):
            if "crashed" in b:
                continue
            look(b, plan["target"], "aborted by " + self.where(plan, b), b["at"])
            for op, e in zip(plan["follow"], b["follow"]):
                look(e, op, "(after an abort)", b["at"])
        return out

    def account(self, st, plan, log):
        super().account(st, plan, log)
        es = list(self.entries(log))
        st["stress_results_checked"] += sum(1 for e in es if e.get("key"))
        st["probe:equal_distinct_materials"] += "!" in jkey(plan)
        st["probe:copied_section"] += sum(op["op"] == "copy" for op in plan["ops"])
