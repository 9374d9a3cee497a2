"""C14: a section keeps the mesh it was created with.

Histories in which geometries are re-meshed between every other operation on the sections
created from them: the mesher succeeds, is rejected, fails, or the attempt is interrupted.
"""
from .. import backends, canon, exprs, gen, ticks, world
from ..engine import Check, jkey
from . import aborts
from .c01 import drop_ops

NOCMP = {"del", "copy"}


class CHECK(Check):
    id = "C14"
    quick_runs = 190
    thorough_runs = 6000
    rule = "a run is a history of sections whose geometry is re-meshed successfully, rejected, with a failing mesher or interrupted; distinct by the sequence of (operation, kind, fault, outcome)"
    assumptions = ["values agree within 1e-6 relative"]

    def plan(self, r, i, tier):
        fam = exprs.family(r, r.choice([1, 2]))
        acts = [gen.action(r) for _ in range(2)]
        h = gen.Hist(r, fam, acts=acts)
        g = h.geo(fam[0])
        for _ in range(r.choice([1, 1, 2])):
            s = h.section(g)
            for k in r.choice([[], [], ["geometric"], ["geometric", "warping"], ["frame"], ["geometric", "plastic"]]):
                h.analyse(s, k)
            if r.random() < 0.4:
                h.stress(s)
        n = len(h.ops) + r.choice([6, 10, 14])
        while len(h.ops) < n:
            if r.random() < 0.45:
                g = r.choice([x for x in sorted(h.g) if h.g[x]["meshed"] and not h.g[x].get("risky")] or [g])
                self.remesh(h, r, g)
                if r.random() < 0.3:
                    h.section(g)
            k = r.choice(["an", "an", "an", "stress", "q", "sq", "qmesh", "pts", "secplot", "secplot", "splot", "disp", "fibre", "fibre", "inplace", "copy", "sgeo", "gobs"])
            if k == "inplace":
                h.add({"op": "gset", "g": r.choice(sorted(h.g)), "what": "compile"})
            elif k == "gobs":
                h.add({"op": "gobs", "g": r.choice(sorted(h.g))})
            elif k == "copy":
                s = h.any_s()
                h.add({"op": "copy", "src": s, "out": h.name("s"), "how": r.choice(["pickle", "deepcopy"])})
                h.s[h.ops[-1]["out"]] = {**h.s[s], "done": set(h.s[s]["done"])}
            elif k == "sgeo":
                # the geometry is reached through the section
                s = h.any_s()
                h.add({"op": "smesh", "s": s, "size": round(h.s[s]["spec"]["mesh"] * r.choice([0.6, 1.6]), 4)})
            elif k == "fibre":
                h.add(h.fibre_op(h.any_s()))
            else:
                h.step(k)
        # whatever is left to look at, at the end
        for s in sorted(h.s)[:2]:
            h.analyse(s, r.choice(["geometric", "warping", "frame"]))
            h.add({"op": "q", "s": s})
        return {"ops": h.ops}

    def remesh(self, h, r, g):
        base = h.g[g]["spec"]["mesh"]
        u = r.random()
        if u < 0.12:
            h.add({"op": "bad", "what": "mesh_arg", "o": g})
            return
        op = {"op": "mesh", "g": g, "size": round(base * r.choice([0.5, 0.7, 1.3, 2.0]), 4)}
        if r.random() < 0.3:
            op["per"] = True
        if r.random() < 0.2:
            op["min_angle"] = 25.0
        elif r.random() < 0.15:
            op["coarse"] = True
        if u < 0.35:
            op["mesher"] = r.choice(backends.kinds_for("triangulate"))
        elif u < 0.6:
            op["abort"] = {"at": r.random(), "exc": r.choice(["interrupt", "memory"])}
        h.add(op)

    def execute(self, plan):
        w = world.World(files=self.files())
        log = []
        for op in plan["ops"]:
            log.append(self.one(w, op))
        return log

    def one(self, w, op):
        if w.missing(op):
            return {"key": None, "obs": {"skip": True}}
        if op["op"] == "smesh":
            g = w.slots[op["s"]].geometry
            before = self.frozen(w)
            obs = {}
            try:
                g.create_mesh(op["size"])
            except Exception as e:
                obs = {"exc": type(e).__name__}
            for n, p in w.prov.items():
                if p["t"] == "g" and w.slots[n] is g and "exc" not in obs:
                    w.prov[n] = {**p, "mesh": {"size": op["size"]}}
            return {"key": None, "obs": obs, "moved": aborts.changed(before, self.frozen(w))}
        clean = {k: v for k, v in op.items() if k not in ("mesher", "abort")}
        e = {"key": None if op["op"] in NOCMP else world.ref_key(clean, w.prov)}
        meshing = op["op"] == "mesh" or op.get("what") == "mesh_arg"
        if meshing:
            g = w.slots[op.get("g") or op["o"]]
            before = self.frozen(w)
            m0 = canon.fp(g.mesh)
        if "abort" in op:
            # the number of abort points of this very call, from a copy of the process
            from .. import pool

            def probe(_):
                with ticks.Recorder() as rec:
                    w.do(clean)
                return rec.ticks

            n = pool.run_forked(probe, None, 60)
            n = 1 if isinstance(n, pool.Crashed) else n
            with ticks.Recorder(fire_at=1 + int(op["abort"]["at"] * n), exc=aborts.EXC[op["abort"]["exc"]]()) as rec:
                try:
                    e["obs"] = w.do(clean)
                except BaseException as x:
                    e["obs"] = {"exc": type(x).__name__}
            e["fired"] = rec.fired
        elif "mesher" in op:
            with backends.Faults(["triangulate", 1, op["mesher"]]) as f:
                e["obs"] = w.do(clean)
            e["fired"] = f.fired
        else:
            e["obs"] = w.do(clean)
        if meshing:
            e["moved"] = aborts.changed(before, self.frozen(w))
            e["kept"] = canon.fp(g.mesh) == m0
            if "exc" in e["obs"] and not e["kept"] and op["op"] == "mesh":
                # interrupted after its last step: has to be the new mesh
                e["now"] = world.mesh_obs(g.mesh)
                w.prov[op["g"]] = {**w.prov[op["g"]], "mesh": {"size": op["size"] if not op.get("per") else [round(op["size"] * (1 + 0.25 * (i % 3)), 4) for i in range(len(g.control_points))], **{k: op[k] for k in ("min_angle", "coarse") if k in op}}}
        return e

    def frozen(self, w):
        """State of everything created from a mesh."""
        out = {}
        for n in sorted(w.slots):
            t = w.prov[n]["t"]
            if t == "s":
                out[n] = {**world.section_fp(w.slots[n]), "props": world.props_fp(w.slots[n]), "mesh": canon.fp(w.slots[n].mesh)}
                out[n].pop("geom", None)
            elif t == "p":
                out[n] = world.stress_fp(w.slots[n])
        return out

    def needs(self, plan, log):
        return {jkey(e["key"]): e["key"] for e in log if e["key"]}

    def judge(self, plan, log, refs):
        out = []

        def bad(i, op, cls, text):
            out.append({"class": cls, "detail": f"op {i} {canon.short(op)} [{log[i].get('fired')}]: {text}", "key": cls})

        for i, (op, e) in enumerate(zip(plan["ops"], log)):
            if e.get("moved"):
                bad(i, op, "section-changed-by-meshing", ", ".join(e["moved"]))
            if not e["key"]:
                continue
            ref = refs[jkey(e["key"])]
            if e.get("fired") or op.get("what") == "mesh_arg":
                if "exc" in e["obs"]:
                    if "now" in e:
                        d = canon.diff(e["now"], ref["val"]["mesh"]) if "val" in ref else "no mesh expected"
                        if d:
                            bad(i, op, "failed-meshing-changed-mesh", d)
                    elif not e["kept"]:
                        bad(i, op, "failed-meshing-changed-mesh", "the mesh is another one")
                    continue
                if e.get("fired") and op.get("mesher"):
                    bad(i, op, "mesher-failure-ignored", str(op["mesher"]))
                    continue
            d = canon.diff(e["obs"], ref)
            if d:
                bad(i, op, f"differs:{op['op']}", d)
        return out

    def smaller(self, plan, log, viol):
        yield from drop_ops(plan)
        for i, op in enumerate(plan["ops"]):
            for k in ("mesher", "abort", "per", "min_angle", "coarse"):
                if k in op:
                    yield {**plan, "ops": plan["ops"][:i] + [{a: b for a, b in op.items() if a != k}] + plan["ops"][i + 1 :]}

    def states(self, plan, log):
        return [canon.fp([[op["op"], op.get("kind"), op.get("fn"), (e.get("fired") or [None])[:1], e["obs"].get("exc")] for op, e in zip(plan["ops"], log)])]

    def account(self, st, plan, log):
        for op, e in zip(plan["ops"], log):
            st["op:" + op["op"]] += 1
            if e.get("fired"):
                st["fault:" + ("mesher_" + op["mesher"][0] if "mesher" in op else op["abort"]["exc"] + "_in_meshing")] += 1
            elif op.get("what") == "mesh_arg":
                st["fault:rejected_meshing"] += 1
            elif op["op"] in ("mesh", "smesh"):
                st["remeshed"] += 1
            if "now" in e:
                st["probe:aborted_after_commit"] += 1
        st["compared"] += sum(1 for e in log if e["key"])
