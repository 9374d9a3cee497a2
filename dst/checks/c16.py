"""C16: saved objects survive a process restart unchanged.

A history runs in one process; objects are saved at seeded points; the process crashes
between or inside operations and only the saved bytes survive.  A freshly started process
with another hash seed loads them, compares what it sees with what was saved, and carries
on.  Copies made inside one process have to be independent as well.
"""
import copy
import pickle

from .. import canon, exprs, gen, pool, servers, ticks, world
from ..engine import Check, jkey
from . import aborts
from .c01 import drop_ops

NOCMP = {"del", "clone", "save", "crash", "smesh"}
SEEDS = {"a": "1", "b": "4242", "c": "987654321"}


def observe(w, n):
    """Everything there is to see of one object."""
    o, t = w.slots[n], w.prov[n]["t"]
    if t == "g":
        return {"geom": world.geom_obs(o), "query": world.geom_query(o)}
    if t == "s":
        return {"get": world.section_obs(o), "mesh": world.section_mesh_obs(o), "ti": o.time_info, "geom": world.geom_obs(o.geometry)}
    return {"stress": world.stress_obs(o), "mesh": world.section_mesh_obs(o.section), "get": world.section_obs(o.section)}


def one(w, op):
    if op["op"] == "crash":
        return {"key": None, "obs": {"val": "crash"}}
    if op["op"] in ("clone", "save"):
        srcs = [n for n in op["srcs"] if n in w.slots]
        if not srcs:
            return {"key": None, "obs": {"skip": True}}
        e = {"key": None, "obs": {"val": None}, "saw": {n: observe(w, n) for n in srcs}, "then": {}}
        if op["op"] == "save":
            try:
                e["bytes"] = pickle.dumps({n: w.slots[n] for n in srcs}, protocol=op["proto"])
                e["prov"] = {n: w.prov[n] for n in srcs}
            except Exception as x:
                e["obs"] = {"exc": type(x).__name__, "msg": str(x)[:200]}
        else:
            group = {n: w.slots[n] for n in srcs}
            try:
                new = copy.deepcopy(group) if op["how"] == "deepcopy" else pickle.loads(pickle.dumps(group, protocol=op["proto"]))
            except Exception as x:
                e["obs"] = {"exc": type(x).__name__, "msg": str(x)[:200]}
                return e
            for n, out in zip(op["srcs"], op["outs"]):
                if n in new:
                    w.slots[out], w.prov[out] = new[n], w.prov[n]
                    e["then"][n] = observe(w, out)
        # saving must not change what is saved
        e["after"] = {n: observe(w, n) for n in srcs}
        return e
    if w.missing(op):
        return {"key": None, "obs": {"skip": True}}
    if op["op"] == "smesh":
        # the geometry is reached through the section
        g = w.slots[op["s"]].geometry
        g.create_mesh(op["size"])
        for n, p in w.prov.items():
            if p["t"] == "g" and w.slots[n] is g:
                w.prov[n] = {**p, "mesh": {"size": op["size"]}}
        return {"key": None, "obs": {"val": None}}
    clean = {k: v for k, v in op.items() if k != "abort"}
    e = {"key": None if op["op"] in NOCMP else world.ref_key(clean, w.prov)}
    if "abort" in op:
        before = canon.fp(world.section_obs(w.slots[op["s"]]))
        with ticks.Recorder(fire_at=op["abort"]["tick"], exc=aborts.EXC[op["abort"]["exc"]]()) as rec:
            try:
                e["obs"] = w.do(clean)
            except BaseException as x:
                e["obs"] = {"exc": type(x).__name__}
        e["fired"] = rec.fired
        if rec.fired and "exc" in e["obs"]:
            e["key"] = None
            if canon.fp(world.section_obs(w.slots[op["s"]])) != before:
                p = w.prov[op["s"]]
                w.prov[op["s"]] = {**p, "done": p["done"] + [[op["kind"], op.get("solver", "direct")]]}
    else:
        e["obs"] = w.do(clean)
    return e


def resume(arg):
    """In a restarted process: loads what was saved and carries on."""
    data, prov, ops = arg
    w = world.World()
    log = []
    try:
        w.slots.update(pickle.loads(data))
        w.prov.update(prov)
    except Exception as x:
        return {"loaded": {"exc": type(x).__name__, "msg": str(x)[:300]}, "log": []}
    seen = {n: observe(w, n) for n in sorted(w.slots)}
    for op in ops:
        log.append(one(w, op))
    return {"loaded": seen, "log": log}


class CHECK(Check):
    id = "C16"
    quick_runs = 230
    thorough_runs = 6000
    rule = "a run is a history with saves, copies and one crash, continued by a restarted process with another hash seed; distinct by the sequence of (operation, kind, object types saved, place of the crash, outcome)"
    assumptions = ["pickle and deepcopy are the ways to save and copy", "the restarted process runs the same code", "values agree within 1e-6 relative"]

    def prepare(self, seed, tier):
        self.servers = [servers.Server(k, hashseed=v) for k, v in SEEDS.items()]
        for s in self.servers:
            s.wait()

    def plan(self, r, i, tier):
        fam = exprs.family(r, r.choice([1, 2]))
        acts = [gen.action(r) for _ in range(2)]
        h = gen.Hist(r, fam, acts=acts)
        s = h.section(h.geo(fam[0]))
        if r.random() < 0.3:
            h.section(h.geo())
        n = r.choice([6, 9, 12])
        while len(h.ops) < n:
            u = r.random()
            if u < 0.4:
                s = h.any_s()
                k = r.choice(["geometric", "warping", "plastic", "frame"])
                h.analyse(s, k)
                if r.random() < 0.25:
                    # tried before, interrupted
                    again = dict(h.ops[-1])
                    h.ops.insert(len(h.ops) - 1, {**again, "abort": {"tick": int(10 ** r.uniform(0, 4)), "exc": r.choice(["interrupt", "memory"])}})
            elif u < 0.65:
                self.save(h, r)
            else:
                self.use(h, r)
        h.ops = [{k: v for k, v in op.items()} for op in h.ops]
        # the crash: after the last save or later; only the last save survives
        self.save(h, r, must="save")
        cut = len(h.ops)
        h.add({"op": "crash"})
        saved = [x for x in h.ops[cut - 1]["srcs"]]
        h2 = gen.Hist(r, fam, acts=acts)
        h2.n = h.n + 100
        for d in ("g", "s", "p"):
            setattr(h2, d, {k: v for k, v in getattr(h, d).items() if k in saved})
        m = r.choice([4, 7])
        while len(h2.ops) < m:
            if r.random() < 0.15:
                self.save(h2, r, must="clone")
            else:
                self.use(h2, r)
        for s in sorted(h2.s)[:1]:
            h2.add({"op": "an", "s": s, "kind": "geometric"})
            h2.add({"op": "q", "s": s})
        return {"ops": h.ops + h2.ops, "into": r.choice(sorted(SEEDS))}

    def save(self, h, r, must=None):
        pool = sorted(h.g) + sorted(h.s) + sorted(h.p)
        if not pool:
            return
        k = r.choice([1, 1, 2, 3, len(pool)])
        srcs = sorted(r.sample(pool, min(k, len(pool))))
        if must == "save" and h.s and not any(x in h.s for x in srcs) and r.random() < 0.7:
            srcs = sorted(srcs + [r.choice(sorted(h.s))])
        what = must or r.choice(["clone", "clone", "save"])
        op = {"op": what, "srcs": srcs, "proto": r.choice([2, 3, 4, 5])}
        if what == "clone":
            op["how"] = r.choice(["deepcopy", "pickle"])
            op["outs"] = []
            for x in srcs:
                d = h.g if x in h.g else h.s if x in h.s else h.p
                out = h.name("c" + x[0])
                op["outs"].append(out)
                d[out] = {**d[x], **({"done": set(d[x]["done"])} if "done" in d[x] else {})}
                if d is h.p and d[out]["s"] not in h.s:
                    pass
        h.add(op)

    def use(self, h, r):
        k = r.choice(["an", "an", "stress", "q", "sq", "qmesh", "pts", "secplot", "splot", "disp", "fibre", "derived", "gquery", "gobs", "remesh", "smesh", "section"])
        if k in ("an", "stress", "q", "qmesh", "pts", "secplot", "disp", "smesh") and not h.s:
            k = "gobs"
        if k in ("sq", "splot") and not h.p:
            k = "gobs" if not h.s else "q"
        if k == "gobs" or (k in ("derived", "gquery", "remesh", "fibre", "section") and not h.g):
            if not h.g:
                return h.step("section")
            return h.add({"op": "gobs", "g": r.choice(sorted(h.g))})
        if k == "section":
            g = r.choice(sorted(h.g))
            return h.section(g if h.g[g]["meshed"] else None)
        if k == "smesh":
            s = r.choice(sorted(h.s))
            return h.add({"op": "smesh", "s": s, "size": round(h.s[s]["spec"]["mesh"] * r.choice([0.7, 1.5]), 4)})
        return h.step(k)

    def execute(self, plan):
        w = world.World(files=self.files())
        log = []
        cut = next((i for i, op in enumerate(plan["ops"]) if op["op"] == "crash"), None)
        last = None
        for op in plan["ops"][:cut]:
            e = one(w, op)
            if "bytes" in e:
                last = (e.pop("bytes"), e.pop("prov"), e["saw"])
            log.append(e)
        if cut is None:
            return log
        if last is None:
            return log + [{"key": None, "obs": {"skip": True}}]
        data, prov, saw = last
        rest = plan["ops"][cut + 1 :]
        res = servers.call(plan["into"], "dst.checks.c16:resume", (data, prov, rest))
        if "server_error" in res:
            if "timeout" in res["server_error"] or "no answer" in res["server_error"]:
                return pool.Crashed("timeout", res["server_error"])
            raise RuntimeError(res["server_error"])
        log.append({"key": None, "obs": {"val": "crash"}, "saw": saw, "then": res["loaded"], "size": len(data)})
        return log + res["log"]

    def needs(self, plan, log):
        return {jkey(e["key"]): e["key"] for e in log if e["key"]}

    def judge(self, plan, log, refs):
        out = []
        for i, (op, e) in enumerate(zip(plan["ops"], log)):
            def bad(cls, text):
                out.append({"class": cls, "detail": f"op {i} {canon.short(op)}: {text}", "key": cls})

            if op["op"] in ("clone", "save", "crash"):
                if "exc" in e["obs"]:
                    bad("cannot-be-saved", f"{e['obs']}")
                    continue
                if "exc" in (e.get("then") or {}):
                    bad("cannot-be-loaded", f"{e['then']}")
                    continue
                for n, o in (e.get("then") or {}).items():
                    d = canon.diff(o, e["saw"][n])
                    if d:
                        bad("restored-differs", f"{n}{d}")
                for n, o in (e.get("after") or {}).items():
                    if canon.fp(o) != canon.fp(e["saw"][n]):
                        bad("changed-by-saving", f"{n}{canon.diff(o, e['saw'][n])}")
                continue
            if not e["key"]:
                continue
            d = canon.diff(e["obs"], refs[jkey(e["key"])])
            if d:
                bad(f"differs:{op['op']}", d)
        return out

    def smaller(self, plan, log, viol):
        yield from drop_ops(plan)
        for i, op in enumerate(plan["ops"]):
            if len(op.get("srcs", [])) > 1:
                for j in range(len(op["srcs"])):
                    o = {**op, "srcs": op["srcs"][:j] + op["srcs"][j + 1 :]}
                    if "outs" in op:
                        o["outs"] = op["outs"][:j] + op["outs"][j + 1 :]
                    yield {**plan, "ops": plan["ops"][:i] + [o] + plan["ops"][i + 1 :]}

    def states(self, plan, log):
        return [canon.fp([[op["op"], op.get("kind"), op.get("how"), op.get("proto"), [x[:2] for x in op.get("srcs", [])], (e.get("fired") or [None])[:1], e["obs"].get("exc")] for op, e in zip(plan["ops"], log)])]

    def account(self, st, plan, log):
        for op, e in zip(plan["ops"], log):
            st["op:" + op["op"]] += 1
            if op["op"] == "crash":
                st["fault:crash_and_restart"] += 1
                st["restarted_with_hash_seed:" + SEEDS[plan["into"]]] += 1
                st["bytes_restored"] += e.get("size", 0)
            if e.get("fired"):
                st["fault:" + op["abort"]["exc"]] += 1
        st["compared"] += sum(1 for e in log if e["key"])
