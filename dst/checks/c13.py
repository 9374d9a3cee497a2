"""C13: optional accelerators and solver choice do not change the answers.

A history is cut into segments by process restarts; every segment runs in a freshly
started process with a seeded set of installed optional packages, just-in-time compilation
on or off and another hash seed, and continues with what the previous process saved.  The
answers are compared with one process of one configuration and the direct solver.
"""
import os
import pickle

import numpy as np

from .. import boot, canon, exprs, gen, pool, servers, world
from ..engine import Check, jkey
from .c01 import drop_ops

CONF = {
    "plain": {},
    "jit": {"jit": True},
    "no_numba": {"block": ("numba",)},
    "no_pardiso": {"block": ("pypardiso",)},
    "bare": {"block": ("numba", "pypardiso", "cad_to_shapely", "ezdxf", "rhino_shapely_interop", "rhino3dm")},
    "jit_no_pardiso": {"jit": True, "block": ("pypardiso",)},
    "no_dxf": {"block": ("cad_to_shapely",)},
    "no_rhino": {"block": ("rhino_shapely_interop",)},
}
NEEDS = {"dxf": ("cad_to_shapely",), "3dm": ("rhino_shapely_interop", "rhino3dm"), "3dmc": ("rhino_shapely_interop", "rhino3dm")}
FILES = {"holes": "section_holes.dxf", "plate": "3in x 2in.3dm", "complex": "complex_shape.3dm", "compound": "compound_shape.3dm"}
# dimension of each query: power of length, and what it is weighted with
DIM = {
    "area": (2, ""), "perimeter": (1, ""), "mass": (2, "r"), "q": (3, ""), "ig": (4, ""), "c": (1, ""), "ic": (4, ""), "z": (3, ""), "rc": (1, ""), "ip": (4, ""), "phi": (0, "d"),
    "zp": (3, ""), "rp": (1, ""), "j": (4, ""), "sc": (1, ""), "sc_p": (1, ""), "sc_t": (1, ""), "gamma": (6, ""), "as": (2, ""), "as_p": (2, ""), "beta": (1, ""), "beta_p": (1, ""),
    "pc": (1, ""), "pc_p": (1, ""), "s": (3, ""), "sp": (3, ""), "sf": (0, ""), "sf_p": (0, ""), "mp": (3, "f"), "mp_p": (3, "f"), "my": (3, "f"), "my_p": (3, "f"), "nu_eff": (0, ""),
    "e_eff": (0, "e"), "g_eff": (0, "e"), "ea": (2, "e"), "eq": (3, "e"), "eig": (4, "e"), "eic": (4, "e"), "ez": (3, "e"), "eip": (4, "e"), "ezp": (3, "e"), "ej": (4, "e"),
    "egamma": (6, "e"), "eas": (2, "e"), "eas_p": (2, "e"),
}
WARPING = {"j", "sc", "sc_p", "sc_t", "gamma", "as", "as_p", "beta", "beta_p", "ej", "egamma", "eas", "eas_p"}


def warm():
    """Compiles everything once, so that restarted processes need not."""
    w = world.World()
    for mat in (None, "steel!"):
        e = ["lib", "rectangular_section", {"d": 20.0, "b": 10.0, **({"material": mat} if mat else {})}]
        w.do({"op": "geo", "out": "g", "e": e, "mesh": 40.0})
        w.do({"op": "section", "g": "g", "out": "s"})
        for k in ("frame", "geometric", "warping", "plastic"):
            w.do({"op": "an", "s": "s", "kind": k})
        w.do({"op": "stress", "s": "s", "out": "p", "act": {"n": 1.0, "vx": 1.0, "vy": 2.0, "mxx": 1.0, "myy": 2.0, "m11": 3.0, "m22": 2.0, "mzz": 1.0}})
        w.do({"op": "pts", "s": "s", "pts": [["c", 1]], "act": {"n": 1.0, "vx": 1.0, "mzz": 2.0}})
        w.do({"op": "fibre", "o": "s"})


def pieces(n, t):
    """Number of connected parts of a mesh."""
    from scipy.sparse import coo_matrix
    from scipy.sparse.csgraph import connected_components

    t = np.asarray(t, dtype=int)
    r = np.repeat(t[:, 0], t.shape[1])
    k, lab = connected_components(coo_matrix((np.ones(r.size), (r, t.ravel())), shape=(n, n)), directed=False)
    return len(set(lab[np.unique(t)]))


def facts(s):
    """Scales of a section, and whether its principal axes or warping are ill-defined."""
    p, t = np.asarray(s.mesh_nodes, dtype=float), np.asarray(s.mesh_elements, dtype=int)
    e = np.array([el.material.elastic_modulus for el in s.elements])
    a, b, c = p[t[:, 0]], p[t[:, 1]], p[t[:, 2]]
    area = 0.5 * np.abs((b[:, 0] - a[:, 0]) * (c[:, 1] - a[:, 1]) - (c[:, 0] - a[:, 0]) * (b[:, 1] - a[:, 1]))
    w = area * e
    g = (a + b + c) / 3
    ctr = (w[:, None] * g).sum(0) / w.sum()
    m = np.zeros((2, 2))
    for q in ((a + b) / 2, (b + c) / 2, (c + a) / 2):  # exact for quadratics
        d = q - ctr
        m += np.einsum("i,ij,ik->jk", w / 3, d, d)
    i1, i2 = np.linalg.eigvalsh(m)
    return {
        "L": float(np.linalg.norm(p.max(0) - p.min(0))), "O": float(np.abs(p).max()), "E": float(e.max()), "R": float(max(el.material.density for el in s.elements)),
        "F": float(max(el.material.yield_strength for el in s.elements)), "round": bool(i2 - i1 < 1e-4 * i2), "parts": pieces(len(p), t),
    }


def step(w, op, direct=False):
    if op["op"] in ("restart",) or w.missing(op):
        return {"key": None, "obs": {"skip": True}}
    e = {"key": as_direct(world.ref_key(op, w.prov))}
    e["cgs"] = '"cgs"' in jkey(world.ref_key(op, w.prov))
    e["obs"] = w.do(op)
    if op["op"] == "section" and op["out"] in w.slots:
        e["facts"] = facts(w.slots[op["out"]])
    if op["op"] == "fibre":
        m = w.slots[op["o"]].mesh
        e["parts"] = pieces(len(m["vertices"]), m["triangles"]) if m else 0
    return e


def as_direct(key):
    """The same request with the direct solver."""
    def walk(x):
        if isinstance(x, dict):
            return {k: walk(v) for k, v in x.items() if not (k == "solver")}
        if isinstance(x, list):
            return ["direct" if v == "cgs" else walk(v) for v in x]
        return x

    return walk(key)


def fea_call(r):
    x, y, u, v = [round(r.uniform(-50, 50), 3) for _ in range(4)]
    fn = r.choice(["principal_coordinate", "global_coordinate", "point_above_line", "shape_function_only", "extrapolate_to_nodes"])
    if fn == "point_above_line":
        args = [r.choice([[1.0, 0.0], [0.0, 1.0], [0.6, -0.8]]), x, y, u, v]
    elif fn == "shape_function_only":
        args = [["t", 0.2, 0.5, 0.3]]
    elif fn == "extrapolate_to_nodes":
        args = [[x, y, u, v, 1.0, 0.0]]
    else:
        args = [r.choice([0.0, 45.0, 90.0, -120.0, x]), y, u]
    return {"op": "fea", "fn": fn, "args": args}


def segment(arg):
    """In a process of some configuration: loads, works, saves."""
    data, prov, n, files, ops = arg
    w = world.World(files=files)
    if data:
        w.slots.update(pickle.loads(data))
        w.prov.update(prov)
    log = [step(w, op) for op in ops]
    import sys

    have = [m for m in ("numba", "pypardiso", "cad_to_shapely", "rhino_shapely_interop") if m in sys.modules]
    return {"log": log, "data": pickle.dumps(w.slots), "prov": w.prov, "have": have}


def close(a, b, rtol, atol):
    a, b = np.atleast_1d(np.asarray(a, dtype=float)), np.atleast_1d(np.asarray(b, dtype=float))
    return a.shape == b.shape and bool(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True).all())


def raised(v):
    return isinstance(v, dict) and "exc" in v


class CHECK(Check):
    id = "C13"
    quick_runs = 300
    thorough_runs = 3500
    rule = "a run is a history cut into segments that run in restarted processes of different configurations; distinct by (configurations in order, operations, solver choices, outcomes)"
    assumptions = [
        "direct solutions agree within 1e-6, iterative ones within 1e-3, of the scale of the quantity",
        "principal-axis results of sections with equal principal moments, and warping results of disjoint sections, are ill-defined and compared only in whether they exist",
        "a package that is not installed is simulated by an import hook that reports it as missing",
    ]
    stubs = ["the import system's answer for the packages that a configuration lacks"]

    def files(self):
        return {k: os.path.join(boot.VERIF, "dst", "data", v) for k, v in FILES.items()}

    def prepare(self, seed, tier):
        self.servers = [servers.Server(k, hashseed=str(11 + i), block=c.get("block", ()), jit=c.get("jit", False), warm="dst.checks.c13:warm") for i, (k, c) in enumerate(CONF.items())]
        self.dead = {}
        for s in self.servers:
            try:
                s.wait()
            except RuntimeError as e:
                # without some optional package the code under test cannot even be imported
                if not CONF[s.name].get("block"):
                    raise
                self.dead[s.name] = str(e)[-600:]

    def plan(self, r, i, tier):
        fam = exprs.family(r, 2)
        acts = [gen.action(r) for _ in range(2)]
        unit = r.choice([1.0, 1.0, 1e-3, 1e-3, 0.1, 10.0])
        if unit != 1.0 and not any(sp.get("unit", 1.0) != 1.0 for sp in fam):
            # drawn in another unit of length
            fam = [exprs.in_unit(sp, unit) for sp in fam]
        h = gen.Hist(r, fam, acts=acts)
        if r.random() < 0.9:
            s = h.section(h.geo(fam[0]), ti=False)
            h.analyse(s, r.choice(["geometric", "warping", "frame"]))
        n = r.choice([6, 9, 12])
        while len(h.ops) < n:
            k = r.choice(["an", "an", "an", "stress", "stress", "pts", "q", "sq", "fibre", "section", "derived", "gquery", "import", "remesh", "fea"])
            if k == "fea":
                h.add(fea_call(r))
            elif k == "import":
                name = r.choice(sorted(FILES))
                e = ["dxf", name] if name == "holes" else [r.choice(["3dm", "3dmc"]), name]
                out = h.name("g")
                h.add({"op": "geo", "out": out, "e": e, "mesh": None})
            elif k == "an" and h.s:
                s = h.any_s()
                h.analyse(s, r.choice(["warping", "warping", "frame", "geometric", "plastic"]), "cgs" if r.random() < 0.4 else "direct")
                h.add({"op": "q", "s": s})
            else:
                h.step(k)
        for op in h.ops:
            op.pop("ti", None)
        cuts = r.choice([0, 1, 1, 2])
        route = [r.choice(sorted(CONF)) for _ in range(cuts + 1)]
        ops = h.ops
        for _ in range(cuts):
            ops.insert(r.randrange(1, len(ops)), {"op": "restart"})
        return {"ops": ops, "route": route}

    def execute(self, plan):
        log, data, prov, seg, part = [], None, None, [], 0
        for op in plan["ops"] + [{"op": "restart"}]:
            if op["op"] != "restart":
                seg.append(op)
                continue
            conf = plan["route"][min(part, len(plan["route"]) - 1)]
            part += 1
            if conf in self.dead:
                log.append({"key": None, "obs": {"skip": True}, "conf": conf, "dead": self.dead[conf]})
                return log
            res = servers.call(conf, "dst.checks.c13:segment", (data, prov, part, self.files(), seg))
            if "server_error" in res:
                if "timeout" in res["server_error"] or "no answer" in res["server_error"]:
                    return pool.Crashed("timeout", res["server_error"])
                raise RuntimeError(res["server_error"])
            for e in res["log"]:
                e["conf"] = conf
                e["have"] = res["have"]
            log += res["log"] + [{"key": None, "obs": {"skip": True}, "conf": conf}]
            data, prov, seg = res["data"], res["prov"], []
        return log[:-1]  # without the closing restart

    def needs(self, plan, log):
        return {jkey(e["key"]): e["key"] for e in log if e["key"]}

    def judge(self, plan, log, refs):
        out = []
        fx, of = {}, {}
        failed = set()
        for i, (op, e) in enumerate(zip(plan["ops"], log)):
            if e.get("dead"):
                out.append({"class": "does-not-import", "detail": f"in {e['conf']} (without {CONF[e['conf']]['block']}): {e['dead']}", "key": "does-not-import"})
            if not e["key"]:
                continue

            def bad(cls, text):
                out.append({"class": cls, "detail": f"op {i} {canon.short(op)} in {e['conf']}: {text}", "key": cls})

            obs, ref = e["obs"], refs[jkey(e["key"])]
            block = CONF[e["conf"]].get("block", ())
            for m in block:
                if m in e["have"]:
                    bad("harness", f"{m} is loaded")
            if op["op"] == "geo" and op["e"][0] in NEEDS and set(NEEDS[op["e"][0]]) & set(block):
                if obs.get("exc") not in ("ImportError", "ModuleNotFoundError"):
                    bad("missing-package-not-reported", f"{obs.get('exc', 'returned')}")
                continue
            s = op.get("s") or of.get(op.get("p"))
            if op["op"] == "section" and "facts" in e:
                fx[op["out"]] = e["facts"]
            if op["op"] == "stress":
                of[op["out"]] = s
            f = fx.get(s)
            if "exc" in obs and e["cgs"] and obs["exc"] == "RuntimeError" and op.get("solver") == "cgs":
                continue  # reported as not converged: no answer
            if ("exc" in obs) != ("exc" in ref) or obs.get("exc") != ref.get("exc"):
                if f and f["parts"] > 1 and op["op"] in ("an", "stress", "pts"):
                    continue
                bad("outcome", f"{obs.get('exc', 'returned')} ({obs.get('msg')}) instead of {ref.get('exc', 'a value')}")
                continue
            if "exc" in obs:
                continue
            a, b = obs["val"], ref["val"]
            if e.get("parts", 1) > 1:
                continue  # the torsion constant in the text is ill-defined
            if op["op"] == "fea":
                d = canon.diff(a, b, rtol=1e-9)
            elif f is None or op["op"] in ("fibre",):
                d = canon.diff({k: v for k, v in obs.items() if k != "out"}, {k: v for k, v in ref.items() if k != "out"}, rtol=1e-7)
            elif op["op"] == "q":
                d = self.queries(a, b, f, e["cgs"])
            elif op["op"] == "an":
                d = None
                if op["kind"] == "frame":
                    sc = f["E"] * max(f["L"], f["O"]) ** 4
                    for k, (x, y) in enumerate(zip(np.asarray(a, float), np.asarray(b, float))):
                        if k == 5 and f["round"] or k == 4 and f["parts"] > 1:
                            continue
                        if not close(x, y, 1e-6 if k != 4 or not e["cgs"] else 1e-3, 1e-7 if k == 5 else 1e-11 * sc):
                            d = f"[{k}]: {x!r} != {y!r}"
            elif op["op"] in ("stress", "sq"):
                d = self.stresses(a, b, f, e["cgs"], of_act(plan, op))
            elif op["op"] == "pts":
                d = self.points(a, b, f, e["cgs"], op["act"])
            else:
                d = canon.diff(a, b)
            if d:
                bad("differs:" + op["op"], ("cgs: " if e["cgs"] else "") + d)
        return out

    def queries(self, a, b, f, cgs):
        if a["composite"] != b["composite"]:
            return ".composite"
        for g in sorted(b["get"]):
            x, y = a["get"].get(g), b["get"][g]
            q = g[4:].split("/")[0]
            if raised(x) != raised(y):
                return f".{g}: {canon.short(x)} != {canon.short(y)}"
            if raised(x) or q not in DIM:
                continue
            warp = q in WARPING
            if (f["parts"] > 1 and warp) or (f["round"] and (q.endswith("_p") or q in ("phi", "zp", "rp", "sp", "ezp"))):
                continue
            p, wt = DIM[q]
            weight = {"": 1.0, "e": f["E"], "r": f["R"], "f": f["F"], "d": 180.0}[wt]
            length = max(f["L"], f["O"]) if q in ("q", "ig", "eq", "eig") else f["L"]
            scale = weight * length**p
            rtol, atol = (1e-3, 1e-4) if warp and cgs else (1e-6, 1e-8)
            if q in ("gamma", "egamma", "beta", "beta_p", "sc", "sc_p", "sc_t") and not cgs:
                atol = 1e-7
            if not close(x, y, rtol, atol * scale):
                return f".{g}: {canon.short(x)} != {canon.short(y)}"
        return None

    def stresses(self, a, b, f, cgs, act):
        if len(a) != len(b):
            return f"{len(a)} != {len(b)} materials"
        if not self.comparable(f, act):
            return None
        sc = max((float(np.abs(v).max()) for d in b for v in d.values() if isinstance(v, np.ndarray) and v.size), default=0.0)
        for i, (x, y) in enumerate(zip(a, b)):
            if sorted(x) != sorted(y):
                return f"[{i}]: keys"
            for k in sorted(y):
                if not isinstance(y[k], np.ndarray):
                    if x[k] != y[k]:
                        return f"[{i}].{k}: {x[k]!r} != {y[k]!r}"
                elif not close(x[k], y[k], 1e-3 if cgs else 1e-6, (1e-3 if cgs else 1e-7) * sc):
                    return f"[{i}].{k}: differs by {float(np.abs(x[k] - y[k]).max()) if x[k].shape == y[k].shape else 'shape'} of {sc}"
        return None

    def comparable(self, f, act):
        if f["parts"] > 1 and any(act.get(k) for k in ("vx", "vy", "mzz")):
            return False
        return not (f["round"] and any(act.get(k) for k in ("m11", "m22")))

    def points(self, a, b, f, cgs, act):
        if not self.comparable(f, act):
            return None
        sc = max((float(np.abs(v).max()) for v in b if v is not None), default=0.0)
        for i, (x, y) in enumerate(zip(a, b)):
            if (x is None) != (y is None):
                return f"[{i}]: {x} != {y}"
            if x is not None and not close(x, y, 1e-3 if cgs else 1e-6, (1e-3 if cgs else 1e-7) * sc):
                return f"[{i}]: {x} != {y}"
        return None

    def smaller(self, plan, log, viol):
        yield from drop_ops(plan)
        if len(set(plan["route"])) > 1:
            for c in sorted(set(plan["route"])):
                yield {**plan, "route": [c]}

    def states(self, plan, log):
        return [canon.fp([plan["route"], [[op["op"], op.get("kind"), op.get("solver"), e["obs"].get("exc")] for op, e in zip(plan["ops"], log)]])]

    def account(self, st, plan, log):
        for op, e in zip(plan["ops"], log):
            st["op:" + op["op"]] += 1
            st["in:" + e["conf"]] += 1
            if op["op"] == "restart":
                st["fault:restart_in_other_configuration"] += 1
            if op.get("solver") == "cgs":
                st["iterative_solver"] += 1
            if e["obs"].get("exc") in ("ImportError", "ModuleNotFoundError"):
                st["fault:package_missing"] += 1
        st["compared"] += sum(1 for e in log if e["key"])


def of_act(plan, op):
    if op["op"] == "stress":
        return op["act"]
    for o in plan["ops"]:
        if o["op"] == "stress" and o["out"] == op["p"]:
            return o["act"]
    return {}
