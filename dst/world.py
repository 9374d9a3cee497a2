"""A world: live objects of one simulated process and the operations a user performs.

``World.do(op)`` performs one operation through the public API and returns what the user
observes: a value or the exception type, the text written to the terminal and the
warnings.  For every slot the world keeps its provenance: the shortest program that makes
the same object in a fresh process.  The oracle of most checks is that program's result.
"""
import contextlib
import copy
import gc
import io
import os
import pickle
import re
import sys
import warnings

import numpy as np

from . import canon as cn
from . import exprs

ADDRESS = re.compile(r"0x[0-9a-f]{6,}")
ACTIONS = ("n", "vx", "vy", "mxx", "myy", "m11", "m22", "mzz")
STRESSES = ["n_zz", "mxx_zz", "myy_zz", "m11_zz", "m22_zz", "m_zz", "mzz_zx", "mzz_zy", "mzz_zxy", "vx_zx", "vx_zy", "vx_zxy", "vy_zx", "vy_zy", "vy_zxy", "v_zx", "v_zy", "v_zxy", "zz", "zx", "zy", "zxy", "11", "33", "vm"]
VECTORS = ["mzz_zxy", "vx_zxy", "vy_zxy", "v_zxy", "zxy"]


# ---- observation of objects --------------------------------------------------------

def mesh_obs(mesh):
    if not mesh:
        return None
    return {k: np.array(v) for k, v in mesh.items() if isinstance(v, (list, np.ndarray))}


def geom_obs(g):
    parts = g.geoms if type(g).__name__ == "CompoundGeometry" else [g]
    out = {
        "type": type(g).__name__,
        "points": np.array(g.points, dtype=float),
        "facets": np.array(g.facets, dtype=int),
        "holes": np.array(g.holes, dtype=float),
        "control": np.array(g.control_points, dtype=float),
        "parts": [{"shape": cn.canon(p.geom), "mat": cn.canon(p.material), "tol": p.tol} for p in parts],
        "recovery": cn.canon([tuple(p.coords[0]) if hasattr(p, "coords") else p for p in (parts[0].recovery_points if parts else None) or []]),
        "mesh": mesh_obs(g.mesh),
        "whole": cn.canon(g.geom),
    }
    return out


def geom_query(g):
    def ask(f):
        try:
            return np.array(f())
        except Exception as e:  # nothing is left of the shape
            return {"exc": type(e).__name__}

    return {k: ask(getattr(g, "calculate_" + k)) for k in ("area", "perimeter", "centroid", "extents")}


GETTERS = None


def getters():
    """Public queries of a section that need no argument."""
    global GETTERS
    if GETTERS is None:
        import inspect

        from sectionproperties.analysis.section import Section

        GETTERS = []
        for n in sorted(dir(Section)):
            if not n.startswith("get_"):
                continue
            ps = list(inspect.signature(getattr(Section, n)).parameters.values())[1:]
            if all(p.default is not inspect.Parameter.empty for p in ps):
                GETTERS.append((n, any(p.name == "e_ref" for p in ps)))
    return GETTERS


def try_call(f, *a, **k):
    try:
        return cn.canon(f(*a, **k))
    except Exception as e:  # observed, not swallowed
        return {"exc": type(e).__name__}


def section_obs(s, e_ref=True):
    out = {"props": {k: cn.canon(v) for k, v in s.section_props.asdict().items()}, "composite": s.is_composite()}
    get = {}
    for n, has_ref in getters():
        get[n] = try_call(getattr(s, n))
        if has_ref and e_ref:
            get[n + "/2"] = try_call(getattr(s, n), e_ref=2.0)
    out["get"] = get
    return out


def section_mesh_obs(s):
    return {
        "nodes": np.array(s.mesh_nodes),
        "elements": np.array(s.mesh_elements),
        "num_nodes": s.num_nodes,
        "coords": np.array([e.coords for e in s.elements]),
        "ids": np.array([e.el_id for e in s.elements]),
        "conn": np.array([list(e.node_ids) for e in s.elements]),
        "mats": [cn.canon(e.material) for e in s.elements],
        "groups": [{"mat": cn.canon(g.material), "ids": np.array([e.el_id for e in g.elements], dtype=int)} for g in s.material_groups],
    }


def stress_obs(p):
    return [{k: cn.canon(v) for k, v in d.items()} for d in p.get_stress()]


def axes_obs(ax):
    if ax is None:
        return None
    axs = list(np.ravel(ax)) if isinstance(ax, np.ndarray) else [ax]
    out = []
    for a in axs:
        d = {"title": a.get_title(), "lines": [], "colls": [], "patches": [], "texts": []}
        for ln in a.get_lines():
            d["lines"].append({"xy": np.array(ln.get_xydata(), dtype=float), "label": ln.get_label() if not str(ln.get_label()).startswith("_") else ""})
        for c in a.collections:
            arr = c.get_array()
            ps = c.get_paths()
            d["colls"].append({
                "t": type(c).__name__,
                "n": len(ps),
                "arr": None if arr is None else np.array(np.ma.filled(np.ma.asarray(arr, dtype=float), np.nan)),
                "fc": np.array(c.get_facecolor(), dtype=float),
                "v": np.concatenate([p.vertices for p in ps]) if ps else None,
            })
        for p in a.patches:
            d["patches"].append({"t": type(p).__name__, "v": np.array(p.get_path().vertices), "x": np.array(p.get_extents().bounds)})
        for t in a.texts:
            d["texts"].append([t.get_text(), np.array(t.get_position(), dtype=float)])
        leg = a.get_legend()
        d["legend"] = None if leg is None else [t.get_text() for t in leg.get_texts()]
        d["look"] = [[str(ln.get_color()), ln.get_alpha()] for ln in a.get_lines()] + [[c.get_cmap().name, c.get_alpha()] for c in a.collections]
        out.append(d)
    if axs and axs[0].figure is not None:
        # scales of colours that came with the plot
        out.append({"scales": [[x.get_xlabel(), x.get_ylabel(), max([len(t.get_text().split(".")[-1]) for t in x.get_yticklabels()], default=0)] for x in axs[0].figure.axes if x not in axs]})
    return out


# ---- user objects for mutation checks -----------------------------------------------

_ident = {}


def ident(o):
    """Number of an object, by first use in this run (an address would differ per process)."""
    e = _ident.get(id(o))
    if e is None:
        e = _ident[id(o)] = (len(_ident), o)
    return e[0]


def geom_fp(g):
    parts = g.geoms if type(g).__name__ == "CompoundGeometry" else [g]
    return {
        "points": cn.fp(g.points), "facets": cn.fp(g.facets), "holes": cn.fp(g.holes), "control_points": cn.fp(g.control_points),
        "mesh": cn.fp(g.mesh), "shape": cn.fp(g.geom), "material": cn.fp([p.material for p in parts]), "mat_ids": cn.fp([ident(p.material) for p in parts]),
        "parts": cn.fp([[p.points, p.facets, p.holes, p.control_points, p.geom, p.tol, p.assigned_control_point] for p in parts]) if not parts or parts[0] is not g else cn.fp([g.tol, g.assigned_control_point]),
        "part_meshes": cn.fp([p.mesh for p in parts if p is not g]),
        "recovery": cn.fp(parts[0].recovery_points if parts else None), "ids": cn.fp([ident(p) for p in parts]),
    }


def section_fp(s):
    return {
        "geometry": cn.fp(ident(s.geometry)), "mesh": cn.fp(s.mesh), "mesh_id": cn.fp(ident(s.mesh)), "nodes": cn.fp(s.mesh_nodes), "elements_arr": cn.fp(s.mesh_elements), "num_nodes": cn.fp(s.num_nodes),
        "elements": cn.fp([[e.el_id, e.coords, list(e.node_ids), e.material] for e in s.elements]),
        "materials": cn.fp(s.materials), "groups": cn.fp([[g.material, [e.el_id for e in g.elements], [e.coords for e in g.elements], list(g.el_ids)] for g in s.material_groups]),
        "group_stress": cn.fp([sorted((k, v) for k, v in vars(g.stress_result).items() if isinstance(v, np.ndarray)) for g in s.material_groups]),
    }


def props_fp(s):
    return cn.fp({k: v for k, v in s.section_props.asdict().items()})


def stress_fp(p):
    return {"groups": cn.fp([[g.material, [e.el_id for e in g.elements], [e.coords for e in g.elements], sorted((k, v) for k, v in vars(g.stress_result).items() if isinstance(v, np.ndarray))] for g in p.material_groups])}


class Captured:
    __slots__ = ("text", "warns")


class World:
    def __init__(self, files=None, scratch=None):
        self.slots = {}
        self.prov = {}
        self.builder = exprs.Builder(self.slots, files)
        self.scratch = scratch or os.getcwd()
        self.nfile = 0
        self.argwatch = None

    def watch_arguments(self):
        self.argwatch = self.builder.argwatch = []

    # -- plumbing
    def path(self, suffix):
        self.nfile += 1
        return os.path.join(self.scratch, f"f{self.nfile}{suffix}")

    def do(self, op, capture=True):
        """Performs op; returns its observation. BaseExceptions that are not Exceptions propagate."""
        if not capture:
            return self._obs(op)
        buf = io.StringIO()
        with warnings.catch_warnings(record=True) as ws, contextlib.redirect_stdout(buf):
            warnings.simplefilter("always")
            res = self._obs(op)
        msgs = sorted({f"{w.category.__name__}:{str(w.message)[:60]}" for w in ws if "sectionproperties" in (w.filename or "")})
        res["out"] = "" if self.timed(op) else ADDRESS.sub("0x", buf.getvalue())
        res["warn"] = msgs
        return res

    def timed(self, op):
        """Whether the output of op shows how long it took."""
        if op["op"] in ("an", "stress", "pts", "fibre", "bad"):
            ps = [self.prov.get(op[k]) for k in SLOT_KEYS if isinstance(op.get(k), str)]
            return any(p and p["t"] == "s" and p["ti"] for p in ps)
        return False

    def missing(self, op):
        def refs(e):
            if isinstance(e, list):
                if len(e) == 2 and e[0] == "$":
                    yield e[1]
                else:
                    for x in e:
                        yield from refs(x)

        need = [op[k] for k in SLOT_KEYS if isinstance(op.get(k), str)] + list(refs(op.get("e", [])))
        return any(n not in self.slots for n in need)

    def _obs(self, op):
        if self.missing(op):
            return {"skip": True}
        try:
            return {"val": self.raw(op)}
        except Exception as e:
            return {"exc": type(e).__name__, "msg": ADDRESS.sub("0x", str(e))[:200]}

    def raw(self, op):
        return getattr(self, "op_" + op["op"])(op)

    # -- operations on geometries
    def op_geo(self, op):
        g = self.builder.evaluate(op["e"])
        provs = {k: v["e"] for k, v in self.prov.items() if v["t"] == "g"}
        e = exprs.resolve(op["e"], provs)
        if op.get("mesh"):
            g.create_mesh(op["mesh"])
        self.slots[op["out"]] = g
        self.prov[op["out"]] = {"t": "g", "e": e, "mesh": {"size": op["mesh"]} if op.get("mesh") else None}
        return geom_obs(g)

    def op_mesh(self, op):
        g = self.slots[op["g"]]
        sizes = op["size"]
        if op.get("per"):
            # one size per region
            sizes = [round(sizes * (1 + 0.25 * (i % 3)), 4) for i in range(len(g.control_points))]
        arg = list(sizes) if isinstance(sizes, list) else sizes
        before = cn.snapshot(arg)
        kw = {k: op[k] for k in ("min_angle", "coarse") if k in op}
        try:
            r = g.create_mesh(arg, **kw)
        finally:
            self.check_arg(before, "mesh_sizes")
        self.prov[op["g"]] = {**self.prov[op["g"]], "mesh": {"size": sizes, **kw}}
        return {"self": r is g, "mesh": mesh_obs(g.mesh)}

    def op_gset(self, op):
        """documented in-place operations other than meshing"""
        g = self.slots[op["g"]]
        if op["what"] == "compile":
            g.compile_geometry()
        elif op["what"] == "facets":
            g.create_facets_and_control_points()
        elif op["what"] == "recovery":
            g.recovery_points = [(1.0, 2.0), (3.0, 4.0)]
        return None

    def op_gquery(self, op):
        return geom_query(self.slots[op["g"]])

    def op_gobs(self, op):
        return geom_obs(self.slots[op["g"]])

    def op_gplot(self, op):
        kw = dict(op.get("kw", {}))
        before = None
        if "labels" in op:
            kw["labels"] = list(op["labels"])
            before = cn.snapshot(kw)
        try:
            return self.plot(op, self.slots[op["g"]].plot_geometry, **kw)
        finally:
            if before is not None:
                self.check_arg(before, "labels")

    def op_gmethod(self, op):
        """split, recovery points and similar read-only calls"""
        g = self.slots[op["g"]]
        # the direction may be a list of numbers or an array
        vec = np.array(op["vec"], dtype=float) if op.get("arr") else tuple(op["vec"])
        before = cn.snapshot(vec)
        try:
            top, bot = g.split_section(point_i=tuple(op["pt"]), vector=vec)
        finally:
            self.check_arg(before, "vector")
        return {"top": [geom_obs(x) for x in top], "bot": [geom_obs(x) for x in bot]}

    # -- sections
    def op_section(self, op):
        from sectionproperties.analysis import Section

        g = self.slots[op["g"]]
        s = Section(g, time_info=bool(op.get("ti")))
        self.slots[op["out"]] = s
        self.prov[op["out"]] = {"t": "s", "g": self.prov[op["g"]], "ti": bool(op.get("ti")), "done": []}
        return section_mesh_obs(s)

    def op_an(self, op):
        s = self.slots[op["s"]]
        kind, solver = op["kind"], op.get("solver", "direct")
        if kind == "geometric":
            r = s.calculate_geometric_properties()
        elif kind == "warping":
            r = s.calculate_warping_properties(solver_type=solver)
        elif kind == "frame":
            r = s.calculate_frame_properties(solver_type=solver)
        elif kind == "plastic":
            r = s.calculate_plastic_properties(verbose=bool(op.get("verbose")))
        else:
            raise ValueError(kind)
        self.prov[op["s"]] = {**self.prov[op["s"]], "done": self.prov[op["s"]]["done"] + [[kind, solver]]}
        return cn.canon(r)

    def op_q(self, op):
        return section_obs(self.slots[op["s"]])

    def op_qmesh(self, op):
        return section_mesh_obs(self.slots[op["s"]])

    def op_stress(self, op):
        s = self.slots[op["s"]]
        p = s.calculate_stress(**op["act"])
        self.slots[op["out"]] = p
        self.prov[op["out"]] = {"t": "p", "s": self.prov[op["s"]], "act": op["act"]}
        # quiet: nobody looks at the result yet
        return None if op.get("quiet") else stress_obs(p)

    def op_sq(self, op):
        return stress_obs(self.slots[op["p"]])

    def op_pts(self, op):
        s = self.slots[op["s"]]
        pts = []
        for k, i in op["pts"]:
            el = s.elements[i % len(s.elements)]
            if k == "c":
                xy = el.coords[:, :3].mean(axis=1)
            elif k == "v":
                xy = el.coords[:, 0]
            else:
                xy = el.coords[:, :3].max(axis=1) * 3 + 1e4
            pts.append((float(xy[0]) * (1 + op.get("eps", 0.0)), float(xy[1])))
        if op.get("arr"):
            pts = np.array(pts, dtype=float)
        before = cn.snapshot(pts)
        kw = dict(op["act"])
        if op.get("agg"):
            kw["agg_func"] = {"max": max, "min": min}[op["agg"]]
        try:
            r = s.get_stress_at_points(pts, **kw)
        finally:
            self.check_arg(before, "pts")
        return [None if x is None else np.array(x, dtype=float) for x in r]

    def op_fea(self, op):
        """a public function of the finite element module, on its own"""
        from sectionproperties.analysis import fea

        fn = getattr(fea, op["fn"], None)
        if fn is None:
            return None
        args = [np.array(v, dtype=float) if isinstance(v, list) and v and v[0] != "t" else tuple(v[1:]) if isinstance(v, list) else v for v in op["args"]]
        r = fn(*args)
        return [np.array(x, dtype=float) for x in r] if isinstance(r, tuple) else np.array(r, dtype=float)

    # -- presentation
    def plot(self, op, fn, *args, **kw):
        import matplotlib.pyplot as plt

        mode = op.get("mode", "norender")
        before = set(plt.get_fignums())
        own = None
        path = None
        if mode == "norender":
            kw["render"] = False
        elif mode == "file":
            path = self.path(".png")
            kw["filename"] = path
            kw["dpi"] = 30
        elif mode == "ax":
            own, ax = plt.subplots()
            kw["ax"] = ax
            kw["render"] = False
        elif mode == "axidx":
            kw["render"] = False
            kw["nrows"], kw["ncols"], kw["axis_index"] = 1, 2, 1
        try:
            ax = fn(*args, **kw)
            obs = axes_obs(ax)
            fobs = None
            if path:
                import matplotlib.image as mpi

                im = mpi.imread(path)
                fobs = {"shape": list(im.shape), "mean": float(np.mean(im)) if im.size else 0.0}
                os.unlink(path)
            return {"axes": obs, "file": fobs}
        finally:
            for n in set(plt.get_fignums()) - before:
                plt.close(n)

    def op_secplot(self, op):
        s = self.slots[op["s"]]
        kw = dict(op.get("kw", {}))
        if op.get("mask"):
            # every n-th triangle is not shown
            kw["mask"] = [i % op["mask"] == 0 for i in range(len(s.elements))]
            before = cn.snapshot(kw["mask"])
            try:
                return self.plot(op, getattr(s, op["fn"]), **kw)
            finally:
                self.check_arg(before, "mask")
        return self.plot(op, getattr(s, op["fn"]), **kw)

    def op_splot(self, op):
        p = self.slots[op["p"]]
        if op["fn"] == "plot_mohrs_circles":
            el = p.section.elements[op["pt"] % len(p.section.elements)]
            x, y = (float(v) for v in el.coords[:, :3].mean(axis=1))
            return self.plot(op, p.plot_mohrs_circles, x, y)
        kw = dict(op.get("kw", {}))
        if op.get("mats"):
            ms = [p.material_groups[i % len(p.material_groups)].material for i in op["mats"]]
            kw["material_list"] = ms
            before = cn.snapshot(ms)
            try:
                return self.plot(op, getattr(p, op["fn"]), op["stress"], **kw)
            finally:
                self.check_arg(before, "material_list")
        return self.plot(op, getattr(p, op["fn"]), op["stress"], **kw)

    def op_disp(self, op):
        s = self.slots[op["s"]]
        kw = {"fmt": op["fmt"]} if op.get("fmt") else {}
        if op["fn"] == "display_transformed_results":
            e_ref = op.get("e_ref", 2.0)
            if e_ref == "material":
                e_ref = s.materials[0]
            s.display_transformed_results(e_ref=e_ref, **kw)
        else:
            getattr(s, op["fn"])(**kw)
        return None

    def op_fibre(self, op):
        from sectionproperties.post.fibre import to_fibre_section

        kw = {"analysis_type": op.get("type", "3DOS"), "main_section_tag": op.get("tag", 1)}
        if "width" in op:
            kw["max_width"] = op["width"]
        if "map" in op:
            kw["material_mapping"] = dict(op["map"])
        before = cn.snapshot(kw)
        path = None
        if op.get("save"):
            # "file": always the same file, replaced if it is there
            path = os.path.join(self.scratch, op["file"]) if op.get("file") else self.path(".txt")
        try:
            r = to_fibre_section(self.slots[op["o"]], **kw, **({"save_to": path} if path else {}))
        finally:
            self.check_arg(before, "options")
        if path:
            with open(path) as f:
                saved = f.read()
            os.unlink(path)
            return {"text": r, "file_equal": saved == r}
        return {"text": r}

    # -- rejected calls and housekeeping
    def op_bad(self, op):
        from sectionproperties.analysis import Section
        from sectionproperties.post.fibre import to_fibre_section
        from sectionproperties.pre.geometry import Geometry

        w, o = op["what"], self.slots.get(op.get("o"))
        if w == "solver":
            return o.calculate_warping_properties(solver_type="bogus")
        if w == "solver_frame":
            return o.calculate_frame_properties(solver_type="bogus")
        if w == "mesh_arg":
            return geom_obs(o.create_mesh("fine"))
        if w == "nomesh":
            from shapely import Polygon

            return section_mesh_obs(Section(Geometry(Polygon([(0, 0), (1, 0), (1, 1)]))))
        if w == "dxf":
            return geom_obs(Geometry.from_dxf("/nonexistent/none.dxf"))
        if w == "fibre":
            return to_fibre_section(o, analysis_type="9D")
        if w == "plot_stress":
            return self.plot(op, o.plot_stress, "nope")
        if w == "mohr_outside":
            return self.plot(op, o.plot_mohrs_circles, 1e7, 1e7)
        if w == "stress_kw":
            return o.calculate_stress(bogus=1.0)
        if w == "align":
            return geom_obs(o.align_to((0.0, 0.0), on="nowhere"))
        if w == "offset":
            return geom_obs(o.offset_perimeter(1.0, where="nowhere"))
        if w == "opaque":
            return geom_obs(o + 3)
        if w == "xform":
            return o.display_transformed_results(e_ref="x")
        raise ValueError(w)

    def op_del(self, op):
        for k in op["slots"]:
            self.slots.pop(k, None)
            self.prov.pop(k, None)
        gc.collect()
        return None

    def op_copy(self, op):
        src = self.slots[op["src"]]
        self.slots[op["out"]] = pickle.loads(pickle.dumps(src)) if op["how"] == "pickle" else copy.deepcopy(src)
        self.prov[op["out"]] = self.prov[op["src"]]
        return None

    def check_arg(self, before, name):
        if not cn.same_as(before) and self.argwatch is not None:
            self.argwatch.append(f"argument {name} was modified, now {cn.short(before[1])}")

    # -- materialise provenance in this (fresh) world
    def materialise(self, prov, name="x"):
        if prov["t"] == "g":
            g = self.builder.evaluate(prov["e"])
            if prov["mesh"]:
                m = prov["mesh"]
                g.create_mesh(m["size"], **{k: m[k] for k in ("min_angle", "coarse") if k in m})
            obj = g
        elif prov["t"] == "s":
            from sectionproperties.analysis import Section

            g = self.materialise(prov["g"], name + "g")
            obj = Section(g, time_info=prov["ti"])
            self.slots[name], self.prov[name] = obj, {**prov, "done": []}
            for kind, solver in canonical_done(prov["done"]):
                self.op_an({"op": "an", "s": name, "kind": kind, "solver": solver})
        elif prov["t"] == "p":
            s = self.materialise(prov["s"], name + "s")
            obj = s.calculate_stress(**prov["act"])
        self.slots[name], self.prov[name] = obj, prov
        return obj


def canonical_done(done):
    """Shortest sequence of analyses with the same published results."""
    geo = any(k == "geometric" for k, _ in done)
    gi = next((i for i, (k, _) in enumerate(done) if k == "geometric"), len(done))
    late_plastic = any(k == "plastic" for k, _ in done[gi:])
    early_plastic = any(k == "plastic" for k, _ in done[:gi])
    out = []
    if early_plastic and not late_plastic:
        out += [["frame", "direct"], ["plastic", "direct"]]
    if geo:
        out.append(["geometric", "direct"])
    if late_plastic:
        out.append(["plastic", "direct"])
    last = {}
    for i, (k, sv) in enumerate(done):
        if k in ("warping", "frame"):
            last[k] = (i, sv)
    for k, (i, sv) in sorted(last.items(), key=lambda t: t[1][0]):
        out.append([k, sv])
    return out


SLOT_KEYS = ("g", "s", "p", "o", "src")


def ref_key(op, prov):
    """The op with its slots replaced by provenance: a self-contained reference program."""
    o = {k: v for k, v in op.items() if k not in ("out",)}
    uses = {}
    for k in SLOT_KEYS:
        if k in o and isinstance(o[k], str) and o[k] in prov:
            p = prov[o[k]]
            if p["t"] == "s":
                p = {**p, "done": canonical_done(p["done"])}
            if p["t"] == "p":
                p = {**p, "s": {**p["s"], "done": canonical_done(p["s"]["done"])}}
            uses[k] = p
            o[k] = "_" + k
    if op["op"] == "geo":
        o["e"] = exprs.resolve(op["e"], {k: v["e"] for k, v in prov.items() if v["t"] == "g"})
    return {"op": o, "uses": uses}


def run_reference(arg):
    """In a fresh child: builds what the op needs, then performs it, fault-free."""
    key, files = arg
    w = World(files=files)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k, p in key["uses"].items():
            w.materialise(p, "_" + k)
    op = dict(key["op"])
    if op["op"] in ("geo", "section", "stress", "copy"):
        op["out"] = "_out"
    return w.do(op)
