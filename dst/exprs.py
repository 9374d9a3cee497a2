"""Geometry expressions: JSON descriptions of how a user builds a cross-section.

An expression is a nested list whose head names an operation.  ``evaluate`` builds the
object with the public API only; ["$", slot] refers to a live object of the world.
"""
import math

from .library import LIBRARY

MATS = {
    # name: (material name, E, nu, fy, rho, colour); twins differ in one field only
    "steel": ("Steel", 200e3, 0.3, 250.0, 7.85e-6, "grey"),
    "steel_fy": ("Steel", 200e3, 0.3, 450.0, 7.85e-6, "grey"),
    "steel_nu": ("Steel", 200e3, 0.2, 250.0, 7.85e-6, "grey"),
    "steel_rho": ("Steel", 200e3, 0.3, 250.0, 9.0e-6, "grey"),
    "steel_e": ("Steel", 70e3, 0.3, 250.0, 7.85e-6, "grey"),
    "steel_c": ("Steel", 200e3, 0.3, 250.0, 7.85e-6, "tan"),
    "mild": ("Mild Steel", 200e3, 0.3, 250.0, 7.85e-6, "grey"),
    "conc": ("Concrete", 30.1e3, 0.2, 32.0, 2.4e-6, "lightgrey"),
    "conc2": ("Concrete", 36e3, 0.2, 50.0, 2.4e-6, "lightgrey"),
    "beton": ("Béton  armé C30", 33e3, 0.2, 30.0, 2.5e-6, "silver"),
    "light": ("Massless", 120e3, 0.0, 300.0, 0.0, "red"),
    "timber": ("Timber", 8e3, 0.35, 20.0, 6.5e-7, "burlywood"),
    "timber2": ("Timber", 10e3, 0.35, 20.0, 6.5e-7, "burlywood"),
}


def make_material(name):
    from sectionproperties.pre import Material

    n, e, nu, fy, rho, c = MATS[name]
    return Material(name=n, elastic_modulus=e, poissons_ratio=nu, yield_strength=fy, density=rho, color=c)


class Builder:
    """Evaluates expressions; ``shared`` materials are one object per builder."""

    def __init__(self, slots=None, files=None):
        self.slots = slots if slots is not None else {}
        self.files = files or {}
        self.mats = {}
        self.argwatch = None

    def watched(self, fn, kw):
        """Calls fn(**kw) and notes arguments that the call modified."""
        from . import canon

        before = {k: canon.snapshot(v) for k, v in kw.items()} if self.argwatch is not None else {}
        try:
            return fn(**kw)
        finally:
            for k, b in before.items():
                if not canon.same_as(b):
                    self.argwatch.append(f"argument {k} of {getattr(fn, '__name__', fn)} was modified, now {canon.short(kw[k])}")

    def mat(self, name):
        """"steel" is one shared object, "steel!" a new equal object each time."""
        from sectionproperties.pre.pre import DEFAULT_MATERIAL

        if name is None:
            return DEFAULT_MATERIAL
        if name.endswith("!"):
            return make_material(name[:-1])
        if name not in self.mats:
            self.mats[name] = make_material(name)
        return self.mats[name]

    def args(self, kw):
        out = {}
        for k, v in kw.items():
            if k == "material" or k.endswith("_mat"):
                out[k] = self.mat(v)
            elif k == "layer_mats":
                out["layer_mat"] = [self.mat(m) for m in v]
            elif isinstance(v, list):
                out[k] = [tuple(i) if isinstance(i, list) else i for i in v]
            else:
                out[k] = v
        return out

    def evaluate(self, e):
        from sectionproperties.pre import library
        from sectionproperties.pre.geometry import CompoundGeometry, Geometry
        from shapely import Polygon

        h = e[0]
        ev = self.evaluate
        if h == "$":
            return self.slots[e[1]]
        if h == "lib":
            return self.watched(getattr(library, e[1]), self.args(e[2]))
        if h == "poly":
            return Geometry(
                Polygon([tuple(p) for p in e[1]], [[tuple(p) for p in hole] for hole in e[2]]),
                material=self.mat(e[3]),
            )
        if h == "points":
            kw = {k: [tuple(p) for p in v] if v is not None else None for k, v in e[1].items() if k != "material"}
            kw["material"] = self.mat(e[1].get("material"))
            return self.watched(Geometry.from_points, kw)
        if h == "cpoints":
            kw = {k: [tuple(p) for p in v] if v is not None else None for k, v in e[1].items() if k != "materials"}
            mats = e[1].get("materials")
            kw["materials"] = [self.mat(m) for m in mats] if mats else None
            return self.watched(CompoundGeometry.from_points, kw)
        if h == "shift":
            return ev(e[1]).shift_section(x_offset=e[2], y_offset=e[3])
        if h == "rotate":
            return ev(e[1]).rotate_section(angle=e[2], rot_point=tuple(e[3]) if isinstance(e[3], list) else e[3])
        if h == "mirror":
            return ev(e[1]).mirror_section(axis=e[2], mirror_point=tuple(e[3]) if isinstance(e[3], list) else e[3])
        if h == "align_center":
            o = e[2]
            if o is None:
                return ev(e[1]).align_center()
            return ev(e[1]).align_center(align_to=tuple(o) if isinstance(o[0], (int, float)) else ev(o))
        if h == "align_to":
            o = e[2]
            return ev(e[1]).align_to(other=tuple(o) if isinstance(o[0], (int, float)) else ev(o), on=e[3], inner=e[4])
        if h == "offset":
            return ev(e[1]).offset_perimeter(amount=e[2], where=e[3], resolution=e[4])
        if h == "shift_points":
            return self.watched(ev(e[1]).shift_points, {"point_idxs": e[2], "dx": e[3], "dy": e[4]})
        if h == "control":
            return ev(e[1]).assign_control_point(tuple(e[2]))
        if h == "split":
            g = ev(e[1])
            top, bot = g.split_section(point_i=tuple(e[2]), vector=tuple(e[3]))
            return CompoundGeometry((top if e[4] == "top" else bot))
        if h == "list":
            return self.watched(CompoundGeometry, {"geoms": [ev(x) for x in e[1:]]})
        if h == "or":
            return ev(e[1]) | ev(e[2])
        if h == "xor":
            return ev(e[1]) ^ ev(e[2])
        if h == "sub":
            return ev(e[1]) - ev(e[2])
        if h == "and":
            return ev(e[1]) & ev(e[2])
        if h == "add":
            return ev(e[1]) + ev(e[2])
        if h == "scaled":
            return scaled(ev(e[1]), e[2])
        if h == "dxf":
            return Geometry.from_dxf(self.files[e[1]], **(e[2] if len(e) > 2 else {}))
        if h == "3dm":
            return Geometry.from_3dm(self.files[e[1]], **(e[2] if len(e) > 2 else {}))
        if h == "3dmc":
            return CompoundGeometry.from_3dm(self.files[e[1]], **(e[2] if len(e) > 2 else {}))
        raise ValueError(f"unknown expression {h}")


def scaled(g, k):
    """The same drawing in another unit of length."""
    from sectionproperties.pre.geometry import CompoundGeometry, Geometry
    from shapely import affinity

    def one(x):
        return Geometry(affinity.scale(x.geom, xfact=k, yfact=k, origin=(0, 0)), material=x.material)

    return CompoundGeometry([one(x) for x in g.geoms]) if hasattr(g, "geoms") else one(g)


def resolve(e, provs):
    """Replaces slot references by the expressions that made them."""
    if isinstance(e, list):
        if len(e) == 2 and e[0] == "$":
            return provs[e[1]]
        return [resolve(x, provs) for x in e]
    return e


# ---- generator ---------------------------------------------------------------------

def _r(rng, lo, hi, step=1.0):
    return round(lo + step * rng.randrange(int((hi - lo) / step) + 1), 6)


def base_shape(rng, mat=None):
    """A small single-region library or polygon shape: (expr, mesh size)."""
    k = rng.randrange(19)
    m = {"material": mat} if mat else {}
    L = lambda name, **kw: ["lib", name, {**kw, **m}]
    if k == 0:
        d, b = _r(rng, 40, 120, 10), _r(rng, 20, 90, 7)
        return L("rectangular_section", d=d, b=b), d * b / rng.choice([6, 10, 16])
    if k == 1:
        d, b = _r(rng, 90, 160, 10), _r(rng, 60, 110, 7)
        return L("angle_section", d=d, b=b, t=8.0, r_r=10.0, r_t=5.0, n_r=rng.choice([2, 3])), 500
    if k == 2:
        return L("channel_section", d=_r(rng, 100, 200, 20), b=_r(rng, 50, 80, 5), t_f=10.0, t_w=6.0, r=8.0, n_r=2), 600
    if k == 3:
        return L("mono_i_section", d=_r(rng, 120, 220, 20), b_t=_r(rng, 40, 80, 10), b_b=_r(rng, 90, 140, 10), t_fb=10.0, t_ft=12.0, t_w=6.0, r=8.0, n_r=2), 800
    if k == 4:
        return L("tee_section", d=_r(rng, 80, 150, 10), b=_r(rng, 60, 120, 10), t_f=10.0, t_w=6.0, r=8.0, n_r=2), 500
    if k == 5:
        return L("circular_hollow_section", d=_r(rng, 60, 120, 10), t=8.0, n=rng.choice([8, 12])), 300
    if k == 6:
        return L("rectangular_hollow_section", d=_r(rng, 80, 140, 10), b=_r(rng, 50, 75, 5), t=8.0, r_out=12.0, n_r=2), 400
    if k == 7:
        return L("triangular_section", b=_r(rng, 40, 90, 10), h=_r(rng, 50, 130, 10)), 500
    if k == 8:
        return L("elliptical_section", d_x=_r(rng, 40, 60, 5), d_y=_r(rng, 70, 110, 10), n=rng.choice([8, 12])), 500
    if k == 9:
        w, h = _r(rng, 60, 120, 10), _r(rng, 80, 160, 10)
        return ["poly", [[0, 0], [w, 0], [w, h * 0.5], [w * 0.6, h], [0, h * 0.8]], [[[w * 0.2, h * 0.2], [w * 0.5, h * 0.2], [w * 0.5, h * 0.4], [w * 0.2, h * 0.5]]], mat], w * h / 12
    if k == 10:
        return L("zed_section", d=_r(rng, 90, 140, 10), b_l=_r(rng, 40, 60, 5), b_r=_r(rng, 30, 50, 5), l=12.0, t=6.0, r_out=8.0, n_r=2), 300
    if k == 11:
        return L("cee_section", d=_r(rng, 90, 140, 10), b=_r(rng, 40, 60, 5), l=14.0, t=5.0, r_out=8.0, n_r=2), 300
    if k == 12:
        return L("cruciform_section", d=_r(rng, 80, 120, 10), b=_r(rng, 90, 130, 10), t=12.0, r=10.0, n_r=2), 500
    if k == 13:
        return L("tapered_flange_channel", d=_r(rng, 120, 180, 20), b=_r(rng, 60, 80, 5), t_f=12.0, t_w=8.0, r_r=10.0, r_f=5.0, alpha=5.0, n_r=2), 600
    if k == 14:
        return L("nastran_hat", dim_1=_r(rng, 60, 90, 10), dim_2=8.0, dim_3=_r(rng, 60, 80, 5), dim_4=30.0), 500
    if k == 15:
        return L("nastran_box1", dim_1=_r(rng, 60, 90, 10), dim_2=_r(rng, 50, 80, 10), dim_3=8.0, dim_4=6.0, dim_5=5.0, dim_6=7.0), 400
    if k == 16:
        w = _r(rng, 60, 100, 10)
        pts = [[0, 0], [w, 0], [w, 20], [20, 20], [20, w * 1.3], [0, w * 1.3]]
        fac = [[0, 1], [1, 2], [2, 3], [3, 4], [4, 5], [5, 0]]
        return ["points", {"points": pts, "facets": fac, "control_points": [[10, 10]], "material": mat}], 400
    if k == 17:
        return L("i_section", d=_r(rng, 120, 220, 20), b=_r(rng, 70, 120, 10), t_f=9.0, t_w=6.0, r=9.0, n_r=2), 700
    return L("polygon_hollow_section", d=_r(rng, 90, 140, 10), t=8.0, n_sides=rng.choice([5, 6]), r_in=4.0, n_r=2, rot=_r(rng, 5, 25, 5)), 500


def transformed(rng, e):
    k = rng.randrange(7)
    if k == 0:
        return ["shift", e, _r(rng, -50, 80, 13), _r(rng, -60, 70, 11)]
    if k == 1:
        return ["rotate", e, _r(rng, 10, 80, 7), rng.choice(["center", [0.0, 0.0]])]
    if k == 2:
        return ["mirror", e, rng.choice(["x", "y"]), "center"]
    if k == 3:
        return ["align_center", e, None]
    if k == 4:
        return ["offset", e, _r(rng, -1.5, 2, 0.7), "exterior", 4]
    if k == 5:
        return ["rotate", e, 90.0, "center"]
    return e


def compound(rng):
    """A multi-region shape; materials may be shared, equal-but-distinct or different."""
    k = rng.randrange(9)
    if k in (0, 1, 2):
        names = rng.choice([("steel", "timber"), ("steel", "steel_fy"), ("steel!", "steel!"), ("steel", "steel!"), ("conc", "conc2"), (None, None), ("steel", None), ("steel_nu", "steel"), ("timber!", "steel!"), ("steel", "mild"), ("mild", "steel"), ("beton", "steel"), ("light", "steel"), ("light", "light!")])
        a, b = _r(rng, 30, 60, 5), _r(rng, 20, 50, 5)
        r1 = ["lib", "rectangular_section", {"d": a, "b": b, **({"material": names[0]} if names[0] else {})}]
        r2 = ["lib", "rectangular_section", {"d": _r(rng, 30, 60, 5), "b": _r(rng, 20, 55, 5), **({"material": names[1]} if names[1] else {})}]
        if k == 2:
            r2 = ["shift_points", r2, [1, 2], _r(rng, 3, 12, 3), 0.0]
        return ["add", r1, ["align_to", r2, r1, rng.choice(["right", "top"]), False]], a * b / rng.choice([4, 8])
    if k == 3:
        return ["lib", "concrete_rectangular_section", {"b": _r(rng, 200, 300, 20), "d": _r(rng, 250, 400, 30), "dia_top": 16.0, "area_top": 200.0, "n_top": 2, "c_top": 30.0, "dia_bot": 20.0, "area_bot": 310.0, "n_bot": rng.choice([2, 3]), "c_bot": 30.0, "n_circle": 4, "conc_mat": rng.choice(["conc", "conc!", "conc2"]), "steel_mat": rng.choice(["steel", "steel!", "steel_fy"])}], 12000
    if k == 4:
        # three strips with materials A, B, A' where A' equals A but is another object
        m1, m2, m3 = rng.choice([("steel!", "timber!", "steel!"), ("steel", "timber", "steel"), ("steel", "steel_fy", "steel!"), ("timber", "steel", "timber2")])
        r = lambda m: ["lib", "rectangular_section", {"d": 20.0, "b": _r(rng, 50, 70, 5), "material": m}]
        e1 = r(m1)
        e2 = ["align_to", r(m2), e1, "top", False]
        e3 = ["align_to", r(m3), e2, "top", False]
        return ["add", ["add", e1, e2], e3], 300
    if k == 5:
        # shape with filled hole
        o = ["lib", "rectangular_section", {"d": _r(rng, 80, 120, 10), "b": _r(rng, 60, 90, 10), "material": rng.choice(["conc", "conc!"])}]
        i = ["align_center", ["lib", "rectangular_section", {"d": 30.0, "b": 20.0, "material": rng.choice(["steel", "steel!", "timber"])}], o]
        return ["add", ["sub", o, i], i], 900
    if k == 6:
        pts = [[0, 0], [40, 0], [40, 30], [0, 30], [70, 0], [70, 50], [40, 50]]
        fac = [[0, 1], [1, 2], [2, 3], [3, 0], [1, 4], [4, 5], [5, 6], [6, 2]]
        return ["cpoints", {"points": pts, "facets": fac, "control_points": [[10, 10], [50, 10]], "materials": rng.choice([None, ["steel", "timber"], ["steel!", "steel!"], ["timber", "timber"]])}], 300
    if k == 7:
        return ["lib", "clt_rectangular_section", {"d": [20.0, 20.0, 20.0], "b": _r(rng, 80, 120, 10), "layer_mats": rng.choice([["timber", "timber2", "timber"], ["timber!", "timber2!", "timber!"]])}], 500
    a, _ = base_shape(rng, rng.choice(["steel", "timber"]))
    b = ["lib", "rectangular_section", {"d": 15.0, "b": 60.0, "material": rng.choice(["steel", "timber", "steel!"])}]
    return ["list", a, ["align_to", ["align_center", b, a], a, "bottom", False]], 600


def special(rng):
    """Disjoint and overlapping compounds (legal input that only earns a warning)."""
    r1 = ["lib", "rectangular_section", {"d": _r(rng, 40, 60, 5), "b": 30.0}]
    r2 = ["lib", "rectangular_section", {"d": 30.0, "b": _r(rng, 20, 40, 5)}]
    if rng.random() < 0.5:
        return ["add", r1, ["shift", r2, 60.0, 5.0]], 300
    return ["list", r1, ["shift", r2, 15.0, 10.0]], 300


def one_spec(rng, kinds="any"):
    """{"e": expr, "mesh": size}; bounded to small meshes."""
    sp = one_shape(rng, kinds)
    return in_unit(sp, rng.choice([1e-3, 1e-3, 0.04, 10.0])) if rng.random() < 0.1 else sp


def one_shape(rng, kinds):
    if kinds == "any" and rng.random() < 0.1:
        return from_library(rng)
    u = rng.random()
    if kinds == "special" or (kinds == "any" and u < 0.06):
        e, ms = special(rng)
        return {"e": e, "mesh": ms, "kind": "special"}
    if kinds == "compound" or (kinds == "any" and u < 0.45):
        e, ms = compound(rng)
        if rng.random() < 0.3:
            # no other transformations: round-off at the shared edges leaves slivers on
            # which the triangulator (C code) may not terminate
            e = ["mirror", e, rng.choice(["x", "y"]), "center"] if rng.random() < 0.4 else ["shift", e, 17.0, -23.0]
        return {"e": e, "mesh": ms, "kind": "compound"}
    if rng.random() < 0.06:
        return centred(rng)
    mat = rng.choice([None, None, None, "steel", "steel!", "timber", "light"])
    e, ms = base_shape(rng, mat)
    if rng.random() < 0.5:
        e = transformed(rng, e)
    return {"e": e, "mesh": ms, "kind": "single"}


def centred(rng):
    """A doubly symmetric section about the origin: many of its properties are exactly zero."""
    d, b, ms = rng.choice([(50.0, 60.0, 0.5), (64.0, 60.0, 0.5), (4.0, 4.0, 0.5), (50.0, 32.0, 1.0), (4.0, 32.0, 0.25), (40.0, 40.0, 0.5)])
    m = rng.choice([None, "steel", "timber!"])
    e = ["shift", ["lib", "rectangular_section", {"d": d, "b": b, **({"material": m} if m else {})}], -b / 2, -d / 2]
    return {"e": e, "mesh": d * b * ms, "kind": "single"}


def fine(rng):
    """A simple section with a mesh of some hundred to some thousand elements."""
    d, b = rng.choice([(50.0, 60.0), (100.0, 20.0), (40.0, 40.0)])
    n = rng.choice([300, 800, 800, 1600])
    return {"e": ["lib", "rectangular_section", {"d": d, "b": b}], "mesh": d * b / n, "kind": "single"}


def same_rounding(rng, n):
    """n sections of other kinds whose corners have the same radius and number of points."""
    r, k = rng.choice([4.0, 5.0, 8.0]), rng.choice([2, 3, 4])
    names = [m for m in sorted(LIBRARY) if "n_r" in LIBRARY[m][0] and "material" not in LIBRARY[m][0]]
    out = []
    for m in rng.sample(names, min(n, len(names))):
        kw = dict(LIBRARY[m][0])
        for a in ("r", "r_r", "r_t", "r_out", "r_f", "r_in"):
            if a in kw and rng.random() < 0.8:
                kw[a] = r
        kw["n_r"] = k
        out.append({"e": ["lib", m, kw], "mesh": LIBRARY[m][1], "kind": "single", "lib": True})
    return out


COMPOUND = {"cee_wall", "clt_rectangular_section", "double_lift_core_a", "double_lift_core_b", "nastran_hat1", "rectangular_wall", "single_lift_core", "stairwell", "tee_wall"}


def from_library(rng, limit=300):
    """Any section generator, as its documentation calls it."""
    name = rng.choice([n for n in sorted(LIBRARY) if LIBRARY[n][2] <= limit])
    kw, mesh, _ = LIBRARY[name]
    kw = dict(kw)
    kind = "compound" if name in COMPOUND else "single"
    if any(k in kw for k in ("cover", "c_top")):
        kw.update(conc_mat=rng.choice(["conc", "conc!", "conc2"]), steel_mat=rng.choice(["steel", "steel!", "steel_fy"]))
        kind = "compound"
    elif name == "clt_rectangular_section":
        kw["layer_mats"] = rng.choice([["timber", "timber2", "timber"], ["timber!", "timber2!", "timber!"]])
        kind = "compound"
    elif rng.random() < 0.5:
        kw["material"] = rng.choice(["steel", "steel!", "timber", "conc"])
    return {"e": ["lib", name, kw], "mesh": mesh, "kind": kind, "lib": True}


def other_param(rng, e):
    """The same generator with one argument changed."""
    kw = {k: v for k, v in e[2].items() if k != "material" and not k.endswith("_mat") and k != "layer_mats"}
    k = rng.choice(sorted(kw))
    v = kw[k]
    if isinstance(v, bool):
        v = not v
    elif isinstance(v, int):
        v = v + rng.choice([1, 4] if k.startswith("n") else [1])
    elif isinstance(v, list):
        i = rng.randrange(len(v))
        v = v[:i] + [v[i] * 0.75] + v[i + 1 :]
    else:
        v = round(v * rng.choice([0.97, 1.04]), 6)
    return [e[0], e[1], {**e[2], k: v}]


def in_unit(spec, k):
    """The spec with every length multiplied by k."""
    return {**spec, "e": ["scaled", spec["e"], k], "mesh": spec["mesh"] * k * k, "unit": k * spec.get("unit", 1.0)}


def tweak(rng, e, factors=(0.95, 1.05, 1.1)):
    """The same shape with one dimension changed."""
    import copy as _c

    e = _c.deepcopy(e)
    leaves = []

    def walk(x):
        if isinstance(x, list):
            if len(x) == 3 and x[0] == "lib":
                for k in ("d", "b", "d_x", "d_y", "h", "b_t", "b_b"):
                    if isinstance(x[2].get(k), float) and x[2][k] > 25 and "concrete" not in x[1]:
                        leaves.append((x[2], k))
            for y in x:
                walk(y)

    walk(e)
    if not leaves:
        return ["shift", e, 9.0, 4.0]
    d, k = rng.choice(leaves)
    d[k] = round(d[k] * rng.choice(factors), 6)
    return e


def swap_materials(e, pairs):
    """Exchanges or replaces material names anywhere in an expression."""
    if isinstance(e, list):
        return [swap_materials(x, pairs) for x in e]
    if isinstance(e, dict):
        return {k: swap_materials(v, pairs) for k, v in e.items()}
    if isinstance(e, str) and e.rstrip("!") in MATS:
        b = e.rstrip("!")
        return pairs.get(b, b) + ("!" if e.endswith("!") else "")
    return e


def materials_in(e):
    if isinstance(e, list):
        return set().union(*[materials_in(x) for x in e]) if e else set()
    if isinstance(e, dict):
        return materials_in(list(e.values()))
    return {e.rstrip("!")} if isinstance(e, str) and e.rstrip("!") in MATS else set()


NEAR = {
    "steel": ["steel_e", "steel_fy", "steel_nu", "steel_rho", "steel_c", "mild", "light"],
    "light": ["steel"],
    "steel_fy": ["steel"],
    "steel_nu": ["steel"],
    "timber": ["timber2"],
    "timber2": ["timber"],
    "conc": ["conc2"],
    "conc2": ["conc"],
    "beton": ["conc"],
}


def twin(rng, spec, k=None):
    """A near-collision: same topology, same names or same sizes, but another section."""
    import copy as _c

    s = _c.deepcopy(spec)
    mats = materials_in(s["e"])
    opts = ["shift", "mirror", "r90", "r180", "mesh", "tweak", "tweak", "edge", "same"]
    if s["e"][0] == "lib" and s.get("lib"):
        opts += ["param"] * 5
    if mats:
        opts += ["mat"] * 4
    if len(mats) > 1:
        opts += ["swap"] * 3
    k = k or rng.choice(opts)
    if k == "shift":
        s["e"] = ["shift", s["e"], _r(rng, 5, 40, 5), _r(rng, -30, 30, 10)]
    elif k == "mirror":
        s["e"] = ["mirror", s["e"], rng.choice(["x", "y"]), "center"]
    elif k == "r90":
        s["e"] = ["rotate", s["e"], 90.0, "center"]
    elif k == "r180":
        s["e"] = ["rotate", s["e"], 180.0, "center"]
    elif k == "mesh":
        s["mesh"] = s["mesh"] * rng.choice([0.5, 0.7, 1.5])
    elif k == "tweak":
        s["e"] = tweak(rng, s["e"])
    elif k == "param":
        s["e"] = other_param(rng, s["e"]) if s["e"][0] == "lib" else tweak(rng, s["e"])
    elif k == "edge":
        # another size, with one edge where it was
        s["e"] = ["align_to", tweak(rng, s["e"], (0.5, 0.9, 1.1, 2.5)), s["e"], rng.choice(["left", "right", "top", "bottom"]), True]
    elif k == "mat":
        m = rng.choice(sorted(mats))
        alt = [a for a in NEAR.get(m, ["steel"]) if a not in mats]
        s["e"] = swap_materials(s["e"], {m: rng.choice(alt)}) if alt else tweak(rng, s["e"])
    elif k.startswith("mat:"):
        m = rng.choice(sorted(mats))
        s["e"] = swap_materials(s["e"], {m: k[4:]})
    elif k == "swap":
        a, b = rng.sample(sorted(mats), 2)
        s["e"] = swap_materials(s["e"], {a: b, b: a})
    return s


def family(rng, n=4, kinds="any"):
    base = one_spec(rng, kinds)
    out = [base]
    while len(out) < n:
        out.append(twin(rng, rng.choice(out)))
    return out


def pairs(rng, n):
    """n pairs of near-colliding sections, one of each kind of near-collision in turn."""
    out = []
    kinds = []
    for m in NEAR["steel"]:
        kinds += [("single", "mat:" + m), ("compound", "mat:" + m)]
    kinds += [(b, k) for b in ("single", "compound", "special") for k in ("shift", "mirror", "r90", "r180", "mesh", "tweak", "edge", "same")]
    kinds += [("lib", "param")] * 6 + [("lib", "edge"), ("lib", "same")]
    kinds += [("compound", "swap"), ("special", "tweak"), ("special", "same")] * 2
    while len(out) < n:
        rng.shuffle(kinds)
        for b, k in kinds:
            for _ in range(40):
                sp = from_library(rng) if b == "lib" else one_spec(rng, b)
                mats = materials_in(sp["e"])
                if k.startswith("mat:") and ("steel" not in mats or k[4:] in mats):
                    continue
                if k == "swap" and len(mats) < 2:
                    continue
                break
            else:
                continue
            t = twin(rng, sp, k)
            out.append([sp, t] if rng.random() < 0.5 else [t, sp])
    return out[:n]
