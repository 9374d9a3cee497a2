"""Seeded workload generator: histories of user operations over a few cross-sections."""
from . import exprs
from .world import STRESSES, VECTORS

PLOT_OPTIONS = {
    "plot_mesh": [{"materials": False}, {"materials": False}, {"alpha": 0.9}, {"title": "A"}],
    "plot_centroids": [{"alpha": 0.9}, {"title": "A"}],
    "plot_warping_function": [{"level": 6}, {"cmap": "plasma"}, {"with_lines": False}, {"alpha": 0.7}, {"title": "A"}],
}

ACT_BASE = [
    {"n": 5e3, "mxx": 2e6},
    {"vx": 3e3, "vy": -2e3, "mzz": 4e4},
    {"n": 1e3, "vx": 1e3, "vy": 2e3, "mxx": 1e6, "myy": -5e5, "m11": 2e5, "m22": 3e5, "mzz": 1e5},
    {"m11": 4e5, "m22": -2e5},
    {"myy": 7e5},
    {"mzz": 2e5, "n": -100.0},
    {},
]


def derive(rng, src, other):
    """A geometric operation on one or two live geometries."""
    a, b = ["$", src], ["$", other]
    if rng.random() < 0.5:
        return rng.choice([["shift", a, 11.0, -7.0], ["rotate", a, 30.0, "center"], ["mirror", a, "x", "center"], ["align_center", a, None], ["shift", a, 0.0, 0.0], ["rotate", a, 0.0, "center"]])
    return rng.choice(
        [
            ["rotate", a, 90.0, [0.0, 0.0]],
            ["mirror", a, "y", [5.0, 5.0]],
            ["align_center", a, b],
            ["align_center", a, [3.0, 4.0]],
            ["align_to", a, b, rng.choice(["right", "top", "left", "bottom"]), False],
            ["align_to", a, b, "right", True],
            ["offset", a, rng.choice([2.0, -1.0, 0.0]), "exterior", 4],
            ["shift_points", a, [0], 2.0, 1.0],
            ["shift_points", a, [1, 2], [1.0, 2.0], 0.5],
            ["shift_points", a, [2, 0], [1.0, 2.0], 0.5],
            ["shift_points", a, [3, 0, 1], 1.0, [0.5, -0.5, 1.5]],
            ["split", a, [20.0, 20.0], rng.choice([[1.0, 0.0], [0.0, 1.0]]), rng.choice(["top", "bot"])],
            ["or", a, ["shift", a, 5.0, 0.0]],
            ["sub", a, ["shift", a, 15.0, 9.0]],
            ["and", a, ["shift", a, 7.0, 3.0]],
            ["xor", a, ["shift", a, 6.0, 4.0]],
            ["add", a, ["align_to", b, a, "right", False]],
            ["add", a, ["align_to", a, a, "top", False]],
            ["list", a, ["align_to", b, a, "bottom", False]],
            ["sub", a, ["align_center", ["lib", "rectangular_section", {"d": 9.0, "b": 7.0}], a]],
        ]
    )


SAFE_SINGLE = ("shift", "rotate", "mirror", "align_center", "align_to", "offset")


def may_mesh(e, src):
    """Triangle (C code) may not terminate on slivers, as left by round-off where regions meet."""
    if src.get("risky"):
        return False
    if src["spec"].get("unit", 1.0) != 1.0 and e[0] == "offset":
        return False
    if src["spec"].get("kind") == "single":
        return e[0] in SAFE_SINGLE
    return e[0] == "shift" or (e[0] == "align_center" and e[2] is None)


FILES = {"holes": "section_holes.dxf", "round": "round.dxf", "plate": "3in x 2in.3dm", "complex": "complex_shape.3dm", "compound": "compound_shape.3dm"}
IMPORTS = [["dxf", "holes", 12.0]] * 2 + [["dxf", "round", 60.0]] * 3 + [["3dm", "plate", 0.25], ["3dm", "plate", 0.25], ["3dmc", "plate", None], ["3dm", "complex", None], ["3dmc", "compound", None], ["3dm", "compound", None]]

WARP_ACTS = {"vx", "vy", "mzz"}


def action(rng, warp=True):
    a = dict(rng.choice(ACT_BASE))
    if rng.random() < 0.4:
        k = rng.choice(["n", "mxx", "myy", "m11", "m22", "vx", "vy", "mzz"])
        a[k] = rng.choice([1500.0, -2500.0, 0.0])
    if rng.random() < 0.25:
        # other units of force, or next to nothing
        f = rng.choice([1e-14, 1e-12, 1e-12, 1e-9, 1e-6, 1e-3, 1e4, 1e9])
        a = {k: v * f for k, v in a.items()}
    if not warp:
        a = {k: v for k, v in a.items() if k not in WARP_ACTS}
    return a


class Hist:
    """Builds a list of operations that are valid in sequence (as far as it tracks)."""

    def __init__(self, rng, specs, acts=None, ti=None):
        self.rng, self.specs = rng, specs
        self.ops = []
        self.g, self.s, self.p = {}, {}, {}
        self.n = 0
        self.acts = acts
        self.ti = ti

    def name(self, t):
        self.n += 1
        return f"{t}{self.n}"

    def add(self, op):
        self.ops.append(op)
        return op

    def timed(self, ti):
        ti = self.ti if ti is None else ti
        return self.rng.random() < 0.15 if ti is None else bool(ti)

    # -- building blocks
    def geo(self, spec=None, mesh=True):
        spec = spec or self.rng.choice(self.specs)
        out = self.name("g")
        self.add({"op": "geo", "out": out, "e": spec["e"], "mesh": spec["mesh"] if mesh else None})
        self.g[out] = {"spec": spec, "meshed": mesh}
        return out

    def derived(self):
        rng = self.rng
        src = rng.choice(sorted(self.g))
        e = derive(rng, src, rng.choice(sorted(self.g)))
        spec = self.g[src]["spec"]
        out = self.name("g")
        ok = may_mesh(e, self.g[src])
        mesh = spec["mesh"] if rng.random() < 0.6 and ok else None
        self.add({"op": "geo", "out": out, "e": e, "mesh": mesh})
        self.g[out] = {"spec": spec, "meshed": bool(mesh), "risky": not ok}
        return out

    def imported(self):
        """A geometry from a file; only the small ones are meshed."""
        rng = self.rng
        via, name, mesh = rng.choice(IMPORTS)
        e = [via, name]
        if rng.random() < 0.5:
            e.append({rng.choice(["degrees_per_segment", "degrees_per_segment", "spline_delta"]): rng.choice([6.0, 15.0, 20.0])} if via == "dxf" else {"refine_num": rng.choice([1, 3])})
        out = self.name("g")
        if rng.random() < 0.5:
            mesh = None
        self.add({"op": "geo", "out": out, "e": e, "mesh": mesh})
        if mesh:
            self.g[out] = {"spec": {"e": e, "mesh": mesh, "kind": "file"}, "meshed": True}
        return out

    def section(self, g=None, ti=None):
        rng = self.rng
        if g is None:
            c = [k for k in sorted(self.g) if self.g[k]["meshed"]]
            g = rng.choice(c) if c and rng.random() < 0.7 else self.geo()
        out = self.name("s")
        self.add({"op": "section", "g": g, "out": out, "ti": self.timed(ti)})
        self.s[out] = {"spec": self.g[g]["spec"], "done": set(), "g": g}
        return out

    def analyse(self, s, kind, solver="direct", verbose=False):
        d = self.s[s]["done"]
        if kind == "warping" and "geometric" not in d:
            self.analyse(s, "geometric")
        if kind == "plastic" and not (d & {"geometric", "frame"}):
            self.analyse(s, "geometric")
        op = {"op": "an", "s": s, "kind": kind}
        if kind in ("warping", "frame") and solver != "direct":
            op["solver"] = solver
        if verbose:
            op["verbose"] = True
        d.add(kind)
        return self.add(op)

    def stress(self, s=None, act=None):
        s = s or self.any_s()
        act = self.act() if act is None else act
        if WARP_ACTS & {k for k, v in act.items() if v}:
            if "warping" not in self.s[s]["done"]:
                self.analyse(s, "warping")
        elif "geometric" not in self.s[s]["done"]:
            self.analyse(s, "geometric")
        out = self.name("p")
        self.add({"op": "stress", "s": s, "out": out, "act": act})
        self.p[out] = {"s": s, "act": act}
        return out

    def act(self):
        return dict(self.rng.choice(self.acts)) if self.acts else action(self.rng)

    def any_s(self):
        return self.rng.choice(sorted(self.s)) if self.s else self.section()

    def any_p(self):
        return self.rng.choice(sorted(self.p)) if self.p else self.stress()

    def plot_mode(self):
        u = self.rng.random()
        return "norender" if u < 0.6 else "ax" if u < 0.8 else "axidx" if u < 0.9 else "file"

    # -- one random step
    def step(self, kind=None):
        rng = self.rng
        kinds = ["an"] * 6 + ["stress"] * 4 + ["q"] * 2 + ["pts"] * 2 + ["sq", "qmesh", "section", "section", "derived", "gquery", "gplot", "gmethod", "secplot", "secplot", "splot", "splot", "disp", "disp", "fibre", "fibre", "bad", "remesh", "del"]
        k = kind or rng.choice(kinds)
        if k == "import":
            self.imported()
            return None
        if k == "section" or (not self.s and k not in ("derived", "gquery", "gplot", "gmethod")):
            return self.section(self.geo())
        if k == "an":
            s = self.any_s()
            kd = rng.choice(["geometric", "geometric", "warping", "warping", "plastic", "frame"])
            sv = "cgs" if rng.random() < 0.15 else "direct"
            self.analyse(s, kd, sv, verbose=kd == "plastic" and rng.random() < 0.3)
            if rng.random() < 0.7:
                self.add({"op": "q", "s": s})
        elif k == "stress":
            self.stress()
        elif k == "q":
            self.add({"op": "q", "s": self.any_s()})
        elif k == "qmesh":
            self.add({"op": "qmesh", "s": self.any_s()})
        elif k == "sq":
            self.add({"op": "sq", "p": self.any_p()})
        elif k == "pts":
            s = self.any_s()
            act = self.act()
            if WARP_ACTS & {k for k, v in act.items() if v}:
                if "warping" not in self.s[s]["done"]:
                    self.analyse(s, "warping")
            elif "geometric" not in self.s[s]["done"]:
                self.analyse(s, "geometric")
            pts = [[rng.choice("cccvo"), rng.randrange(60)] for _ in range(rng.choice([1, 2, 3]))]
            op = {"op": "pts", "s": s, "act": act, "pts": pts}
            if rng.random() < 0.3:
                op["arr"] = True
            if rng.random() < 0.3:
                op["agg"] = rng.choice(["max", "min"])
            self.add(op)
        elif k == "derived":
            if not self.g:
                self.geo()
            self.derived()
        elif k in ("gquery", "gplot", "gmethod"):
            g = rng.choice(sorted(self.g)) if self.g else self.geo()
            if k == "gplot":
                op = {"op": "gplot", "g": g, "mode": self.plot_mode(), **({"labels": rng.choice([["points", "facets"], ["holes", "control_points"], []])} if rng.random() < 0.3 else {})}
                if rng.random() < 0.3:
                    op["kw"] = rng.choice([{"cp": False}, {"legend": False}, {"title": "A"}])
                self.add(op)
            elif k == "gmethod":
                self.add({"op": "gmethod", "g": g, "pt": [rng.choice([10.0, 25.0, 31.0]), rng.choice([5.0, 18.0])], "vec": rng.choice([[1.0, 0.0], [0.0, 1.0], [1.0, 1.0], [3.0, 1.0]]), **({"arr": True} if rng.random() < 0.5 else {})})
            else:
                self.add({"op": "gquery", "g": g})
        elif k == "secplot":
            s = self.any_s()
            fn = rng.choice(["plot_mesh", "plot_centroids", "plot_centroids", "plot_warping_function"])
            if fn == "plot_warping_function" and not (self.s[s]["done"] & {"warping", "frame"}):
                self.analyse(s, "warping")
            op = {"op": "secplot", "s": s, "fn": fn, "mode": self.plot_mode()}
            if rng.random() < 0.4:
                op["kw"] = rng.choice(PLOT_OPTIONS[fn])
            if fn == "plot_mesh" and rng.random() < 0.2:
                op["mask"] = rng.choice([2, 3])
            self.add(op)
        elif k == "splot":
            p = self.any_p()
            u = rng.random()
            op = {"op": "splot", "p": p, "fn": "plot_stress", "stress": rng.choice(STRESSES), "mode": self.plot_mode()}
            if u < 0.25:
                op.update(fn="plot_stress_vector", stress=rng.choice(VECTORS))
            elif u < 0.5:
                op.update(fn="plot_mohrs_circles", pt=rng.randrange(50))
                op.pop("stress")
            elif u < 0.65:
                op["kw"] = {"normalize": False}
            elif u < 0.75:
                op["kw"] = {"stress_limits": [-10.0, 25.0]}
            elif u < 0.85:
                op["mats"] = [rng.randrange(3)]
            elif u < 0.93:
                op["kw"] = rng.choice([{"cmap": "plasma"}, {"alpha": 0.9}, {"fmt": "{x:.2f}"}, {"title": "B"}, {"colorbar_label": "S"}])
            self.add(op)
        elif k == "disp":
            s = self.any_s()
            fn = rng.choice(["display_results", "display_results", "display_mesh_info", "display_transformed_results"])
            op = {"op": "disp", "s": s, "fn": fn}
            if fn != "display_mesh_info" and rng.random() < 0.35:
                op["fmt"] = rng.choice(["4.2e", ".3f"])
            if fn == "display_transformed_results" and rng.random() < 0.5:
                op["e_ref"] = rng.choice([1.5, 200e3, "material"])
            self.add(op)
        elif k == "fibre":
            if rng.random() < 0.6:
                o = self.any_s()
            else:
                c = [x for x in sorted(self.g) if self.g[x]["meshed"]]
                o = rng.choice(c) if c else self.geo()
            self.add(self.fibre_op(o))
        elif k == "bad":
            self.bad()
        elif k == "remesh":
            c = [x for x in sorted(self.g) if not self.g[x].get("risky")]
            g = rng.choice(c) if c else self.geo()
            op = {"op": "mesh", "g": g, "size": round(self.g[g]["spec"]["mesh"] * rng.choice([0.6, 1.0, 1.7]), 4)}
            u = rng.random()
            if u < 0.15:
                op["size"] = [op["size"]]
            elif u < 0.4:
                op["per"] = True
            last = next((o for o in reversed(self.ops) if o["op"] == "mesh" and o["g"] == g), None)
            if last and u > 0.6:
                # the same sizes as before
                op = {k: last[k] for k in ("op", "g", "size", "per", "min_angle") if k in last}
                op.pop("coarse", None)
            v = rng.random()
            if v < 0.3:
                op["min_angle"] = rng.choice([10.0, 25.0])
            elif v < 0.45:
                op["coarse"] = True
            self.add(op)
            self.g[g]["meshed"] = True
            if rng.random() < 0.25:
                # and again, with another quality
                op = dict(op)
                if op.pop("coarse", None) is None and op.pop("min_angle", None) is None:
                    op.update(rng.choice([{"coarse": True}, {"min_angle": 10.0}]))
                self.add(op)
        elif k == "del":
            pool = sorted(self.s) + sorted(self.p) + sorted(self.g)
            if len(pool) > 3:
                x = rng.choice(pool)
                for d in (self.s, self.p, self.g):
                    d.pop(x, None)
                # stress results and sections of a deleted object stay alive through references
                self.add({"op": "del", "slots": [x]})

    def fibre_op(self, o):
        rng = self.rng
        op = {"op": "fibre", "o": o, "type": rng.choice(["2D", "3D", "3DOS", "3dos"])}
        if rng.random() < 0.3:
            op["tag"] = rng.choice([5, 100])
        if rng.random() < 0.3:
            op["width"] = rng.choice([40, 300])
        if rng.random() < 0.3:
            op["map"] = rng.choice([[["Steel", 3], ["default", 2]], [["Steel", 3], ["mild steel", 2], ["Douglas fir ", 4]]])
        if rng.random() < 0.3:
            op["save"] = True
            if rng.random() < 0.5:
                op["file"] = "fibre.txt"
        return op

    def bad(self):
        rng = self.rng
        opts = ["nomesh", "dxf"]
        if self.s:
            opts += ["solver", "solver_frame", "fibre", "stress_kw"]
        if self.g:
            opts += ["mesh_arg", "align", "offset", "opaque"]
        if self.p:
            opts += ["plot_stress", "mohr_outside"]
        w = rng.choice(opts)
        op = {"op": "bad", "what": w}
        if w in ("solver", "solver_frame", "stress_kw", "fibre"):
            op["o"] = self.any_s()
        elif w in ("mesh_arg", "align", "offset", "opaque"):
            op["o"] = rng.choice(sorted(self.g))
        elif w in ("plot_stress", "mohr_outside"):
            op["o"] = rng.choice(sorted(self.p))
        if w == "solver" and "geometric" not in self.s[op["o"]]["done"]:
            self.analyse(op["o"], "geometric")
        if w == "mesh_arg":
            pass
        self.add(op)


def cold_target(h, r):
    """An operation on a new section, with nothing computed before it in the process."""
    s = h.section(h.geo())
    k = r.choice(["geometric", "frame", "frame", "warping", "plastic", "stress"])
    if k == "stress":
        h.stress(s)
    else:
        h.analyse(s, k)
    return h.ops.pop()


def battery(h, spec, share=1.0, g=None):
    """Nearly everything one does with one section, in an order of the generator's choice."""
    rng = h.rng
    g = h.geo(spec) if g is None else g
    s = h.section(g)
    todo = ["geometric", "warping", "plastic", "frame", "stress", "stress", "pts", "disp", "tdisp", "fibre", "gquery", "gplot", "secplot", "wplot", "splot", "mohr"]
    todo = [t for t in todo if rng.random() < share]
    head = [t for t in todo if t in ("geometric", "frame")]
    rest = [t for t in todo if t not in head]
    rng.shuffle(rest)
    for t in head + rest:
        if t in ("geometric", "warping", "plastic", "frame"):
            h.analyse(s, t)
            h.add({"op": "q", "s": s})
        elif t == "stress":
            h.stress(s)
        elif t == "pts":
            act = h.act()
            if WARP_ACTS & {k for k, v in act.items() if v}:
                if "warping" not in h.s[s]["done"]:
                    h.analyse(s, "warping")
            elif "geometric" not in h.s[s]["done"]:
                h.analyse(s, "geometric")
            h.add({"op": "pts", "s": s, "act": act, "pts": [["c", rng.randrange(60)], ["c", rng.randrange(60)], ["o", 1]]})
        elif t == "disp":
            h.add({"op": "disp", "s": s, "fn": "display_results"})
        elif t == "tdisp":
            h.add({"op": "disp", "s": s, "fn": "display_transformed_results"})
        elif t == "fibre":
            h.add(h.fibre_op(rng.choice([s, g])))
        elif t == "gquery":
            h.add({"op": "gquery", "g": g})
        elif t == "gplot":
            h.add({"op": "gplot", "g": g, "mode": h.plot_mode()})
        elif t == "secplot":
            h.add({"op": "secplot", "s": s, "fn": rng.choice(["plot_mesh", "plot_centroids"]), "mode": h.plot_mode()})
        elif t == "wplot":
            if not (h.s[s]["done"] & {"warping", "frame"}):
                h.analyse(s, "warping")
            h.add({"op": "secplot", "s": s, "fn": "plot_warping_function", "mode": h.plot_mode()})
        elif t in ("splot", "mohr"):
            p = h.stress(s)
            if t == "mohr":
                h.add({"op": "splot", "p": p, "fn": "plot_mohrs_circles", "pt": rng.randrange(50), "mode": "norender"})
            else:
                h.add({"op": "splot", "p": p, "fn": "plot_stress", "stress": rng.choice(STRESSES), "mode": h.plot_mode()})
    return g, s


def setup_ops(spec, done=(), ti=False, prefix=""):
    """geometry, section and analyses of one spec."""
    ops = [
        {"op": "geo", "out": prefix + "g", "e": spec["e"], "mesh": spec["mesh"]},
        {"op": "section", "g": prefix + "g", "out": prefix + "s", "ti": ti},
    ]
    for k in done:
        ops.append({"op": "an", "s": prefix + "s", "kind": k})
    return ops
