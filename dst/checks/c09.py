"""C09: plots clean up after themselves and change nothing else.

One plot call per branch, in a process that already has figures of the user, with the disk
failing at one open, byte, close or sync of the saved file, or an interrupt at one step of
the plot (also on entry of the matplotlib functions that create, lay out and save the
figure).  The process-wide figure registry, the user's figures, the stored results
and the saved image are inspected afterwards.
"""
import os
import pathlib
import re
import warnings

import numpy as np

from .. import canon, exprs, gen, pool, rng, storage, ticks, world
from ..engine import Check, jkey
from . import aborts
from .aborts import EXC, changed, sections_obs, state_of
from .c01 import drop_ops

SIG = re.compile(rb"</svg>\s*$|%%EOF\s*$")
BAD_KW = [
    {"axis_index": 7, "nrows": 1, "ncols": 2},
    {"axis_index": [0, 5], "nrows": 2, "ncols": 2},
    {"bogus": 1},
    {"nrows": 0},
    {"figsize": "large"},
    {"sharex": "none of that"},
]


def library_codes():
    """Entries of the matplotlib functions that make, lay out and save a figure."""
    import matplotlib.axes
    import matplotlib.backends.backend_agg as agg
    import matplotlib.figure as mf

    fs = [mf.FigureBase.subplots, mf.FigureBase.add_subplot, mf.FigureBase.colorbar, mf.Figure.savefig, mf.Figure.tight_layout, matplotlib.axes.Axes.set_title, matplotlib.axes.Axes.set_aspect, matplotlib.axes.Axes.legend, agg.FigureCanvasAgg.print_png, agg.FigureCanvasAgg.draw]
    out = []
    for f in fs:
        while hasattr(f, "__wrapped__"):
            f = f.__wrapped__
        if hasattr(f, "__code__"):
            out.append(f.__code__)
    return out


def image_state(path, fmt):
    """"complete", or what is wrong with a saved image."""
    try:
        with open(path, "rb") as f:
            data = f.read()
    except OSError as e:
        return type(e).__name__
    if fmt == "png":
        import matplotlib.image as mpi

        if not data.endswith(b"IEND\xaeB`\x82"):
            return f"{len(data)} bytes, no end marker"
        try:
            im = mpi.imread(path)
        except Exception as e:
            return repr(e)[:80]
        return "complete" if im.std() > 0 else "blank image"
    return "complete" if SIG.search(data[-40:]) else f"{len(data)} bytes, no end marker"


def no_extents(axes):
    """Without what depends on the figure the plot is on and on whether it was drawn."""
    return [{
        **a,
        "patches": [{k: v for k, v in p.items() if k != "x"} for p in a["patches"]],
        "colls": [{k: v for k, v in c.items() if k == "t" or (c["t"] != "Quiver" and (k != "fc" or c["arr"] is None))} for c in a["colls"]],
    } for a in axes if "scales" not in a]


def figure_fp(fig):
    sp = fig.subplotpars
    return {
        "axes": len(fig.axes),
        "title": fig.get_suptitle() if hasattr(fig, "get_suptitle") else "",
        "pars": [sp.left, sp.right, sp.top, sp.bottom, sp.wspace, sp.hspace],
        "pos": [[float(v) for v in a.get_position(original=True).bounds] for a in fig.axes],
        "size": [float(v) for v in fig.get_size_inches()],
        "content": canon.fp([world.axes_obs(a) for a in fig.axes]),
        "limits": [[float(v) for v in (*a.get_xlim(), *a.get_ylim())] for a in fig.axes],
    }


class CHECK(Check):
    id = "C09"
    level = "fault_enumeration"
    quick_runs = 130
    thorough_runs = 2500
    branches = 9
    rule = "a branch is one plot call with one disk fault, one interrupt or no fault; distinct by (plot, destination, fault operation and error or interrupted function, outcome)"
    assumptions = ["an interrupt inside matplotlib is injected on entry of the functions that create, lay out and save a figure, not in the middle of matplotlib's own bookkeeping", "when the caller supplies the axes, a failed plot may leave partial artists on these axes"]
    stubs = ["the kernel's answer to the failing I/O call", "the screen (agg back end)"]

    def prepare(self, seed, tier):
        import matplotlib
        import matplotlib.pyplot as plt

        os.environ["SOURCE_DATE_EPOCH"] = "1700000000"
        matplotlib.rcParams["svg.hashsalt"] = "dst"
        # fonts and back ends are loaded once, before anything is simulated
        d = os.path.join(os.environ["DST_SCRATCH"], "work", "warm")
        os.makedirs(d, exist_ok=True)
        fig, ax = plt.subplots()
        ax.plot([0, 1], [0, 1], label="a")
        ax.set_title("$x_1$")
        ax.legend()
        for ext in ("png", "svg", "pdf"):
            fig.savefig(os.path.join(d, "w." + ext))
        plt.close(fig)
        matplotlib.figure.Figure().subplots()

    def plan(self, r, i, tier):
        acts = [gen.action(r) for _ in range(2)]
        h = gen.Hist(r, exprs.family(r, 2), acts=acts)
        h.section(h.geo(h.specs[0]))
        for _ in range(r.choice([0, 1, 2])):
            h.step(r.choice(["stress", "an", "secplot", "gplot", "bad"]))
        n = len(h.ops)
        while len(h.ops) == n:
            h.step(r.choice(["splot", "splot", "splot", "secplot", "secplot", "gplot"]))
        t = h.ops.pop()
        t.pop("mode", None)
        u = r.random()
        if u < 0.5:
            t["dest"] = "file"
            t["fmt"] = r.choice(["png", "png", "png", "svg", "pdf"])
            t["form"] = r.choice(["str", "path"])
            t["where"] = r.choice(["fresh"] * 5 + ["old", "missing-dir", "directory", "ext"])
        elif u < 0.62:
            t["dest"] = "norender"
        elif u < 0.82:
            t["dest"] = "ax"
            t["which"] = r.choice(["current", "not-current", "unregistered", "subfigure"])
            t["render"] = r.random() < 0.5
            if r.random() < 0.3:
                t["fmt"] = "png"  # a file name as well
        elif u < 0.9:
            t["dest"] = "axidx"
        else:
            t["dest"] = "render"
            t["pause"] = r.random() < 0.7
        if r.random() < 0.22:
            w = r.choice(["kw", "kw", "arg", "arg", "ext"])
            if w == "kw" and t["dest"] not in ("ax", "axidx"):
                t["badkw"] = r.choice(BAD_KW)
            elif w == "arg":
                t["badarg"] = True
        return {"ops": h.ops, "target": t, "user": r.choice([0, 1, 1, 2, 3]), "rng": ["C09", "at", r.random()]}

    # -- one plot call
    def call(self, w, t, ax, path):
        kw = dict(t.get("kw", {}))
        args = []
        if t["op"] == "gplot":
            fn = w.slots[t["g"]].plot_geometry
            if "labels" in t:
                kw["labels"] = list(t["labels"])
            if t.get("badarg"):
                kw["labels"] = 5
        elif t["op"] == "secplot":
            fn = getattr(w.slots[t["s"]], t["fn"])
            if t.get("badarg"):
                kw["alpha" if t["fn"] != "plot_warping_function" else "level"] = "opaque"
            if t.get("mask"):
                kw["mask"] = [i % t["mask"] == 0 for i in range(len(w.slots[t["s"]].elements))]
        else:
            p = w.slots[t["p"]]
            fn = getattr(p, t["fn"])
            if t["fn"] == "plot_mohrs_circles":
                el = p.section.elements[t["pt"] % len(p.section.elements)]
                args = [float(v) for v in el.coords[:, :3].mean(axis=1)]
                if t.get("badarg"):
                    args = [1e9, 1e9]
            else:
                args = ["nothing" if t.get("badarg") and t["pt2"] else t["stress"]]
                if t.get("badarg") and not t["pt2"]:
                    kw["cmap"] = "no-such-map"
            if t.get("mats"):
                kw["material_list"] = [p.material_groups[i % len(p.material_groups)].material for i in t["mats"]]
        if t["dest"] in ("norender", "axidx"):
            kw["render"] = False
        if t["dest"] == "axidx":
            kw.update(nrows=1, ncols=2, axis_index=1)
        if t["dest"] == "ax":
            kw["ax"] = ax
            kw["render"] = t["render"]
        if t["dest"] == "render":
            kw["pause"] = t["pause"]
        if path is not None:
            kw["filename"] = pathlib.Path(path) if t.get("form") == "path" else path
            kw["dpi"] = 40
        for k, v in t.get("badkw", {}).items():
            kw[k] = tuple(v) if isinstance(v, list) else v
        return fn(*args, **kw)

    def execute(self, plan):
        import matplotlib.figure
        import matplotlib.pyplot as plt

        w = world.World(files=self.files())
        for op in plan["ops"]:
            w.do(op)
        t = dict(plan["target"])
        t.setdefault("pt2", len(plan["ops"]) % 2)
        if w.missing(t):
            return {"skip": True}
        plt.close("all")
        figs = []
        for k in range(plan["user"]):
            f, a = plt.subplots(1, 1 + k % 2)
            np.ravel(a)[0].plot([0, 1, 2], [k, 1, 4])
            f.suptitle(f"mine {k}")
            figs.append(f)
        ax = None
        if t["dest"] == "ax":
            if t["which"] == "unregistered":
                ax = matplotlib.figure.Figure().subplots()
            elif t["which"] == "subfigure":
                f = plt.figure()
                figs.append(f)
                ax = f.subfigures(1, 2)[0].subplots()
            else:
                f, ax = plt.subplots()
                figs.append(f)
                if t["which"] == "not-current":
                    f2, _ = plt.subplots()
                    figs.append(f2)
        own = ax.figure.canvas.figure if ax is not None else None
        root = os.path.join(w.scratch, "disk")
        os.makedirs(root)
        path = None
        if t.get("fmt"):
            path = os.path.join(root, "plot." + t["fmt"])
            if t.get("where") == "missing-dir":
                path = os.path.join(root, "no", "such", "plot." + t["fmt"])
            elif t.get("where") == "directory":
                os.mkdir(path)
            elif t.get("where") == "ext":
                path = os.path.join(root, "plot.nosuchformat")
            elif t.get("where") == "old":
                with open(path, "wb") as f:
                    f.write(b"\x00old" * 50000)
        log = {"branches": []}
        fp0, sec0 = state_of(w), sections_obs(w)
        users0 = [figure_fp(f) for f in figs]
        nums0 = plt.get_fignums()
        rc0 = canon.fp({k: repr(v) for k, v in plt.rcParams.items() if k not in ("interactive", "backend")})
        extra = library_codes()

        def branch(at):
            out = {"at": at}
            fault = at if at and "op" in at else None
            fire = at["tick"] if at and "tick" in at else -1
            if at is None:
                fire = None
            rec = ticks.Recorder(fire_at=fire, exc=EXC[at["exc"]]() if at and "exc" in at else None, extra=extra)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with storage.Disk(root, fault) as d:
                    try:
                        with rec:
                            r = self.call(w, t, ax, path)
                        out["axes"] = world.axes_obs(r)
                        out["ret"] = True
                    except BaseException as e:
                        out["exc"] = type(e).__name__
            out["fired"] = rec.fired if fire and fire > 0 else bool(d.fired) if fault else None
            if at is None:
                out["stats"], out["sites"] = d.stats, rec.sites
            out["new_figs"] = len([n for n in plt.get_fignums() if n not in nums0])
            out["lost_figs"] = [n for n in nums0 if n not in plt.get_fignums()]
            out["users"] = [changed({"f": a}, {"f": figure_fp(f)}) for a, f in zip(users0, figs) if f is not own]
            if own is not None:
                out["own_axes"] = ax in own.axes or any(ax in s.axes for s in own.subfigs)
            out["changed"] = changed(fp0, state_of(w))
            out["results"] = canon.diff(sections_obs(w), sec0) or ""
            out["rc"] = canon.fp({k: repr(v) for k, v in plt.rcParams.items() if k not in ("interactive", "backend")}) == rc0
            if path and t["dest"] == "file":
                out["image"] = image_state(path, t["fmt"])
            # afterwards the same plot on a new figure, undisturbed
            t2 = {k: v for k, v in t.items() if k not in ("badkw", "badarg")}
            t2["dest"] = "norender"
            try:
                out["again"] = world.axes_obs(self.call(w, t2, None, None))
            except Exception as e:
                out["again"] = {"exc": type(e).__name__}
            return out

        def alone(arg):
            # on a figure that pyplot does not know, as an application would embed it
            plt.close("all")
            a = matplotlib.figure.Figure().subplots()
            t2 = {k: v for k, v in t.items() if k not in ("badkw", "badarg", "fmt")}
            t2.update(dest="ax", render=False)
            try:
                r = self.call(w, t2, a, None)
                return {"left": plt.get_fignums(), "axes": world.axes_obs(r), "mine": r is a}
            except Exception as e:
                return {"left": plt.get_fignums(), "exc": type(e).__name__}

        base = pool.run_forked(branch, None, 60)
        if isinstance(base, pool.Crashed):
            return {"skip": True}
        res = pool.run_forked(alone, None, 60)
        log["alone"] = None if isinstance(res, pool.Crashed) else res
        sites, stats = base.pop("sites"), base.pop("stats")
        log["branches"].append(base)
        log["nsites"] = len(sites)
        rop = {k: v for k, v in plan["target"].items() if k not in ("dest", "fmt", "form", "where", "which", "render", "pause", "badkw", "badarg")}
        log["key"] = world.ref_key({**rop, "mode": "norender"}, w.prov)
        picks = plan.get("at")
        if picks is None:
            r = rng.make(*plan["rng"])
            n = plan.get("branches", self.branches)
            picks = []
            if stats["write"]:
                picks = storage.write_faults(r, stats, n // 2)
            picks += [{"tick": k, "exc": r.choice(["interrupt", "memory"])} for k in ticks.pick_ticks(sites, r, n - len(picks))]
        for at in picks:
            res = pool.run_forked(branch, at, 60)
            if isinstance(res, pool.Crashed):
                res = {"crashed": repr(res), "at": at}
            log["branches"].append(res)
        return log

    def needs(self, plan, log):
        return {jkey(log["key"]): log["key"]} if log.get("key") else {}

    def judge(self, plan, log, refs):
        out = []
        t = plan["target"]
        brs = log.get("branches", [])
        ref = refs[jkey(log["key"])] if log.get("key") else None
        al = log.get("alone")
        if al:
            if al["left"]:
                out.append({"class": "figure-leak", "detail": f"{canon.short(t)} on axes of a figure that pyplot does not know: {len(al['left'])} new open figures", "key": "figure-leak:alone"})
            if "val" in ref:
                d = f"raises {al['exc']}" if "exc" in al else canon.diff(no_extents(al["axes"]), no_extents(ref["val"]["axes"]))
                if d:
                    out.append({"class": "content", "detail": f"{canon.short(t)} on axes of a figure that pyplot does not know: {d}", "key": "content:alone"})
        for b in brs:
            at = b["at"]

            def bad(cls, text):
                where = f"{b['at']}" + (f" in {b['fired'][0]} ({b['fired'][3]})" if isinstance(b.get("fired"), list) else "")
                out.append({"class": cls, "detail": f"{canon.short(t)} [{where}]: {text}", "key": f"{cls}:{t['dest']}", "at": at})

            if "crashed" in b:
                if "timeout" not in b["crashed"]:
                    bad("crash", b["crashed"])
                continue
            ok = "ret" in b
            want = 1 if ok and t["dest"] in ("norender", "axidx", "render") else 0
            if b["new_figs"] > want:
                bad("figure-leak", f"{b['new_figs']} new open figures after the plot {'returned' if ok else 'raised ' + b['exc']}")
            elif b["new_figs"] < want:
                bad("figure-lost", "the figure of the plot is not open")
            if b["lost_figs"]:
                bad("user-figure-closed", f"figures {b['lost_figs']}")
            if not b.get("own_axes", True):
                bad("user-axes-removed", "the axes are not in their figure any more")
            for k, c in enumerate(b["users"]):
                if c:
                    bad("other-figure-altered", f"{c} of a figure that has nothing to do with the plot")
            if b["changed"]:
                bad("objects-altered", str(b["changed"]))
            if b["results"]:
                bad("results-altered", b["results"])
            if not b["rc"]:
                bad("settings-altered", "rcParams")
            harmless = at is None or at.get("op") in storage.HARMLESS
            if ok and t["dest"] == "file" and b["image"] != "complete":
                bad("incomplete-file", f"returned, but the file is {b['image']}")
            if ok and at and "op" in at and b["fired"] and not harmless and t["dest"] == "file":
                bad("not-reported", "the plot returned although the disk failed")
            if ok and at is None and (t.get("badarg") and t["op"] == "splot" or t.get("badkw") or (t["dest"] == "file" and t["where"] in ("missing-dir", "directory", "ext"))):
                bad("not-reported", "an impossible plot returned")
            if not ok and harmless and not (t.get("badarg") or t.get("badkw") or t.get("where") in ("missing-dir", "directory", "ext")):
                bad("spurious-failure", b["exc"])
            if "val" in ref:
                want_axes = ref["val"]["axes"]
                d = canon.diff(b["again"], want_axes)
                if d:
                    bad("again", f"the same plot afterwards: {d}")
                if ok and t["dest"] not in ("ax",) and not t.get("badkw") and not t.get("badarg"):
                    d = canon.diff(no_extents(b["axes"]), no_extents(want_axes))
                    if d:
                        bad("content", d)
        return out

    def concrete(self, plan, log, viol):
        return {**plan, "at": [viol["at"]] if viol["at"] else []} if "at" in viol else plan

    def smaller(self, plan, log, viol):
        if viol.get("at") is None and plan.get("at"):
            yield {**plan, "at": []}
        yield from drop_ops(plan, "ops")
        if plan["user"]:
            yield {**plan, "user": 0}
            yield {**plan, "user": 1}
        for k in ("kw", "mats", "labels", "form"):
            if k in plan["target"]:
                yield {**plan, "target": {a: b for a, b in plan["target"].items() if a != k}}

    def states(self, plan, log):
        t = plan["target"]
        out = []
        for b in log.get("branches", []):
            if "crashed" in b:
                continue
            at = b["at"]
            what = None if not at else [at["op"], at.get("err")] if "op" in at else [b["fired"][0], b["fired"][3], at["exc"]] if b["fired"] else None
            out.append(canon.fp([t["op"], t.get("fn"), t["dest"], t.get("fmt"), t.get("where"), t.get("which"), t.get("badkw"), t.get("badarg"), what, b.get("exc")]))
        return out

    def account(self, st, plan, log):
        t = plan["target"]
        for b in log.get("branches", []):
            st["branches"] += 1
            at = b.get("at")
            if at and b.get("fired"):
                st["fault:" + (f"{at['op']}_{at.get('err', '')}" if "op" in at else at["exc"])] += 1
            st["probe:raised_" + b["exc"] if b.get("exc") else "probe:returned"] += 1
        st["plot:" + t["op"] + ":" + t.get("fn", "")] += 1
        st["dest:" + t["dest"]] += 1

    def sample(self, plan, log):
        return {"plan": plan, "branches": [[b["at"], b.get("exc", "returned")] for b in log.get("branches", [])]}
