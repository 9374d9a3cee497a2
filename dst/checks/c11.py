"""C11: imports give the complete geometry or an error, and leave the file alone.

A run is a history of imports from files that the simulator writes, replaces, tears and
makes unreadable; the disk fails at a chosen byte, open or close of an import (iofault.c,
also below rhino3dm's C++ reader), or the import is interrupted.
"""
import hashlib
import json
import math
import os
import pathlib

import numpy as np

from .. import boot, canon, gen, pool, rng, servers, storage, ticks, world
from ..engine import Check, jkey
from .c01 import drop_ops

DATA = os.path.join(boot.VERIF, "dst", "data")


def dxf_text(shapes):
    out = []

    def e(*pairs):
        for c, v in pairs:
            out.append(f"{c}\n{v}")

    def line(a, b):
        e((0, "LINE"), (8, "0"), (10, a[0]), (20, a[1]), (11, b[0]), (21, b[1]))

    e((0, "SECTION"), (2, "ENTITIES"))
    for s in shapes:
        if s[0] == "lines":
            for a, b in zip(s[1], s[1][1:] + s[1][:1]):
                line(a, b)
        elif s[0] == "open":
            for a, b in zip(s[1], s[1][1:]):
                line(a, b)
        elif s[0] == "poly":
            e((0, "POLYLINE"), (8, "0"), (66, 1), (70, 1))
            for p in s[1]:
                e((0, "VERTEX"), (8, "0"), (10, p[0]), (20, p[1]))
            e((0, "SEQEND"))
        elif s[0] == "circle":
            e((0, "CIRCLE"), (8, "0"), (10, s[1]), (20, s[2]), (40, s[3]))
        elif s[0] == "text":
            e((0, "TEXT"), (8, "0"), (10, 0), (20, 0), (40, 1), (1, "note " * 40))
    e((0, "ENDSEC"), (0, "EOF"))
    return "\n".join(out) + "\n"


def poly_area(pts):
    return abs(sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(pts, pts[1:] + pts[:1]))) / 2


def model(spec):
    """(number of regions, area) of a drawing as the user drew it, or None when unknown."""
    if spec["kind"] != "dxf":
        return None
    n, area = 0, 0.0
    for s in spec["shapes"]:
        if s[0] in ("text", "open"):
            continue
        a = math.pi * s[3] ** 2 if s[0] == "circle" else poly_area(s[1])
        if s[-1] == "hole":
            area -= a
        else:
            n += 1
            area += a
    return n, area


def content(spec):
    k = spec["kind"]
    if k == "dxf":
        data = dxf_text(spec["shapes"]).encode()
    elif k == "data":
        with open(os.path.join(DATA, spec["name"]), "rb") as f:
            data = f.read()
    elif k == "garbage":
        data = (b"garbage \x00\xff\n" * 50)[: spec["n"]]
    else:
        data = b""
    if "cut" in spec:
        data = data[: int(spec["cut"] * len(data))]
    return data


def drawing(r):
    shapes = []
    x = 0.0
    for _ in range(r.choice([1, 1, 1, 2, 3, 4])):
        b, d = float(r.randrange(10, 40, 3)), float(r.randrange(8, 50, 3))
        rect = [[x, 0.0], [x + b, 0.0], [x + b, d], [x, d]]
        k = r.random()
        if k < 0.2:
            shapes.append(["circle", x + 20.0, 5.0, r.choice([4.0, 9.5]), "solid"])
        elif k < 0.4:
            shapes.append(["poly", [[x, 0.0], [x + b, 0.0], [x + b, d], [x + b / 2, d * 1.5], [x, d]], "solid"])
        else:
            shapes.append([r.choice(["lines", "poly"]), rect, "solid"])
            if r.random() < 0.4:
                h = r.choice([2.0, 3.0])
                if r.random() < 0.5:
                    shapes.append(["circle", x + b / 2, d / 2, h, "hole"])
                else:
                    shapes.append(["lines", [[x + b / 2, d / 2], [x + b / 2 + h, d / 2], [x + b / 2 + h, d / 2 + h], [x + b / 2, d / 2 + h]], "hole"])
        if r.random() < 0.2:
            # something small beside it: a bolt, a bar, a lug
            h = r.choice([0.1, 0.5, 1.0])
            shapes.append(["poly", [[x + 45.0, 0.0], [x + 45.0 + h, 0.0], [x + 45.0 + h, h], [x + 45.0, h]], "solid"])
        x += 60.0
    if r.random() < 0.2:
        shapes.append(["text"])
    if r.random() < 0.2:
        # a long drawing: text far before or after the shapes
        shapes[r.choice([0, len(shapes)]):0] = [["text"]] * r.choice([20, 60])
    if r.random() < 0.1:
        shapes.append(["open", [[x + 50.0, 0.0], [x + 60.0, 20.0]], "none"])
    if r.random() < 0.25:
        # drawn in metres or inches
        u = r.choice([0.001, 1 / 25.4])
        shapes = [[s[0], [[x * u, y * u] for x, y in s[1]], s[2]] if s[0] in ("lines", "poly", "open") else ["circle", s[1] * u, s[2] * u, s[3] * u, s[4]] if s[0] == "circle" else s for s in shapes]
    return {"kind": "dxf", "shapes": shapes}


def file_spec(r):
    """(extension, content)"""
    u = r.random()
    if u < 0.45:
        return "dxf", drawing(r)
    if u < 0.52:
        return "dxf", {"kind": "data", "name": "section_holes.dxf"}
    if u < 0.80:
        return "3dm", {"kind": "data", "name": r.choice(["3in x 2in.3dm", "complex_shape.3dm", "compound_shape.3dm", "compound_shape.3dm"])}
    ext = r.choice(["dxf", "3dm"])
    v = r.random()
    if v < 0.25:
        return ext, {"kind": "empty"}
    if v < 0.5:
        return ext, {"kind": "garbage", "n": r.choice([3, 200, 500])}
    if v < 0.7:
        return ext, {"kind": "directory"}
    if v < 0.85:
        return "dxf", {"kind": "dxf", "shapes": [["text"]] if r.random() < 0.6 else [["open", [[0.0, 0.0], [5.0, 5.0], [9.0, 1.0]], "none"]]}
    if ext == "dxf":
        return ext, {**drawing(r), "cut": r.choice([0.2, 0.5, 0.8, 0.97])}
    return ext, {"kind": "data", "name": "compound_shape.3dm", "cut": r.choice([0.1, 0.5, 0.9])}


SHAPELESS = ("empty", "garbage", "directory", "missing")


def must_fail(spec):
    if spec["kind"] in SHAPELESS:
        return True
    return spec["kind"] == "dxf" and not any(s[0] not in ("text", "open") for s in spec["shapes"])


class CHECK(Check):
    id = "C11"
    level = "fault_enumeration"
    quick_runs = 800
    thorough_runs = 6000
    rule = "a run is a history of 5-12 imports from files that are replaced, torn, emptied or unreadable in between, with one disk fault or interrupt per faulty import; counted distinct by (format, kind of content, fault operation, position class, argument form, outcome)"
    assumptions = ["a torn file (cut off on disk) may import or raise, but does so the same way every time", "read errors injected after the last byte that the reader needs do not fire and demand nothing"]
    stubs = ["the kernel's answer to the failing I/O call"]
    real = Check.real + ["ezdxf", "cad_to_shapely", "rhino3dm (C++)", "rhino_shapely_interop"]

    def plan(self, r, i, tier):
        ops = []
        paths = {}
        n = r.choice([5, 8, 12])
        while len([o for o in ops if o["op"] == "import"]) < n:
            if not paths or r.random() < 0.35:
                ext, spec = file_spec(r)
                same = [p for p in sorted(paths) if p.endswith(ext)]
                p = r.choice(same) if same and r.random() < 0.6 else f"f{len(paths)}.{ext}"
                if r.random() < 0.1:
                    p = f"f{len(paths)}.{r.choice(['DXF', 'txt', '3DM'])}"
                ops.append({"op": "write", "path": p, "spec": spec, "mtime": r.random() < 0.6})
                paths[p] = spec
            p = r.choice(sorted(paths))
            if r.random() < 0.05:
                p = "nowhere" + p
            via = "dxf" if ".dxf" in p.lower() or ".txt" in p else r.choice(["3dm", "c3dm", "c3dm"])
            op = {"op": "import", "path": p, "via": via, "form": r.choice(["str", "path", "rel"])}
            if via == "dxf" and r.random() < 0.4:
                op["kw"] = {r.choice(["degrees_per_segment", "spline_delta"]): r.choice([5.0, 0.5, 15.0])}
            elif via != "dxf" and r.random() < 0.3:
                op["kw"] = {"refine_num": r.choice([1, 3])}
            u = r.random() * (0.6 if via != "dxf" else 1.0)
            if via != "dxf" and u < 0.25:
                op["fault"] = {"op": "readcall", "frac": round(r.random(), 5), "err": "EIO", "persist": r.random() < 0.15}
            elif u < 0.3:
                # open errors, read errors anywhere, also at the very end
                op["fault"] = {"op": "read", "frac": r.choice([0.0, 0.02, 0.1, 0.3, 0.5, 0.7, 0.85, 0.9, 0.95, 0.99, 0.999]) if r.random() < 0.5 else round(r.random(), 4), "err": r.choice(["EIO", "EIO", "ESTALE", "EISDIR"]), "persist": r.random() < 0.5}
            elif u < 0.4:
                op["fault"] = {"op": "open", "n": r.choice([1, 1, 1, 2, 3, 4]), "err": r.choice(["EACCES", "EMFILE", "EIO", "ENOENT", "ENFILE"]), "persist": r.random() < 0.5}
            elif u < 0.45:
                op["fault"] = {"op": "close", "n": r.choice([1, 2, 3]), "err": "EIO"}
            elif u < 0.55:
                op["fault"] = {"op": "short_read", "n": r.choice([1, 13, 500, 4096])}
            elif u < 0.65:
                op["abort"] = r.randint(1, 60)
            ops.append(op)
            if r.random() < 0.08:
                ops.append({"op": "encoding", "bad": r.random() < 0.3})
            if r.random() < 0.15:
                ops.append({"op": "use"})
        return {"ops": ops}

    # -- one import
    @staticmethod
    def call(root, op):
        from sectionproperties.pre.geometry import CompoundGeometry, Geometry

        p = os.path.join(root, op["path"])
        if op["form"] == "path":
            p = pathlib.Path(p)
        elif op["form"] == "rel":
            p = op["path"]
        fn = {"dxf": Geometry.from_dxf, "3dm": Geometry.from_3dm, "c3dm": CompoundGeometry.from_3dm}[op["via"]]
        return fn(p, **op.get("kw", {}))

    @staticmethod
    def put(root, op):
        p = os.path.join(root, op["path"])
        if os.path.isdir(p):
            os.rmdir(p)
        if op["spec"]["kind"] == "directory":
            if os.path.exists(p):
                os.unlink(p)
            os.mkdir(p)
            return
        with open(p, "wb") as f:
            f.write(content(op["spec"]))
        if op["mtime"]:
            # replaced within the resolution of the file's time stamp
            os.utime(p, (1e9, 1e9))

    @staticmethod
    def tree(root):
        out = {}
        for d, _, fs in os.walk(root):
            for f in fs:
                p = os.path.join(d, f)
                st = os.stat(p)
                with open(p, "rb") as fh:
                    out[os.path.relpath(p, root)] = [canon.fp(fh.read()), st.st_mtime_ns, st.st_mode]
            out[os.path.relpath(d, root)] = "dir"
        return out

    def observe_import(self, root, op):
        import contextlib
        import io
        import logging

        logging.disable(logging.CRITICAL)
        fault = None
        if op.get("fault"):
            f = dict(op["fault"])
            if "frac" in f:
                p = os.path.join(root, op["path"])
                size = os.path.getsize(p) if os.path.isfile(p) else 0
                f["n"] = int(f.pop("frac") * size * (0.125 if f["op"] == "readcall" else 1.0 if op["via"] != "dxf" else 1.1)) + (f["op"] == "readcall")
            fault = f
        rec = ticks.Recorder(fire_at=op.get("abort", -1), exc=KeyboardInterrupt("injected"))
        with contextlib.redirect_stdout(io.StringIO()), storage.Disk(root, fault) as d:
            try:
                with rec:
                    g = self.call(root, op)
                out = {"val": world.geom_obs(g), "area": float(g.geom.area)}
            except BaseException as e:
                g = None
                out = {"exc": type(e).__name__}
        out["fired"] = bool(d.fired or rec.fired)
        self.last = g if g is not None else self.last
        return out

    def execute(self, plan):
        root = os.path.join(os.getcwd(), "disk")
        os.makedirs(root)
        os.chdir(root)
        specs = {}
        log = []
        self.last = None
        for op in plan["ops"]:
            if op["op"] == "write":
                self.put(root, op)
                specs[op["path"]] = op["spec"]
                log.append({})
            elif op["op"] == "import":
                before, fds = self.tree(root), storage.handles()
                e = self.observe_import(root, op)
                after = self.tree(root)
                e["touched"] = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
                e["leak"] = [os.path.basename(p) for p in storage.handles() if p not in fds]
                e["spec"] = specs.get(op["path"], {"kind": "missing"})
                log.append(e)
            elif op["op"] == "encoding":
                log.append(self.encoding(op["bad"]))
            elif op["op"] == "use":
                # the caller modifies and meshes what the import returned
                if self.last is not None:
                    try:
                        self.last.create_mesh(mesh_sizes=[self.last.calculate_area() / 20])
                        self.last.points[0] = (0.0, 0.0)
                        self.last.material = None
                    except Exception:
                        pass
                    self.last = None
                log.append({})
        os.chdir("/")
        return log

    @staticmethod
    def encoding(bad):
        from sectionproperties.pre.geometry import Geometry

        with open(os.path.join(DATA, "rhino_data.json")) as f:
            brep = json.load(f)
        text = brep if isinstance(brep, str) else json.dumps(brep)
        if bad:
            text = text[: len(text) // 2]
        try:
            return {"enc": world.geom_obs(Geometry.from_rhino_encoding(r3dm_brep=text))}
        except Exception as e:
            return {"exc": type(e).__name__}

    def prepare(self, seed, tier):
        self.servers = [servers.Server(f"other{i}", hashseed=str(77 + 4 * seed + i)) for i in range(4)]
        for s in self.servers:
            s.wait()

    def reference(self, key):
        # processes with another hash seed, as any other start of the interpreter would have
        k = int(hashlib.sha1(jkey(key).encode()).hexdigest(), 16)
        every = key.get("enc") or key["spec"]["kind"] == "data"
        first = None
        for i in range(4) if every else [k % 4] if k % 3 else []:
            res = servers.call(f"other{i}", "dst.checks.c11:elsewhere", key)
            if isinstance(res, dict) and "server_error" in res:
                if res["server_error"] == "timeout":
                    return pool.Crashed("timeout", "reference")
                continue
            d = None if first is None else canon.diff(res, first)
            if d:
                return {**first, "unstable": d}
            first = first or res
        return first or self.alone(key)

    def alone(self, key):
        root = os.path.join(os.getcwd(), "disk")
        os.makedirs(root)
        self.last = None
        if key.get("enc"):
            return self.encoding(key["bad"])
        if key["spec"]["kind"] != "missing":
            self.put(root, {"path": key["path"], "spec": key["spec"], "mtime": False})
        op = {"op": "import", "path": key["path"], "via": key["via"], "form": "str", **({"kw": key["kw"]} if key.get("kw") else {})}
        return self.observe_import(root, op)

    def key(self, op, e):
        return {"path": "f." + op["path"].split(".")[-1], "spec": e["spec"], "via": op["via"], "kw": op.get("kw")}

    def needs(self, plan, log):
        out = {}
        for op, e in zip(plan["ops"], log):
            k = self.key(op, e) if op["op"] == "import" else {"enc": True, "bad": op["bad"]} if op["op"] == "encoding" else None
            if k:
                out[jkey(k)] = k
        return out

    def judge(self, plan, log, refs):
        out = []
        for i, (op, e) in enumerate(zip(plan["ops"], log)):
            def bad(cls, text):
                out.append({"class": cls, "detail": f"op {i} {op} on {canon.short(e.get('spec'))}: {text}", "key": f"{cls}:{op.get('via')}"})

            if op["op"] == "encoding":
                d = canon.diff(e, refs[jkey({"enc": True, "bad": op["bad"]})])
                if d:
                    bad("encoding", d)
            if op["op"] != "import":
                continue
            ref = refs[jkey(self.key(op, e))]
            if ref.get("unstable"):
                bad("other-geometry", f"two processes import the same file differently: {ref['unstable']}")
            if e["touched"]:
                bad("file-modified", str(e["touched"]))
            if e["leak"]:
                bad("handle-leak", str(e["leak"]))
            f = op.get("fault", {})
            if "val" in e:
                if "val" not in ref:
                    bad("accepted", f"imported, but raises {ref.get('exc')} in a fresh process")
                else:
                    d = canon.diff(e["val"], ref["val"])
                    if d:
                        bad("other-geometry", d)
                if must_fail(e["spec"]):
                    bad("accepted", "a file without shapes was imported")
                m = model(e["spec"]) if "cut" not in e["spec"] else None
                if m:
                    n = len(e["val"]["parts"])
                    a = e["area"]
                    if n != m[0] or abs(a - m[1]) > 0.03 * m[1]:
                        bad("incomplete", f"{n} regions of area {a} instead of {m}")
                if e["fired"] and f.get("op") in ("read", "open") and op["via"] == "dxf" and f["op"] == "open" and f["n"] == 1:
                    bad("not-reported", "the file could not be opened")
            elif not e["fired"] or f.get("op") == "short_read":
                if "val" in ref:
                    bad("spurious-failure", e["exc"])
        return out

    def smaller(self, plan, log, viol):
        yield from drop_ops(plan)
        for i, op in enumerate(plan["ops"]):
            for k in ("kw", "fault", "abort"):
                if k in op:
                    yield {**plan, "ops": plan["ops"][:i] + [{a: b for a, b in op.items() if a != k}] + plan["ops"][i + 1 :]}

    def states(self, plan, log):
        out = []
        for op, e in zip(plan["ops"], log):
            if op["op"] == "import":
                f = op.get("fault")
                pos = None if not f else round(f["frac"], 1) if "frac" in f else f.get("n")
                out.append(canon.fp([op["via"], e["spec"]["kind"], e["spec"].get("name"), "cut" in e["spec"], f and [f["op"], f.get("err")], pos, "abort" in op, op["form"], e.get("exc"), e["fired"]]))
        return out

    def account(self, st, plan, log):
        for op, e in zip(plan["ops"], log):
            if op["op"] == "import":
                st["branches"] += 1
                st["imports:" + op["via"]] += 1
                if e["fired"]:
                    st["fault:" + (op["fault"]["op"] + "_" + op["fault"].get("err", "") if op.get("fault") else "interrupt")] += 1
                if e["spec"]["kind"] in SHAPELESS or "cut" in e["spec"]:
                    st["fault:file_" + ("torn" if "cut" in e["spec"] else e["spec"]["kind"])] += 1
                st["probe:imported" if "val" in e else "probe:raised_" + e["exc"]] += 1
            elif op["op"] == "write":
                st["files_written"] += 1


def elsewhere(key):
    """A reference, in a process that a server forked."""
    return CHECK().alone(key)
