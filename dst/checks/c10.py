"""C10: a fibre export is on disk what was returned, or an error; and it describes the mesh.

The export runs against a disk that the simulator controls (iofault.c): every sampled
fault hits one open, byte, close, sync or rename.  The text is parsed and compared, cell by
cell, with the mesh and the regions the user drew.
"""
import os
import re

import numpy as np

from .. import canon, exprs, gen, pool, rng, storage, world
from ..engine import Check, jkey
from .c01 import drop_ops
from .c05 import user_parts

OLD = ["none", "empty", "longer", "shorter", "binary", "symlink", "same", "samesize", "samesize"]


def old_content(kind, text):
    if kind == "longer":
        return (text + "# tail of an older export\n" * 400).encode()
    if kind == "shorter":
        return b"# old\nsection Cell2D 1 1.0 Old 0.0\n"
    if kind == "binary":
        return bytes(range(256)) * 300
    if kind == "samesize":
        # of another section, and as long to the byte
        return text.translate(str.maketrans("123456789", "987654321")).encode()
    if kind == "same":
        return text.encode()
    return b""


def check_text(text, obj, opts):
    """Compares an export with the mesh of the object; returns problems."""
    is_sec = type(obj).__name__ == "Section"
    geom = obj.geometry if is_sec else obj
    mesh = obj.mesh if is_sec else obj.mesh
    tag = opts.get("main_section_tag", 1)
    kind = opts.get("analysis_type", "3DOS").upper()
    verts = np.array(mesh["vertices"], dtype=float)
    tris = np.array(mesh["triangles"], dtype=int)
    body = re.sub(r"\\\n", "", text)
    lines = [ln for ln in body.split("\n") if ln.strip() and not ln.startswith("#")]
    if not lines:
        return ["the text has no content"]
    head = lines[0].split()
    out = []
    if head[:3] != ["section", f"Fibre{kind}", str(tag)]:
        out.append(f"main section line starts {' '.join(head[:3])!r}")
    want_tags = [str(i + 1 + tag) for i in range(len(tris))]
    if head[3:] != want_tags:
        out.append(f"main section lists {len(head) - 3} cells, mesh has {len(tris)} elements" if len(head) - 3 != len(tris) else "main section lists other cells")
    if len(lines) - 1 != len(tris):
        return out + [f"{len(lines) - 1} cells for {len(tris)} elements"]
    from shapely import Point, Polygon

    parts = user_parts(geom)
    mapping = opts.get("material_mapping") or {}
    tags = {"-".join(k.split()): str(v) for k, v in mapping.items()}
    total = 0.0
    per = {}
    overlapping = any(parts[i].geom.intersection(parts[j].geom).area > 1e-9 for i in range(len(parts)) for j in range(i))
    for i, (ln, tri) in enumerate(zip(lines[1:], tris)):
        t = ln.split()
        n = {"2D": 6, "3D": 7, "3DOS": 10}[kind]
        if len(t) != n or t[0] != "section" or t[1] != f"Cell{kind}" or t[2] != want_tags[i]:
            return out + [f"cell {i}: {ln[:80]!r}"]
        p = verts[tri[:3]]
        area = 0.5 * abs((p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[2][0] - p[0][0]) * (p[1][1] - p[0][1]))
        if abs(float(t[3]) - area) > 1e-6 * area:
            return out + [f"cell {i}: area {t[3]} instead of {area:.8e}"]
        c = p.mean(axis=0)
        sc = np.abs(verts).max()
        coords = {"2D": t[5:6], "3D": t[5:7], "3DOS": t[8:10]}[kind]
        for v, w in zip(coords, c):
            if abs(float(v) - w) > 1e-7 * sc:
                return out + [f"cell {i}: centroid {coords} instead of {c}"]
        mat = t[7] if kind == "3DOS" else t[4]
        hits = [g for g in parts if g.geom.contains(Point(float(c[0]), float(c[1])))]
        if len(hits) == 1 and not overlapping:
            name = "-".join(hits[0].material.name.split())
            want = tags.get(name, name)
            if mat != want:
                return out + [f"cell {i}: material {mat!r} instead of {want!r}"]
            per[id(hits[0])] = per.get(id(hits[0]), 0.0) + float(t[3])
        if kind == "3DOS" and not all(np.isfinite(float(x)) for x in t[4:7]):
            return out + [f"cell {i}: {ln[:80]!r}"]
        total += float(t[3])
    if not overlapping:
        area = sum(g.geom.area for g in parts)
        if abs(total - area) > 1e-5 * area:
            out.append(f"total area {total} instead of {area}")
        for g in parts:
            if abs(per.get(id(g), 0.0) - g.geom.area) > 1e-4 * g.geom.area:
                out.append(f"area of the region of {g.material.name}: {per.get(id(g), 0.0)} instead of {g.geom.area}")
    return out[:3]


class CHECK(Check):
    id = "C10"
    level = "fault_enumeration"
    quick_runs = 600
    thorough_runs = 5000
    branches = 12
    rule = "a branch is one export to a file during which the disk fails once in one way (or not at all), over one kind of old file content; distinct by (export kind, object kind, fault operation and error, position class, old content, outcome)"
    assumptions = ["the disk reports its failures; silently lost writes are outside what a program can see", "the material under an element is decided by the region polygon containing its centroid"]
    stubs = ["the kernel's answer to the failing I/O call"]

    def plan(self, r, i, tier):
        fam = exprs.family(r, 2, r.choice(["any", "compound"]))
        acts = [gen.action(r) for _ in range(2)]
        h = gen.Hist(r, fam, acts=acts)
        g = h.geo(fam[0])
        for _ in range(r.choice([0, 1, 2, 3, 4])):
            h.step(r.choice(["section", "an", "fibre", "remesh", "stress", "gplot", "derived", "bad"]))
        meshed = [k for k in sorted(h.g) if h.g[k]["meshed"]]
        o = r.choice(sorted(h.s)) if h.s and r.random() < 0.5 else r.choice(meshed)
        names = sorted({exprs.MATS[m][0] for m in exprs.materials_in(fam[0]["e"]) | exprs.materials_in(fam[1]["e"])} | {"default"})
        opts = {"analysis_type": r.choice(["2D", "3D", "3DOS", "3dos", "2d"])}
        if r.random() < 0.5:
            opts["main_section_tag"] = r.choice([1, 2, 7, 1000])
        if r.random() < 0.5:
            opts["max_width"] = r.choice([1, 30, 80, 160, 10000])
        if r.random() < 0.6:
            pick = r.sample(names, r.randint(1, len(names)))
            if r.random() < 0.5:
                pick += [x for x in ("Steel", "Mild Steel", "section", "Cell", "el", "2") if x not in pick][: r.choice([1, 2, 5])]
            r.shuffle(pick)
            opts["material_mapping"] = [[n, r.choice([1, 2, 3, 12, 404])] for n in pick]
        return {"ops": h.ops, "o": o, "opts": opts, "old": r.choice(OLD), "rng": ["C10", "at", r.random()]}

    @staticmethod
    def kw(plan):
        o = dict(plan["opts"])
        if "material_mapping" in o:
            o["material_mapping"] = dict(map(tuple, o["material_mapping"]))
        return o

    def execute(self, plan):
        from sectionproperties.post.fibre import to_fibre_section

        w = world.World(files=self.files())
        for op in plan["ops"]:
            w.do(op)
        if plan["o"] not in w.slots:
            return {"skip": True}
        obj = w.slots[plan["o"]]
        kw = self.kw(plan)
        log = {"branches": []}
        k = plan["opts"]
        rop = {"op": "fibre", "o": plan["o"], "type": k["analysis_type"]}
        for a, b in (("main_section_tag", "tag"), ("max_width", "width"), ("material_mapping", "map")):
            if a in k:
                rop[b] = k[a]
        log["key"] = world.ref_key(rop, w.prov)
        obs = w.do(rop)
        log["obs"] = obs
        if "val" not in obs:
            return log
        text = obs["val"]["text"]
        log["model"] = check_text(text, obj, kw)
        log["size"] = len(text)
        root = os.path.join(w.scratch, "disk")
        os.makedirs(root)
        old = old_content(plan["old"], text)

        def prepare(n):
            path = os.path.join(root, f"x{n}.txt")
            if plan["old"] == "symlink":
                real = os.path.join(root, f"real{n}")
                with open(real, "wb") as f:
                    f.write(b"old")
                os.symlink(real, path)
            elif plan["old"] != "none":
                with open(path, "wb") as f:
                    f.write(old)
            return path

        def export(path, fault):
            with storage.Disk(root, fault) as d:
                try:
                    ret = to_fibre_section(obj, save_to=path, **kw)
                    out = {"ret": True}
                except Exception as e:
                    out = {"exc": type(e).__name__}
                    ret = None
            out["fired"], out["stats"] = d.fired, d.stats
            if ret is not None:
                out["same_text"] = ret == text
                try:
                    with open(path, "rb") as f:
                        data = f.read()
                except OSError as e:
                    data = type(e).__name__.encode()
                out["file"] = "equal" if data == ret.encode("utf-8") else f"{len(data)} bytes instead of {len(ret.encode('utf-8'))}: {data[:40]!r}"
            return out

        def branch(arg):
            n, fault = arg
            path = prepare(n)
            out = export(path, fault)
            # the same export again on a healthy disk
            out["again"] = export(path, None)
            return out

        base = pool.run_forked(branch, (0, None), 60)
        if isinstance(base, pool.Crashed):
            return {"skip": True}
        base["at"] = None
        log["branches"].append(base)
        picks = plan.get("at")
        if picks is None:
            picks = storage.write_faults(rng.make(*plan["rng"]), base["stats"], plan.get("branches", self.branches))
        for n, f in enumerate(picks):
            res = pool.run_forked(branch, (n + 1, f), 60)
            if isinstance(res, pool.Crashed):
                res = {"crashed": repr(res)}
            res["at"] = f
            log["branches"].append(res)
        return log

    def needs(self, plan, log):
        return {jkey(log["key"]): log["key"]} if log.get("key") else {}

    def judge(self, plan, log, refs):
        out = []

        def bad(cls, text, at=None):
            out.append({"class": cls, "detail": f"export of {plan['o']} {plan['opts']} (old file: {plan['old']}): {text}", "key": cls, "at": at})

        if log.get("key"):
            d = canon.diff(log["obs"], refs[jkey(log["key"])])
            if d:
                bad("history", d)
        for p in log.get("model", []):
            bad("content", p)
        for b in log.get("branches", []):
            at = b["at"]
            if "crashed" in b:
                if "timeout" not in b["crashed"]:
                    bad("crash", f"{at}: {b['crashed']}", at)
                continue
            harmless = at is None or at["op"] in storage.HARMLESS
            if "ret" in b:
                if b["file"] != "equal":
                    bad("file-differs", f"fault {at}: file holds {b['file']}", at)
                if not b["same_text"]:
                    bad("text-differs", f"fault {at}: another text than without a file", at)
                if b["fired"] and not harmless:
                    bad("not-reported", f"fault {at}: the export returned normally", at)
            elif harmless or not b["fired"]:
                bad("spurious-failure", f"fault {at}: {b['exc']}", at)
            g = b["again"]
            if g.get("file") != "equal" or not g.get("same_text"):
                bad("retry", f"fault {at}, then again: {g.get('exc') or g.get('file')}", at)
        return out

    def concrete(self, plan, log, viol):
        return {**plan, "at": [viol["at"]]} if viol.get("at") else plan

    def smaller(self, plan, log, viol):
        yield from drop_ops(plan, "ops")
        for k in ("max_width", "main_section_tag", "material_mapping"):
            if k in plan["opts"]:
                yield {**plan, "opts": {a: b for a, b in plan["opts"].items() if a != k}}
        if plan["old"] != "none":
            yield {**plan, "old": "none"}

    def states(self, plan, log):
        out = []
        for b in log.get("branches", []):
            at = b["at"]
            if "crashed" in b:
                continue
            pos = None
            if at and at["op"] == "write":
                pos = "start" if at["n"] == 0 else "end" if at["n"] >= log["size"] - 1 else at["n"] // 4096
            out.append(canon.fp([plan["opts"]["analysis_type"].upper(), plan["o"][0], at and [at["op"], at.get("err"), at.get("persist")], pos, plan["old"], b.get("exc")]))
        return out

    def account(self, st, plan, log):
        for b in log.get("branches", []):
            st["branches"] += 1
            if b.get("at") and b.get("fired"):
                st[f"fault:{b['at']['op']}_{b['at'].get('err', '')}"] += 1
            if b.get("exc"):
                st["probe:reported_" + b["exc"]] += 1
        st["texts_parsed"] += "model" in log
        st["bytes_exported"] += log.get("size", 0)
        st["old:" + plan["old"]] += 1

    def sample(self, plan, log):
        return {"plan": plan, "branches": [[b["at"], b.get("exc", "returned")] for b in log.get("branches", [])]}
