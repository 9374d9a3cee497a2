"""C01: results never depend on what the process computed before.

One simulated process performs a long history over families of near-colliding
cross-sections; every observation is compared with the one of the shortest program that
supplies the same inputs in a fresh process.
"""
import hashlib

from .. import canon, exprs, gen, pool, rng, servers, world
from ..engine import Check, jkey

NOCMP = ("del", "copy")


def drop_ops(plan, key="ops"):
    """Candidates with ops removed: halves, quarters, single ones."""
    ops = plan[key]
    n = len(ops)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            rest = ops[:i] + ops[i + size :]
            if rest:
                yield {**plan, key: rest}
        size //= 2


def at(e, slot):
    """The expression with its place-holder put to a slot."""
    if isinstance(e, list):
        return [at(x, slot) for x in e]
    return slot if e == "#" else e


class CHECK(Check):
    id = "C01"
    quick_runs = 260
    thorough_runs = 6000
    rule = "a run is a seeded history of 10-26 operations over 2-4 near-colliding cross-sections; runs count as distinct when the sequence of observations differs; every run does at least one analysis"
    assumptions = ["values agree within 1e-6 relative (bit-identical on the unchanged tree)"]

    def reference(self, key):
        # every fifth program runs in a process with another hash seed, as any other start
        # of the interpreter would
        if int(hashlib.sha1(jkey(key).encode()).hexdigest(), 16) % 5 == 0:
            res = servers.call("other", "dst.world:run_reference", (key, self.files()), timeout=100)
            if not (isinstance(res, dict) and "server_error" in res):
                return res
            if res["server_error"] == "timeout":
                return pool.Crashed("timeout", "reference")
        return super().reference(key)

    def prepare(self, seed, tier):
        self.server = servers.Server("other", hashseed=str(1000 + seed))
        self.families = []
        n = 30 if tier == "quick" else 200
        for i in range(n):
            r = rng.make(seed, "C01", "family", i)
            fam = exprs.family(r, r.choice([2, 3, 4]))
            acts = [gen.action(r) for _ in range(2)]
            a = dict(acts[0])
            a[r.choice(sorted(a) or ["n"])] = 777.0
            self.families.append((fam, acts + [a]))

        self.server.wait()
        self.pairs = exprs.pairs(rng.make(seed, "C01", "pairs"), 48 if tier == "quick" else 300)

    def sweep(self, r, i):
        """Everything on one section, then on its near-twin, then perhaps on the first again."""
        pair = self.pairs[i % len(self.pairs)]
        h = gen.Hist(r, pair, acts=[gen.action(r)])
        share = r.choice([0.35, 0.6, 1.0])
        if r.random() < 0.4:
            # the first one is gone before the second is made
            a, b = gen.battery(h, pair[0], share)
            h.add({"op": "del", "slots": [a, b] + sorted(h.p)})
            h.p, h.s, h.g = {}, {}, {}
            gen.battery(h, pair[1], share)
        else:
            gen.battery(h, pair[0], share)
            gen.battery(h, pair[1], share)
        if r.random() < 0.25:
            gen.battery(h, pair[0], 0.4)
        return {"ops": h.ops}

    def drawing(self, r):
        """The same geometric operations on near-twins; no analyses."""
        h = gen.Hist(r, [])
        for _ in range(r.choice([1, 2, 3])):
            base = exprs.from_library(r, 3000) if r.random() < 0.35 else exprs.one_spec(r)
            fam = [base] + [exprs.twin(r, base, r.choice(["edge", "edge", "tweak", "shift", "mirror", "same", None, "param", "param"])) for _ in range(r.choice([1, 1, 2]))]
            if r.random() < 0.3:
                fam = exprs.same_rounding(r, r.choice([4, 6, 8]))
            gs = [h.geo(sp, mesh=False) for sp in fam]
            todo = [gen.derive(r, "#", "#") for _ in range(r.choice([1, 2, 3]))]
            pts = [[r.choice([10.0, 25.0, -5.0]), r.choice([5.0, 18.0])] for _ in range(2)]
            todo += [["split", ["$", "#"], p, v, r.choice(["top", "bot"])] for p in pts for v in ([1.0, 0.0], [0.0, 1.0], [1.0, 1.0]) if r.random() < 0.6]
            r.shuffle(todo)
            order = [(g, e) for g in gs for e in todo] if r.random() < 0.5 else [(g, e) for e in todo for g in gs]
            for g, e in order:
                out = h.name("g")
                h.add({"op": "geo", "out": out, "e": at(e, g), "mesh": None})
            for g in gs:
                h.add({"op": "gmethod", "g": g, "pt": pts[0], "vec": [1.0, 0.0]})
        return {"ops": h.ops}

    def plan(self, r, i, tier):
        if i % 8 == 6:
            return self.drawing(r)
        if i % 2:
            return self.sweep(r, i // 2)
        i //= 2
        fam, acts = self.families[i % len(self.families)]
        h = gen.Hist(r, fam, acts=acts)
        if r.random() < 0.25:
            # two families in one process
            fam2, _ = r.choice(self.families)
            h.specs = fam + fam2
        n = r.randrange(10, 27)
        mix = r.choice([None, None, ["import", "import", "derived", "section", "an", "gquery", "fibre"], ["an", "section", "stress", "q", "del"], ["stress", "pts", "sq", "splot", "an", "section"], ["derived", "gquery", "remesh", "section", "an", "fibre", "gplot"]])
        while len(h.ops) < n:
            h.step(r.choice(mix) if mix and r.random() < 0.8 else None)
        return {"ops": h.ops}

    def execute(self, plan):
        w = world.World(files=self.files())
        log = []
        for op in plan["ops"]:
            key = None
            if op["op"] not in NOCMP and not w.missing(op):
                key = world.ref_key(op, w.prov)
            log.append({"key": key, "obs": w.do(op)})
        return log

    def needs(self, plan, log):
        return {jkey(e["key"]): e["key"] for e in log if e["key"]}

    def judge(self, plan, log, refs):
        out = []
        for i, (op, e) in enumerate(zip(plan["ops"], log)):
            if not e["key"]:
                continue
            d = canon.diff(e["obs"], refs[jkey(e["key"])])
            if d:
                out.append({"class": f"differs:{op['op']}:{op.get('kind') or op.get('fn') or ''}", "detail": f"op {i} {canon.short(op)}: {d}", "key": f"{op['op']}"})
        return out

    def smaller(self, plan, log, viol):
        yield from drop_ops(plan)

    def states(self, plan, log):
        return [canon.fp([[o.get("val"), o.get("exc"), o.get("out")] for o in (e["obs"] for e in log)])]

    def account(self, st, plan, log):
        for op, e in zip(plan["ops"], log):
            st["op:" + op["op"]] += 1
            if "exc" in e["obs"]:
                st["probe:rejected_call"] += 1
            if op["op"] == "del":
                st["fault:object_discarded"] += 1
        st["compared"] += sum(1 for e in log if e["key"])
