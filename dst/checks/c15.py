"""C15: results are available exactly when their analysis has completed.

Histories of analyses in any order, with missing prerequisites, wrong options, failing
solvers and interrupts, checked after every call against a model of availability written
from the documentation, and in value against a fresh process.
"""
from .. import backends, canon, exprs, gen, pool, ticks, world
from ..engine import Check, jkey
from . import aborts
from .c01 import drop_ops

# analysis that provides a query: G geometric, W warping, P plastic, F frame as well
PLAIN = {
    "area": "GF", "perimeter": "G", "q": "GF", "ig": "GF", "c": "GF", "ic": "GF", "z": "G", "rc": "G", "ip": "G", "phi": "GF", "zp": "G", "rp": "G",
    "j": "WF", "sc": "W", "sc_p": "W", "sc_t": "W", "gamma": "W", "as": "W", "as_p": "W", "beta": "W", "beta_p": "W",
    "pc": "P", "pc_p": "P", "s": "P", "sp": "P", "sf": "P", "sf_p": "P",
}
COMPOSITE = {
    "area": "GF", "perimeter": "G", "mass": "G", "ea": "GF", "eq": "GF", "eig": "GF", "c": "GF", "eic": "GF", "ez": "G", "my": "G", "rc": "G", "eip": "G", "phi": "GF",
    "ezp": "G", "my_p": "G", "rp": "G", "nu_eff": "G", "e_eff": "G", "g_eff": "G",
    "ej": "WF", "sc": "W", "sc_p": "W", "sc_t": "W", "egamma": "W", "eas": "W", "eas_p": "W", "beta": "W", "beta_p": "W",
    "pc": "P", "pc_p": "P", "mp": "P", "mp_p": "P", "sf": "P", "sf_p": "P",
}
LETTER = {"geometric": "G", "warping": "W", "plastic": "P", "frame": "F"}
TORSION = {"vx", "vy", "mzz"}


def composite(e):
    """Whether the user gave any region a material."""
    if isinstance(e, list):
        return any(composite(x) for x in e)
    if isinstance(e, dict):
        return any(composite(x) for x in e.values())
    return isinstance(e, str) and e.rstrip("!") in exprs.MATS


class Model:
    def __init__(self, comp):
        self.table = COMPOSITE if comp else PLAIN
        self.comp = comp
        self.done = set()
        self.unsure = set()  # plastic analysis before a geometric one: not specified

    def copy(self):
        m = Model(self.comp)
        m.done, m.unsure = set(self.done), set(self.unsure)
        return m

    def may(self, kind):
        """Whether an analysis may run: True, False or None (not specified)."""
        if kind in ("geometric", "frame"):
            return True
        if "G" in self.done:
            return True
        return None if kind == "plastic" and "F" in self.done else False

    def complete(self, kind):
        k = LETTER[kind]
        if kind == "plastic" and "G" not in self.done:
            self.unsure |= {"sf", "sf_p"}
        elif kind == "plastic":
            self.unsure = set()
        self.done.add(k)

    def available(self, q):
        """True, False or None (not specified) for query get_<q>."""
        if q in self.unsure:
            return None
        return bool(set(self.table.get(q, "")) & self.done)

    def stress(self, act):
        if "G" not in self.done:
            return False
        return "W" in self.done if any(act.get(k) for k in TORSION) else True


class CHECK(Check):
    id = "C15"
    quick_runs = 420
    thorough_runs = 12000
    rule = "a run is a history of analyses, rejected calls, failures and queries on sections that share objects; distinct by the sequence of (call, availability before it, fault, outcome)"
    assumptions = ["what each analysis provides is taken from the lists of the documentation; a plastic analysis after a frame analysis alone is not specified there and is not judged beyond its completion", "values agree within 1e-6 relative"]

    def plan(self, r, i, tier):
        fam = exprs.family(r, r.choice([1, 2, 2]))
        if r.random() < 0.1:
            fam[0] = exprs.centred(r)
        h = gen.Hist(r, fam)
        g = h.geo(fam[0])
        secs = [h.section(g)]
        if r.random() < 0.6:
            secs.append(h.section(g if r.random() < 0.5 else h.geo()))
        n = r.choice([5, 8, 12])
        for _ in range(n):
            s = r.choice(secs)
            u = r.random()
            if u < 0.62:
                op = {"op": "an", "s": s, "kind": r.choice(["geometric", "geometric", "warping", "warping", "plastic", "plastic", "frame"])}
                if op["kind"] in ("warping", "frame") and r.random() < 0.2:
                    op["solver"] = "cgs"
                v = r.random()
                if v < 0.2:
                    op["abort"] = {"at": r.random(), "exc": r.choice(["interrupt", "memory"])}
                elif v < 0.35:
                    op["fail"] = {"at": r.random(), "n": r.randrange(1 << 20)}
            elif u < 0.7:
                op = {"op": "bad", "what": r.choice(["solver", "solver_frame", "stress_kw", "fibre"]), "o": s}
            elif u < 0.85:
                op = {"op": "stress", "s": s, "out": h.name("p"), "act": gen.action(r)}
            elif u < 0.92:
                op = {"op": "pts", "s": s, "act": gen.action(r), "pts": [["c", r.randrange(60)]]}
            elif u < 0.95:
                op = {"op": "secplot", "s": s, "fn": "plot_warping_function", "mode": "norender"}
            elif u < 0.98:
                op = {"op": "disp", "s": s, "fn": r.choice(["display_transformed_results", "display_results"])}
            else:
                op = {"op": "copy", "src": s, "out": h.name("s"), "how": r.choice(["pickle", "deepcopy"])}
                secs.append(op["out"])
            h.add(op)
        return {"ops": h.ops}

    def execute(self, plan):
        w = world.World(files=self.files())
        log = []
        for op in plan["ops"]:
            log.append(self.one(w, op))
        return log

    def one(self, w, op):
        if w.missing(op):
            return {"obs": {"skip": True}, "key": None}
        s = op.get("s") or (op.get("o") if op["op"] == "bad" else None)
        e = {"key": None}
        clean = {k: v for k, v in op.items() if k not in ("fail", "abort")}
        if op["op"] in ("an", "stress", "pts") and "e" not in op:
            e["key"] = world.ref_key(clean, w.prov)
        before = {n: world.props_fp(w.slots[n]) for n in sorted(w.slots) if w.prov[n]["t"] == "s"}
        if "abort" in op or "fail" in op:
            def probe(_):
                with ticks.Recorder() as rec, backends.Faults() as f:
                    w.do(clean)
                return rec.ticks, f.calls

            n = pool.run_forked(probe, None, 60)
            n, calls = (1, []) if isinstance(n, pool.Crashed) else n
        if "abort" in op:
            with ticks.Recorder(fire_at=1 + int(op["abort"]["at"] * n), exc=aborts.EXC[op["abort"]["exc"]]()) as rec:
                try:
                    e["obs"] = w.do(clean)
                except BaseException as x:
                    e["obs"] = {"exc": type(x).__name__}
            e["fired"] = rec.fired
        elif "fail" in op and calls:
            seam, k = calls[int(op["fail"]["at"] * len(calls))]
            hows = [x for x in backends.kinds_for(seam) if x[0].startswith("raise") or x[0] in ("info", "noconv")]
            with backends.Faults([seam, k, hows[op["fail"]["n"] % len(hows)]]) as f:
                e["obs"] = w.do(clean)
            e["fired"] = f.fired
        else:
            e["obs"] = w.do(clean)
        e["touched"] = [n for n in sorted(before) if n in w.slots and world.props_fp(w.slots[n]) != before[n]]
        if op["op"] == "an" and "exc" in e["obs"] and e.get("fired") and s in e["touched"]:
            # interrupted after its last step; judged as completed
            e["late"] = True
            p = w.prov[s]
            w.prov[s] = {**p, "done": p["done"] + [[op["kind"], op.get("solver", "direct")]]}
        e["get"] = {n: world.section_obs(w.slots[n]) for n in sorted(w.slots) if w.prov[n]["t"] == "s" and (n == s or op["op"] in ("copy", "section"))}
        e["qkey"] = {n: world.ref_key({"op": "q", "s": n}, w.prov) for n in e["get"]}
        return e

    def needs(self, plan, log):
        out = {}
        for e in log:
            if e.get("key"):
                out[jkey(e["key"])] = e["key"]
            for k in e.get("qkey", {}).values():
                out[jkey(k)] = k
        return out

    def judge(self, plan, log, refs):
        out = []
        models = {}
        exprs_of = {}
        of_section = {}
        for i, (op, e) in enumerate(zip(plan["ops"], log)):
            if e["obs"].get("skip"):
                continue

            def bad(cls, text):
                out.append({"class": cls, "detail": f"op {i} {canon.short(op)} [{e.get('fired')}]: {text}", "key": cls})

            obs = e["obs"]
            ok = "exc" not in obs
            s = op.get("s") or op.get("o")
            m = models.get(s)
            allowed = set()
            if op["op"] == "geo":
                exprs_of[op["out"]] = op["e"]
            elif op["op"] == "section":
                models[op["out"]] = Model(composite(exprs_of[op["g"]]))
            elif op["op"] == "copy":
                models[op["out"]] = models[op["src"]].copy()
            elif op["op"] == "an":
                may = m.may(op["kind"])
                if ok and may is False:
                    bad("prerequisite-ignored", f"{op['kind']} ran with {sorted(m.done)}")
                elif not ok and may is True and not e.get("fired") and op.get("solver") != "cgs":
                    bad("refused", f"{op['kind']} with {sorted(m.done)}: {obs}")
                if ok or e.get("late"):
                    m.complete(op["kind"])
                    allowed = {s}
            elif op["op"] in ("stress", "pts"):
                may = m.stress(op["act"])
                if ok and not may:
                    bad("prerequisite-ignored", f"stress {op['act']} ran with {sorted(m.done)}")
                elif not ok and may:
                    bad("refused", f"stress {op['act']} with {sorted(m.done)}: {obs}")
            elif op["op"] == "bad":
                if ok:
                    bad("rejected-call-accepted", op["what"])
            elif op["op"] == "secplot":
                if ok != bool(m.done & {"W", "F"}):
                    bad("plot-availability", f"with {sorted(m.done)}: {obs.get('exc')}")
            elif op["op"] == "disp":
                if ok != (op["fn"] == "display_results" or m.comp):
                    bad("display-availability", f"with {sorted(m.done)}: {obs.get('exc')}")
            extra = set(e["touched"]) - allowed
            if extra:
                bad("side-effect", f"results of {sorted(extra)} changed")
            for n, so in e["get"].items():
                if so["composite"] != models[n].comp:
                    bad("composite", f"{n}: {so['composite']}")
                for g, v in so["get"].items():
                    q = g[4:].split("/")[0]
                    if q in ("e_ref",):
                        continue
                    raised = isinstance(v, dict) and "exc" in v
                    want = models[n].available(q)
                    if want is None:
                        continue
                    if want and raised:
                        bad("not-available", f"{n}.{g} raises {v['exc']} with {sorted(models[n].done)}")
                    elif want and not canon.plain_numbers(v):
                        bad("no-value", f"{n}.{g} returned {v}")
                    elif not want and not raised:
                        bad("available-too-early", f"{n}.{g} returned {v} with {sorted(models[n].done)}")
                d = canon.diff({"val": so}, {"val": refs[jkey(e["qkey"][n])]["val"]})
                if d:
                    bad("value", f"{n}{d}")
            if e["key"] and not e.get("fired"):
                d = canon.diff(obs, refs[jkey(e["key"])])
                if d:
                    bad("differs", d)
        return out

    def smaller(self, plan, log, viol):
        yield from drop_ops(plan)
        for i, op in enumerate(plan["ops"]):
            for k in ("fail", "abort", "ti", "solver"):
                if op.get(k):
                    yield {**plan, "ops": plan["ops"][:i] + [{a: b for a, b in op.items() if a != k}] + plan["ops"][i + 1 :]}

    def states(self, plan, log):
        return [canon.fp([[op["op"], op.get("kind"), op.get("what"), (e.get("fired") or [None])[:1], e["obs"].get("exc"), sorted(k for so in e.get("get", {}).values() for k, v in so["get"].items() if not (isinstance(v, dict) and "exc" in v))] for op, e in zip(plan["ops"], log)])]

    def account(self, st, plan, log):
        for op, e in zip(plan["ops"], log):
            st["op:" + op["op"]] += 1
            if e.get("fired"):
                st["fault:" + (op["abort"]["exc"] if "abort" in op else "backend_failure")] += 1
            if "exc" in e["obs"] and not e.get("fired"):
                st["probe:rejected_" + op["op"]] += 1
            if e.get("late"):
                st["probe:aborted_after_commit"] += 1
            st["queries"] += sum(len(x["get"]) for x in e.get("get", {}).values())
