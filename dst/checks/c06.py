"""C06: analyses of different sections in different threads do not interfere."""
from .. import exprs, gen, sched
from .threads import ThreadCheck


class CHECK(ThreadCheck):
    id = "C06"
    quick_runs = 240
    thorough_runs = 5000
    rule = "a run is one schedule of 2-3 threads, each building and analysing its own sections; distinct by the sequence of preemptions (function, line or instruction, from, to)"
    assumptions = ["calls into C code are atomic (they run without a switch)", "output to the terminal and pyplot, which are process-wide by design, are not used from the threads"]

    def plan(self, r, i, tier):
        fam = exprs.family(r, r.choice([2, 2, 3]), "special" if r.random() < 0.15 else "any")
        acts = [gen.action(r) for _ in range(2)]
        base = gen.Hist(r, fam, acts=acts, ti=False)
        shared = [base.geo(s) for s in fam[: r.choice([1, 2])]] if r.random() < 0.7 else []
        n = r.choice([2, 2, 2, 3])
        threads = []
        twin = r.random() < 0.4  # all threads do the same work at the same time
        exports = r.choice([0, 0, 0, 0, 1, 2])
        seed = r.random()
        for t in range(n):
            from .. import rng

            q = rng.make(seed, 0 if twin else t)
            h = gen.Hist(q, [fam[t % len(fam)]] if not twin else [fam[0]], acts=acts, ti=False)
            h.g.update({g: dict(base.g[g]) for g in shared})
            h.n = 100 * (t + 1)
            own = h.imported() if q.random() < 0.15 else None
            s = h.section(q.choice(shared) if shared and q.random() < 0.6 else own if own in h.g else h.geo())
            for _ in range(q.choice([1, 2, 3])):
                kd = q.choice(["geometric", "warping", "warping", "plastic", "frame"])
                h.analyse(s, kd, "cgs" if q.random() < 0.2 and kd in ("warping", "frame") else "direct")
            h.add({"op": "q", "s": s})
            for _ in range(q.choice([0, 1, 2])):
                k = q.choice(["stress", "pts", "fibre", "gquery", "derived", "qmesh", "sq"])
                if k in ("stress", "pts", "sq"):
                    h.step(k)
                elif k == "fibre":
                    h.add(h.fibre_op(s))
                elif k == "qmesh":
                    h.add({"op": "qmesh", "s": s})
                elif k == "derived":
                    h.derived()
                else:
                    h.step(k)
            if exports:
                # each writes to files of its own
                for _ in range(exports):
                    h.add({**h.fibre_op(s), "save": True})
            threads.append(h.ops)
        plan = {"base": base.ops, "threads": threads, "policy": sched.random_policy(r), "seed": r.randrange(1 << 30)}
        if r.random() < 0.45:
            plan["interrupt"] = sched.random_interrupt(r, n)
        f = gen.Hist(r, fam, acts=acts, ti=False)
        f.n = 900
        f.g.update({g: dict(base.g[g]) for g in shared})
        if shared and r.random() < 0.5:
            plan["after"] = [{"op": "gobs", "g": shared[0]}]
        return plan
