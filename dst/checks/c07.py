"""C07: one analysed section can be read from many threads at once."""
from .. import exprs, gen, sched
from .threads import ThreadCheck


class CHECK(ThreadCheck):
    id = "C07"
    quick_runs = 350
    thorough_runs = 5000
    rule = "a run is one schedule of 2-4 threads that query one analysed section, in half of the runs with one thread that repeats its analyses; distinct by the sequence of preemptions (function, line or instruction, from, to)"
    assumptions = ["calls into C code are atomic (they run without a switch)", "at most one thread repeats analyses"]

    def plan(self, r, i, tier):
        fam = exprs.family(r, 1)
        acts = [gen.action(r) for _ in range(3)]
        base = gen.Hist(r, fam, acts=acts, ti=False)
        s = base.section(base.geo(fam[0]))
        # sometimes all threads read the same kind of thing, at the same few points
        focus = r.choice(["pts", "pts", "pts", "stress", "q", "fibre"]) if r.random() < 0.35 else None
        done = ["geometric", "warping"] if focus == "pts" else r.choice([["geometric"], ["geometric", "warping"], ["geometric", "warping"], ["geometric", "warping", "plastic"], ["frame"], ["geometric", "plastic"]])
        for k in done:
            base.analyse(s, k)
        p = base.stress(s, gen.action(r, "warping" in done)) if "geometric" in done else None
        fresh = p and r.random() < 0.6
        if fresh:
            base.ops[-1]["quiet"] = True
        n = r.choice([2, 2, 3, 4])
        threads = []
        writer = r.random() < 0.5
        common = None
        pool = [[r.choice("cccv"), r.randrange(60)] for _ in range(r.choice([2, 2, 3]))] if r.random() < (0.7 if focus else 0.3) else None
        for t in range(n):
            ops = []
            if writer and t == 0:
                ops = [{"op": "an", "s": s, "kind": r.choice(done)} for _ in range(r.choice([1, 2]))]
            else:
                for _ in range(r.choice([1, 2, 3])):
                    k = r.choice(["q", "stress", "stress", "stress", "pts", "pts", "sq", "fibre", "qmesh"] + ["sq"] * (5 if fresh else 0))
                    if k in ("stress", "pts") and "geometric" not in done:
                        k = "q"
                    k = focus or k
                    if k in ("stress", "pts") and "geometric" not in done:
                        k = "q"
                    act = {**gen.action(r, "warping" in done), **({"mzz": 3e5} if focus == "pts" else {})}
                    if k == "stress":
                        ops.append({"op": "stress", "s": s, "out": f"p{t}{len(ops)}", "act": act})
                        if r.random() < 0.4:
                            ops.append({"op": "sq", "p": ops[-1]["out"]})
                    elif k == "pts":
                        ops.append({"op": "pts", "s": s, "act": act, "pts": [list(r.choice(pool)) if pool else [r.choice("cccv"), r.randrange(60)] for _ in range(r.choice([3, 6]) if focus else r.choice([1, 3]))]})
                    elif k == "sq":
                        ops.append({"op": "sq", "p": p} if p else {"op": "q", "s": s})
                    elif k == "fibre":
                        ops.append(base.fibre_op(s))
                    else:
                        ops.append({"op": k, "s": s})
                if common is not None and r.random() < 0.4:
                    ops = [dict(o) for o in common]
                common = ops
            threads.append(ops)
        policy = sched.random_policy(r)
        if focus and r.random() < 0.6:
            # the threads meet again and again in the same few functions: many switches
            policy = r.choice([{"p": "walk", "q": 0.3}, {"p": "walk", "q": 0.1}, {"p": "first", "k": 4, "q": 0.5}, {"p": "stall", "k": 4, "q": 0.1}])
        plan = {"base": base.ops, "threads": threads, "policy": policy, "seed": r.randrange(1 << 30)}
        if r.random() < 0.25:
            plan["interrupt"] = sched.random_interrupt(r, n)
        plan["after"] = [{"op": "q", "s": s}] + ([{"op": "sq", "p": p}] if p else [])
        return plan
