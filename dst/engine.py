"""Driver: seeded plans -> simulated runs in forked children -> oracle -> minimised replay.

A check supplies
    id, technique facts         (attributes)
    plan(rng, i, tier)          one plan: plain JSON data, a pure function of the PRNG
    execute(plan)               runs in a fresh forked child, returns a picklable log
    needs(plan, log)            {key: reference program} whose results the oracle needs
    judge(plan, log, refs)      list of violations: {"class", "detail", "key"}
    smaller(plan, log, viol)    candidate plans, simplest first, for minimisation
    account(stats, plan, log)   adds what the run covered to a Counter-like dict
"""
import collections
import hashlib
import json
import os
import subprocess
import sys
import time
import traceback

from . import boot, canon, gen, pool, rng, ticks, world

RUN_TIMEOUT = 120.0


def jkey(k):
    return json.dumps(k, sort_keys=True, default=str)


class Batch:
    """Evaluates plans on a worker pool; references are computed once per distinct program."""

    def __init__(self, check, workers=None):
        self.check = check
        self.pool = pool.Pool(workers)
        self.refs = {}
        self.runs = 0
        self.ref_runs = 0
        self.inconclusive = 0

    def evaluate(self, plans, stop=None, deadline=None, on_result=None):
        """plans: iterable. Returns [(plan, log, violations)], in completion order."""
        it = iter(plans)
        waiting = {}  # plan no -> [plan, log, missing keys]
        users = collections.defaultdict(list)
        out = []
        state = {"n": 0, "open": 0, "done": False}

        def feed():
            while not state["done"] and state["open"] < 3 * self.pool.workers:
                if (deadline and time.monotonic() > deadline) or (stop and stop()):
                    state["done"] = True
                    return
                try:
                    p = next(it)
                except StopIteration:
                    state["done"] = True
                    return
                n = state["n"]
                state["n"] += 1
                state["open"] += 1
                waiting[n] = [p, None, None, ()]
                self.pool.submit(("run", n), self.check.execute, p, RUN_TIMEOUT)

        def finish(n, keys):
            p, log, _, _ = waiting.pop(n)
            gone = [self.refs[x] for x in keys if isinstance(self.refs[x], pool.Crashed)]
            bad_ref = any(c.kind == "timeout" for c in gone)
            crashed_ref = next((c for c in gone if c.kind != "timeout"), None)
            state["open"] -= 1
            if (isinstance(log, pool.Crashed) and log.kind == "timeout") or bad_ref:
                self.inconclusive += 1
                log, v = pool.Crashed("timeout", ""), []
            elif crashed_ref is not None:
                v = [{"class": "crash:" + crashed_ref.kind, "detail": "in a fresh process: " + crashed_ref.detail, "key": "crash:" + crashed_ref.kind}]
            elif isinstance(log, pool.Crashed):
                v = [{"class": "crash:" + log.kind, "detail": log.detail, "key": "crash:" + log.kind}]
            else:
                v = self.check.judge(p, log, self.refs)
            self.runs += 1
            item = (p, log, v)
            if on_result:
                on_result(*item)
            out.append(item)

        feed()
        while self.pool.pending() or not state["done"]:
            for key, res in self.pool.results():
                if key[0] == "run":
                    n = key[1]
                    w = waiting[n]
                    w[1] = res
                    need = {} if isinstance(res, pool.Crashed) else self.check.needs(w[0], res)
                    miss = {k: v for k, v in need.items() if k not in self.refs}
                    w[2] = set(miss)
                    w[3] = set(need)
                    if not miss:
                        finish(n, need)
                    for k, v in miss.items():
                        if k not in users:
                            self.pool.submit(("ref", k), self.check.reference, v, RUN_TIMEOUT, front=True)
                        users[k].append(n)
                else:
                    k = key[1]
                    self.refs[k] = res
                    self.ref_runs += 1
                    for n in users.pop(k, []):
                        w = waiting[n]
                        w[2].discard(k)
                        if not w[2]:
                            finish(n, w[3])
                feed()
            feed()
        return out


class Check:
    id = ""
    level = "exploration"
    jit = False
    block = ()
    quick_runs = 100
    thorough_runs = 1000
    quick_cap = 330.0
    thorough_cap = 3000.0
    rule = ""
    real = ["sectionproperties (all modules)", "numpy", "scipy", "shapely", "cytriangle", "matplotlib (agg)", "rich", "pypardiso/MKL"]
    stubs = []
    assumptions = []

    def files(self):
        """Drawings that the histories may import."""
        return {k: os.path.join(boot.VERIF, "dst", "data", v) for k, v in gen.FILES.items()}

    def reference(self, key):
        return world.run_reference((key, self.files()))

    def needs(self, plan, log):
        return {}

    def smaller(self, plan, log, viol):
        return []

    def account(self, st, plan, log):
        pass

    def sample(self, plan, log):
        return plan


def known_findings(pid):
    path = os.path.join(boot.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e["key"]: e for e in data.get("findings", []) if e["property"] == pid}


def digest(x):
    """Exact fingerprint of a log, for determinism checks."""
    return canon.fp(x)


def minimise(check, batch, plan, log, viol, budget):
    """Greedy: takes the first smaller plan with the same violation class, repeats."""
    end = time.monotonic() + budget
    steps = 0
    cls = viol["class"]
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        cands = list(check.smaller(plan, log, viol))
        k = 0
        while k < len(cands) and time.monotonic() < end:
            group = cands[k : k + batch.pool.workers]
            k += len(group)
            res = batch.evaluate(group)
            order = {jkey(p): i for i, p in enumerate(group)}
            res.sort(key=lambda r: order[jkey(r[0])])
            for p, lg, vs in res:
                steps += 1
                same = [v for v in vs if v["class"] == cls]
                if same:
                    plan, log, viol = check.concrete(p, lg, same[0]) if hasattr(check, "concrete") else p, lg, same[0]
                    improved = True
                    break
            if improved:
                break
    return plan, log, viol, steps


def main_check(check, tier, seed):
    t0 = time.monotonic()
    boot.import_all(check.block)
    ticks.codes()
    if hasattr(check, "prepare"):
        check.prepare(seed, tier)
    import gc

    gc.collect()
    gc.freeze()
    t_setup = time.monotonic() - t0
    n = check.quick_runs if tier == "quick" else check.thorough_runs
    n = int(os.environ.get("DST_RUNS", n))
    cap = check.quick_cap if tier == "quick" else check.thorough_cap
    cap = float(os.environ.get("DST_CAP", cap))
    deadline = t0 + cap
    known = known_findings(check.id)
    st = collections.Counter()
    seen = set()
    samples = []
    bad = []
    hits_known = {}

    def plans():
        for i in range(n):
            yield check.plan(rng.make(seed, check.id, i), i, tier)

    def on_result(p, log, vs):
        for v in vs:
            if v["key"] in known:
                hits_known.setdefault(v["key"], v)
            else:
                bad.append((p, log, v))
        if isinstance(log, pool.Crashed):
            return
        keys = check.states(p, log) if hasattr(check, "states") else [digest(log)]
        seen.update(keys)
        check.account(st, p, log)
        if len(samples) < 3:
            samples.append(check.sample(p, log))

    batch = Batch(check)
    done = batch.evaluate(plans(), stop=lambda: bool(bad), deadline=deadline, on_result=on_result)
    t_run = time.monotonic() - t0 - t_setup

    # determinism: the first plans again, the logs have to be bit-identical
    redo = 0
    mismatch = 0
    if not bad:
        first = [d for d in done if not isinstance(d[1], pool.Crashed)][: 6 if tier == "quick" else 40]
        again = Batch(check)
        stable = getattr(check, "stable", lambda lg: lg)  # without measurements of the real machine
        want = {jkey(p): digest(stable(lg)) for p, lg, _ in first}
        for p, lg, _ in again.evaluate([p for p, _, _ in first]):
            redo += 1
            if digest(stable(lg)) != want[jkey(p)]:
                mismatch += 1

    rc = 0
    for k, v in sorted(hits_known.items()):
        print(f"KNOWN-FINDING: property={check.id} {known[k]['what']}")
    if bad:
        rc = report(check, batch, bad, seed, tier)
    wall = time.monotonic() - t0
    faults = {k[6:]: v for k, v in sorted(st.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(st.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(st.items()) if not k.startswith(("fault:", "probe:"))}
    cov = {
        "evaluations": batch.runs + int(st.get("branches", 0)),
        "distinct_nontrivial": len(seen),
        "rule": check.rule,
        "samples": json.loads(json.dumps(samples, default=str)),
        "simulated_runs": batch.runs,
        "reference_runs": batch.ref_runs,
        "runs_per_hour": round(3600 * (batch.runs + st.get("branches", 0)) / max(t_run, 1e-3)),
        "seeds": len(done),
        "seeds_per_hour": round(3600 * len(done) / max(t_run, 1e-3)),
        "faults_fired": faults,
        "probes": probes,
        "counts": other,
        "planned_runs": n,
        "inconclusive_runs": batch.inconclusive,
        "stopped_by_wall_cap": len(done) < n and not bad,
        "determinism_reruns": redo,
        "determinism_mismatches": mismatch,
        "real_components": check.real,
        "stubbed_components": check.stubs,
        "python_hash_seed": os.environ.get("PYTHONHASHSEED"),
    }
    ev = {"property": check.id, "tier": tier, "seed": seed, "level": check.level, "coverage": cov, "assumptions": check.assumptions, "wall_s": round(wall, 2), "violations": 1 if rc == 1 else 0}
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    if not os.environ.get("DST_NO_EVIDENCE"):
        with open(os.path.join(boot.VERIF, "evidence", check.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
    print(f"{check.id}: seed={seed} runs={batch.runs} branches={st.get('branches', 0)} refs={batch.ref_runs} distinct={len(seen)} wall={wall:.1f}s faults={sum(faults.values())} determinism={redo}/{mismatch} rc={rc}")
    if mismatch and not bad:
        print(f"warning: {mismatch} of {redo} repeated runs differed", file=sys.stderr)
    return rc


def report(check, batch, bad, seed, tier):
    plan, log, viol = bad[0]
    # must fail again in another process of the same image
    for p, lg, v in bad[:4]:
        res = batch.evaluate([p])
        again = [x for x in res[0][2] if x["class"] == v["class"]]
        if again:
            plan, log, viol = p, res[0][1], again[0]
            if hasattr(check, "concrete"):
                plan = check.concrete(plan, log, viol)
            break
    else:
        print(f"violation of {check.id} seen once but not reproduced: {viol['class']}: {viol['detail']}", file=sys.stderr)
        return 2
    orig = plan
    plan, log, viol, steps = minimise(check, batch, plan, log, viol, 90 if tier == "quick" else 300)
    os.makedirs(os.path.join(boot.VERIF, "replays"), exist_ok=True)
    tag = hashlib.sha1((viol["class"] + jkey(plan)).encode()).hexdigest()[:10]
    path = os.path.join(boot.VERIF, "replays", f"{check.id}-{tag}.json")
    confirmed = None
    for cand in (plan, orig):
        doc = {"property": check.id, "seed": seed, "class": viol["class"], "detail": viol["detail"], "key": viol["key"], "shrink_steps": steps, "plan": cand}
        with open(path, "w") as f:
            json.dump(doc, f, indent=1, default=str)
            f.write("\n")
        r = subprocess.run(["/usr/bin/env", "python3", os.path.join(boot.VERIF, "dst", "main.py"), "replay", path], env={k: v for k, v in os.environ.items() if k not in ("DST_BOOTED", "DST_SCRATCH", "DST_JIT", "LD_PRELOAD", "DST_IOFAULT")}, capture_output=True, text=True, timeout=400)
        if r.returncode == 1:
            confirmed = True
            break
        confirmed = False
    doc["fresh_process_confirmed"] = confirmed
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, default=str)
        f.write("\n")
    print(f"violation class: {viol['class']}")
    print(f"violation detail: {viol['detail']}")
    print(f"violation key: {viol['key']}")
    print(f"reproduced in a fresh process: {confirmed}; minimised in {steps} simulated runs")
    print(f"VIOLATION property={check.id} replay={path}")
    return 1


def main_replay(check, doc):
    boot.import_all(check.block)
    ticks.codes()
    if hasattr(check, "prepare"):
        check.prepare(doc.get("seed", 1), "quick")
    import gc

    gc.collect()
    gc.freeze()
    batch = Batch(check)
    res = batch.evaluate([doc["plan"]])
    vs = res[0][2]
    for v in vs:
        print(f"{v['class']}: {v['detail']}")
    if any(v["class"] == doc["class"] for v in vs):
        print(f"VIOLATION property={check.id} replay reproduced")
        return 1
    print("replay: the violation did not occur")
    return 0


def guarded(fn, *a):
    try:
        return fn(*a)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        return 2
