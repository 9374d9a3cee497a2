"""Writes /verif/MANIFEST.json from properties.jsonl, the checks and the texts below."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

DST = "deterministic simulation with fault injection: "
TECHNIQUE = {
    "C01": DST + "seeded histories of public calls over several live sections, each observation compared with the same request in a fresh process",
    "C02": DST + "operations aborted at seeded points (interrupt or memory failure), then repeated and compared with an undisturbed process",
    "C03": DST + "analyses aborted at seeded points, stored results compared with the state before and after",
    "C04": DST + "histories with aborted operations, fingerprints of every user object and argument before and after",
    "C05": DST + "histories with aborted operations, earlier stress results re-read after every step, coverage model of elements and materials",
    "C06": DST + "real threads run one at a time under a seeded scheduler with line-level preemption, interrupts of one thread; results compared with a solo run",
    "C07": DST + "concurrent readers and re-analyses of one section under the seeded scheduler",
    "C08": DST + "faults of the numerical back ends (solver, preconditioner, root finder, mesher) injected at their call seams",
    "C09": DST + "plots on a faulty disk and with interrupts, figure registry and user figures inspected",
    "C10": DST + "exports on a simulated faulty disk (libc seam), text parsed against a model of the mesh",
    "C11": DST + "imports from a simulated faulty disk (libc seam) over histories of replaced and torn files",
    "C12": DST + "progress display driven by a virtual clock and a simulated refresh thread on a faulty terminal",
    "C13": DST + "the same seeded histories in processes with different accelerators, results compared",
    "C14": DST + "re-meshing that succeeds, fails or is aborted between analyses, compared with an undisturbed section",
    "C15": DST + "random call sequences with rejected, failed and aborted calls against an explicit availability model",
    "C16": DST + "crash and restart: objects saved at arbitrary points of a history, loaded by a fresh process with another hash seed",
    "C17": DST + "seeded cycles of operations with faults repeated many times in one process, what the process still holds measured after each cycle",
}
NOTE = {
    "C01": "Seeded search; the oracle is the same request in a fresh forked process of the same code, so an error that does not depend on history is out of reach.",
    "C02": "Seeded search over abort points at calls, function entries and C returns of the package and of pypardiso.",
    "C03": "Seeded search over abort points; one point per branch.",
    "C04": "Fingerprints cover geometry, mesh, materials, section arrays, stress results and arguments.",
    "C05": "Coverage and materials are decided by the region polygons the user drew.",
    "C06": "Seeded search over interleavings at line granularity of the package and pypardiso; C code runs atomically.",
    "C07": "As C06; readers of one section.",
    "C08": "Back-end results are replaced at the call seam; the tolerance band around the documented limit is not judged.",
    "C09": "Faults at libc level; interrupts on the package's steps and on entry of the matplotlib functions it uses.",
    "C10": "Faults at libc level (open, write, close, short writes, interruptions).",
    "C11": "Faults at libc level, also below rhino3dm's C++ reader.",
    "C12": "The refresh thread of rich is replaced by a simulated one; the rest of rich runs for real.",
    "C13": "Compares configurations of the same code within a tolerance for round-off.",
    "C14": "Oracle: the same request on a section that was never disturbed.",
    "C15": "The availability model is written from the documentation and is independent of the code.",
    "C16": "pickle and deepcopy are the supported ways to save objects.",
    "C17": "A cache with a declared bound may fill up; buffers that MKL maps by itself are not measured.",
}
PURE = "a pure function of one input: no schedule, clock, I/O, crash point or history for a simulator to decide; deterministic simulation has nothing to vary, and sampling inputs would be property-based testing instead"


def main():
    props = [json.loads(ln) for ln in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if os.path.exists(os.path.join(ROOT, "dst", "checks", pid.lower() + ".py")):
            chk = importlib.import_module("dst.checks." + pid.lower()).CHECK
            checks.append({
                "property": pid,
                "quick_cmd": f"python3 dst/main.py check {pid}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 dst/main.py check {pid}",
                "technique": TECHNIQUE[pid],
                "level": chk.level,
                "level_note": NOTE[pid],
            })
        elif pid < "C50":
            na.append({"property": pid, "reason": "the check is not built yet"})
        else:
            na.append({"property": pid, "reason": PURE})
    doc = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, shapely, cytriangle, matplotlib, rich'", "checks": checks, "not_applicable": na, "notes": "No hooks in /repo: the seams are import-time lock replacement, sys.monitoring, call seams of the back ends, an LD_PRELOAD storage shim and a virtual clock, all outside the repository."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
