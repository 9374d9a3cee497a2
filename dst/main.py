#!/usr/bin/env python3
"""Usage: main.py check <property> | main.py replay <file>     (VERIF_SEED, VERIF_TIER)"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import boot  # noqa: E402


PRELOAD = ("C09", "C10", "C11")  # checks that use the storage seam


def load(pid):
    return importlib.import_module("dst.checks." + pid.lower()).CHECK()


def main():
    cmd, arg = sys.argv[1], sys.argv[2]
    if cmd == "replay":
        with open(arg) as f:
            doc = json.load(f)
        pid = doc["property"]
    else:
        pid = arg
    boot.reexec_if_needed(preload=pid in PRELOAD)
    from dst import engine

    check = load(pid)
    if cmd == "check":
        seed = int(os.environ.get("VERIF_SEED", "1"))
        tier = os.environ.get("VERIF_TIER", "quick")
        rc = engine.guarded(engine.main_check, check, tier, seed)
    else:
        rc = engine.guarded(engine.main_replay, check, doc)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


main()
