#!/usr/bin/env python3
"""
Run one check:      run.py C01 [--tier quick|thorough] [--jobs N] [-v]
Replay a violation: run.py --replay out/C01/<hash>.json
"""
import argparse
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
# string hashing must not vary between runs (BFS order, samples)
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

from mc import core  # noqa: E402  pylint: disable=wrong-import-position


def cli():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        with open(a.replay, encoding="utf-8") as f:
            v = json.load(f)
        os.environ["VERIF_SEED"] = str(v["seed"])
        return core.main(v["property"], v["tier"], only_shard=v["shard"], jobs=1)
    return core.main(a.property, a.tier, jobs=a.jobs, verbose=a.v)


if __name__ == "__main__":
    sys.exit(cli())
