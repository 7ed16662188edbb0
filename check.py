#!/usr/bin/env python3
"""check.py setup | check.py <ID> | check.py replay <file>"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import engine  # noqa: E402
import simlib  # noqa: E402


def main():
    if sys.argv[1] == "setup":
        simlib.build_sim()
        print(simlib.build_mnml())
        return 0
    if sys.argv[1] == "replay":
        return engine.replay(sys.argv[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    budget = float(os.environ.get("VERIF_BUDGET", "0")) or (35 if tier == "quick" else 600)
    return engine.check(sys.argv[1], seed, tier, budget)


if __name__ == "__main__":
    try:
        rc = main()
    except simlib.BuildError as e:
        print(e, file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
