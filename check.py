#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--seed N] [--case N] [--count N]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"


def reexec():
    # The driver itself must not depend on hash randomisation.
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)


if __name__ == "__main__":
    reexec()
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="check that the sandbox has what the checks need")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--count", type=int)
    opts = ap.parse_args()
    from sim import core
    if opts.selftest:
        sys.exit(core.selftest())
    if not opts.property:
        ap.error("a property is required")
    if opts.replay:
        sys.exit(core.replay(opts.property, opts.replay))
    sys.exit(core.main(opts.property, opts.tier, opts.seed, opts.case, opts.count))
