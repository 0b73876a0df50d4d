#!/usr/bin/env python3
"""Driver of the checks: python3 check.py <property> [--tier quick|thorough]
Builds the harness of a property from /repo's working tree and its own sources, runs it (sharded over
the cores), replays what it reports, rewrites evidence/<property>.json and exits 0 or 1."""
import sys, os, json, time, hashlib, subprocess, glob, shutil, signal, mmap, struct

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from vlib import core
from vlib import checks

def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier"); tier = args[i + 1]; del args[i:i + 2]
    if args and args[0] == "--replay":
        return checks.replay(args[1])
    if args and args[0] == "--build-all":
        return checks.build_all()
    if len(args) != 1 or args[0] not in checks.CHECKS:
        print("usage: check.py <property> [--tier quick|thorough] | --replay <file> | --build-all", file=sys.stderr)
        return 2
    ctx = core.Ctx(args[0], "thorough" if tier == "thorough" else "quick", int(os.environ.get("VERIF_SEED", "1") or 1))
    return ctx.execute(checks.CHECKS[args[0]])

if __name__ == "__main__":
    sys.exit(main())
