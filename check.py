#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--only SCENARIO] [--replay DIR]"""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import harness, build

if __name__ == "__main__":
    pid = sys.argv[1]
    try:
        code = harness.main(pid, sys.argv[2:])
    except build.BuildError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        code = 2
    sys.stdout.flush()
    sys.exit(code)
