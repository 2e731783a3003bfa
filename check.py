#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decide one property from the source of /repo."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vsa import finger, rulekit  # noqa: E402


def run(prop):
    m = importlib.import_module("rules." + prop.lower())
    return rulekit.main(prop, m.check, m.TITLE, m.RULES)


if __name__ == "__main__":
    if "--thorough" in sys.argv:
        sys.argv.remove("--thorough")
        finger.DEPTH = 5
    if len(sys.argv) > 1 and sys.argv[1] != "all":
        sys.exit(run(sys.argv[1].upper()))
    rc = 0
    for f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "rules"))):
        if f.startswith("c") and f.endswith(".py"):
            r = run(f[:-3].upper())
            rc = rc or r
    sys.exit(rc)
