#!/usr/bin/env python3
"""checks/run.py <property-id> [quick|thorough]  -- decides one property on /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from registry import REG

def main():
    pid = sys.argv[1]
    e = REG[pid]

    def fn(c):
        for part in e["parts"]:
            if c.thorough() and part.get("quick_only"):
                continue
            if not c.thorough() and part.get("thorough_only"):
                continue
            if "fn" in part:
                part["fn"](c)
                continue
            h = part["harness"]
            exe = vlib.build(part.get("name", h), [os.path.join(vlib.VERIF, "harness", h + ".cpp")], **part.get("build", {}))
            n = part["cases"][1 if c.thorough() else 0]
            c.run(exe, n, args=part.get("args", ()), timeout=part.get("timeout", 300) * (8 if c.thorough() else 1), shards=part.get("shards"), env=part.get("env"))
        c.finish(e["rule"], e.get("min_distinct", 2))

    vlib.main(fn, pid, e.get("level", "exploration"), e["technique"])

main()
