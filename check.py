#!/usr/bin/env python3
"""python3 check.py C01 [...] [--tier quick|thorough] [--src DIR]: decide properties of /repo's working tree from its source."""
import argparse
import os
import re
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from vsa import registry, report          # noqa: E402
from vsa.interp import Clock, OutOfTime          # noqa: E402
from vsa.program import Program           # noqa: E402


def known():
    out = {}
    p = os.path.join(report.ROOT, "known-findings.txt")
    for line in open(p) if os.path.exists(p) else ():
        m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line)
        if m:
            out.setdefault(m.group(1), {})[m.group(2).replace("%20", " ")] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="+")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--src", default="/repo/src")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    ids = list(registry.CHECKS) if a.ids == ["all"] else a.ids
    rc = 0
    for pid in ids:
        P = Program(a.src)
        P.load()
        chk = report.Check(pid, a.tier, seed, P)
        fn, rule = registry.CHECKS[pid]
        Clock.until = chk.end
        try:
            fn(P, chk)
        except (Exception, OutOfTime) as e:                        # noqa: BLE001
            if os.environ.get("VSA_TRACE"):
                traceback.print_exc()
            chk.undecided("analysis", f"the analysis stopped: {type(e).__name__}: {e}")
        extra = {}
        if a.tier == "thorough" and a.src == "/repo/src":
            try:
                from vsa import sensitivity
                extra["rule_sensitivity"] = sensitivity.run(pid, seed)
            except ImportError:
                pass
        rc = max(rc, chk.finish(rule, known().get(pid, {}), extra))
    return rc


if __name__ == "__main__":
    sys.exit(main())
