#!/usr/bin/env python3
"""analyse.py DUMP [-s SECONDS] [ROOT or prefix* ...]: runs entry points of a dump and prints what comes out"""
import json
import multiprocessing
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(100000)
import driver
import mir


def main():
    a = sys.argv[1:]
    driver.PROG = P = mir.Program(a.pop(0))
    secs = 200
    if a and a[0] == "-s":
        secs = int(a[1])
        a = a[2:]
    roots = [r for r in sorted(P.roots) if r.startswith("h_") and (
        not a or any(r == x or x.endswith("*") and r.startswith(x[:-1]) for x in a))]
    for r in driver.run_jobs([(x, secs, {}) for x in roots], 3000):
        if True:
            miss = [x for x in r["expected"] if x not in r["reached"]]
            print("%-36s states %6d ends %5d fns %4d %6.1fs checks %s%s" % (
                r["root"], r["partitions"], r["ends"], r["nfunctions"], r["seconds"], sum(r["checked"].values()),
                " UNREACHED %s" % miss if miss else ""), flush=True)
            for v in r["violations"]:
                print("  VIOL", v["key"], "::", v["msg"])
                for s in v["stack"][:10]:
                    print("      ", s[:220])
                print("      ", v["state"][:int(os.environ.get("SL", "14"))])
            for k, v in sorted((r["profile"] or {}).items(), key=lambda x: -x[1])[:12]:
                print("  SPLIT", v, k)
            merged = {}
            for k, v in r["undecided"].items():
                k2 = re.sub(r"\(.*\)", "()", k)
                merged.setdefault(k2, [0, v[1], k])[0] += v[0]
            for k, v in list(merged.items())[:4]:
                print("  UNDEC", v[0], v[2][:200])
                for s in v[1][:int(os.environ.get("ST", "6"))]:
                    print("      ", s[:220])


main()
