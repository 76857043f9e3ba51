#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo's current source, statically.

Exit 0: it holds on everything analysed. Exit 1 with a VIOLATION line: it does not.
"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.dont_write_bytecode = True


def main():
    import driver
    if sys.argv[1:] == ["--setup"]:
        driver.build_extractor()
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return driver.check(pid, tier)


if __name__ == "__main__":
    sys.exit(main())
