#!/usr/bin/env python3
"""replay.py FILE: re-execute a recorded violation.  Exit 1 if it reproduces exactly, 0 if it does not, 2 on error."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine, checks
from simlib import Cache


def main():
    j = json.load(open(sys.argv[1]))
    check = checks.ALL[j["property"]]()
    cache = Cache(check.cache_size)
    try:
        rs = engine.run_case(check, cache, j["case"])
    finally:
        cache.close()
    c = engine.judge_classes(check, j["case"], rs)
    same = [r.key() for r in rs] == j["keys"]
    print("class %s %s; executions %s" % (j["class"], "reproduced" if j["class"] in c else "NOT reproduced", "identical" if same else "DIFFERENT"))
    if "-v" in sys.argv:
        for r in rs:
            print(r.kind, r.code)
            sys.stdout.write(r.log.decode("utf-8", "replace"))
            print(r.ex.decode("utf-8", "replace"))
            print("stdout:", r.out)
            print("stderr:", r.err)
    print(c)
    return 1 if j["class"] in c and same else 0


if __name__ == "__main__":
    sys.exit(main())
