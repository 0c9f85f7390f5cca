"""Second pass of the corpus scan: which models the linked Gecode solves completely (development tool)."""
import json, os, sys
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../sim"))
from simlib import Prefix, Zygote


def one(e):
    p = Prefix(["--solver", "org.minizinc.gecode_presolver", "-a", "--output-mode", "dzn", "--output-objective", "/repo/" + e["path"]] + ["/repo/" + a if a.startswith("tests/") else a for a in e["args"]], {"home/": None}, {}, snap="start")
    try:
        z = Zygote(p)
        r = z.run(["seed 1", "cpu 2"])
        z.close()
        e["solve"] = {"kind": r.kind, "code": r.code, "ms": int(r.wall * 1000), "gc": r.gcpoints, "sols": r.out.count(b"----------\n"), "end": r.out[-12:].decode("latin-1"), "out": len(r.out)}
    except Exception as x:
        e["solve"] = {"kind": "?", "err": str(x)[:100]}
    return e


if __name__ == "__main__":
    d = [e for e in json.load(open("/tmp/scan.json")) if e.get("kind") == "EXIT"]
    with ProcessPoolExecutor(3) as ex:
        json.dump(list(ex.map(one, d, chunksize=8)), open("/tmp/scan2.json", "w"), indent=0)
