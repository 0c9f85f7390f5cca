"""Makes sim/corpus.json: which of the repository's test models compile, with what options, and how large they are (development tool; checks only read the list)."""
import glob, json, os, re, sys
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../sim"))
import yaml
from simlib import Prefix, Zygote
import workloads as W


class T(yaml.SafeLoader):
    pass


T.add_multi_constructor("!", lambda l, s, n: l.construct_mapping(n, deep=True) if isinstance(n, yaml.MappingNode) else l.construct_sequence(n, deep=True) if isinstance(n, yaml.SequenceNode) else n.value)


def one(path):
    s = open(path, encoding="utf-8", errors="replace").read()
    m = re.match(r"\s*/\*\*\*(.*?)\*\*\*/", s, re.S)
    tests = []
    if m:
        try:
            tests = [d for d in yaml.load_all(m.group(1), Loader=T) if isinstance(d, dict)]
        except Exception:
            tests = []
    seen, res = set(), []
    for t in tests[:6] or [{}]:
        args = []
        for k, v in (t.get("options") or {}).items():
            if k in ("-O0", "-O1", "-O2", "-O3", "-O4", "-O5", "--keep-paths", "--two-pass") or k == "-D" or k == "-G" and v == "std":
                args += [k] if v is True else [k, str(v)]
        for f in t.get("extra_files") or []:
            args.append(os.path.normpath(os.path.join(os.path.dirname(path), f)))
        key = json.dumps(args)
        if key in seen:
            continue
        seen.add(key)
        files = {"bin/fz": "#!/bin/sh\n", "solvers/fz.msc": W.conf(stdFlags=[]), "home/": None}
        p = Prefix(["--solver", "org.sim.fz", "-c", "--fzn", "/simwork/o.fzn", "--ozn", "/simwork/o.ozn"] + [path] + args, files, {"MZN_SOLVER_PATH": "/simwork/solvers"}, snap="start")
        try:
            z = Zygote(p)
            r = z.run(["seed 1", "cpu 6"])
            z.close()
            res.append({"path": os.path.relpath(path, "/repo"), "args": [os.path.relpath(a, "/repo") if a.startswith("/repo/") else a for a in args], "ms": int(r.wall * 1000), "gc": r.gcpoints, "steps": r.steps, "kind": r.kind, "code": r.code, "fzn": len(r.files.get("o.fzn", b"") or b"")})
        except Exception as e:
            res.append({"path": path, "error": str(e)[:100]})
    return res


if __name__ == "__main__":
    fs = sorted(glob.glob("/repo/tests/spec/unit/**/*.mzn", recursive=True) + glob.glob("/repo/tests/spec/examples/**/*.mzn", recursive=True))
    with ProcessPoolExecutor(3) as ex:
        out = [x for r in ex.map(one, fs, chunksize=4) for x in r]
    json.dump(out, open("/tmp/scan.json", "w"), indent=0)
    print(len(fs), len(out))
