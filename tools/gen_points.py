#!/usr/bin/env python3
"""Writes sim/models/points.json: how many collection points compiling (solving) each own model passes, per variant.
Only used to choose where windows of collections start; a stale table makes P09 less thorough, never wrong."""
import json, os, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
from simlib import Zygote
import gc_checks as G


def job(a):
    n, v, how = a
    z = Zygote(G.model_prefix("@" + n, G.VARIANTS[v], how))
    r = z.run(["seed 1", "cpu 60"])
    z.close()
    return a, r.gcpoints, r.code


T = {}
with ThreadPoolExecutor(8) as ex:
    for (n, v, how), k, c in ex.map(job, [(n, v, h) for n in sorted(G.MODELS) for v in ("", "O2", "linear") for h in (("compile", "solve") if not v else ("compile",))]):
        if how == "solve" and c and n not in ("g_error", "i_types"):
            continue
        T.setdefault(n, {})[v + ":" + how] = k
json.dump(T, open(os.path.join(V, "sim/models/points.json"), "w"), indent=1, sort_keys=True)
