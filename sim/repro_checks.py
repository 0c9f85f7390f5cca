"""P10: the same input and options give the same output, whatever the addresses, clocks, random bytes and directory orders."""
import os
from engine import Check
from simlib import Prefix, MS, S, REPO
from gc_checks import MODELS, SOLVABLE, CORPUS, model_prefix, read

VARIANTS = [[], [], [], ["-O0"], ["-O2"], ["-O3"], ["--two-pass"], ["--keep-paths"], ["-G", "linear"], ["--json-stream"], ["--output-mode", "json"], ["--no-optimize"], ["-v"], ["-s"], ["--output-paths-to-file", "/simwork/o.paths"],
            ["-W"], ["--no-output-ozn"], ["--compiler-statistics"], ["--output-detailed-timing"]]
NOISY = ("-v", "-s", "--compiler-statistics", "--output-detailed-timing")       # these print times


class P10(Check):
    id = "P10"
    quick_units, thorough_units = 300, 12000
    quick_cap, thorough_cap = 40, 1200
    memo = True
    cache_size = 3
    rule = "A case is one model compiled (or solved by the linked Gecode) under one simulated environment: heap layout, random bytes, wall clock, speed, directory order; non-trivial if something was compiled or diagnosed.  Distinct environments are counted as well as event sequences."
    assumptions = ["addresses of static objects and of the C stack are fixed; heap addresses vary"] + Check.assumptions[1:]

    def environment(self, rng):
        L = []
        if rng.random() < 0.9:
            L.append("layout %d" % rng.randint(1, 1 << 30))
        if rng.random() < 0.6:
            L.append("entropy %d" % rng.randint(1, 1 << 30))
        if rng.random() < 0.5:
            L.append("wall %d" % rng.choice([0, 1, 86400 * S, 1700000000 * S + rng.randint(0, 10 ** 9), 4000000000 * S, 2145916800 * S - 1]))
        if rng.random() < 0.5:
            L.append("dirorder %d" % rng.randint(1, 1 << 30))
        if rng.random() < 0.4:
            L.append("opcost %d %d" % rng.choice([(1, 1), (100000, 3000000), (1, 10000000)]))
        return L or ["layout %d" % rng.randint(1, 1 << 30)]

    def unit(self, rng, index, tier):
        if index % 2 == 0:
            name = rng.choice(list(MODELS))
            model, base, can = "@" + name, (["-json"] if name == "f_data" and rng.random() < 0.5 else []), name in SOLVABLE
        else:
            e = CORPUS[rng.randrange(len(CORPUS))]
            model, base, can = e[0], e[1], e[4]
        for _ in range(2):
            how = rng.choice(["compile", "compile", "compile", "solve", "print"]) if can else "compile"
            v = rng.choice(VARIANTS)
            if how != "compile" and v[:1] in (["-G"], ["--no-output-ozn"], ["--output-mode"], ["-O3"], ["--output-paths-to-file"]):
                v = []
            if rng.random() < 0.3:
                v = v + ["-r", "7"]
            for _ in range(3 if tier == "quick" else 6):
                yield {"model": model, "args": base + v, "how": how, "env": self.environment(rng)}

    def execs(self, case):
        p = model_prefix(case["model"], case["args"], case["how"])
        return [(p, ["seed 1", "cpu 60"]), (p, ["seed 1", "cpu 60"] + case["env"])]

    def fingerprint(self, case, rs):
        return str((case["model"], case["args"], case["how"], case["env"]))

    def nontrivial(self, case, rs):
        return rs[0].kind == "EXIT"

    def probe(self, case, rs):
        return ["how:" + case["how"], "code:%d" % rs[0].code] + ["env:" + l.split()[0] for l in case["env"]]

    def judge(self, case, rs):
        a, b = rs
        if a.kind != "EXIT":
            return []
        if b.kind != "EXIT" or a.code != b.code:
            return [("end", "%s %d instead of exit %d: %s" % (b.kind, b.code, a.code, b.err[-300:].decode("utf-8", "replace")))]
        V = []
        noisy = any(x in case["args"] for x in NOISY)
        for n, x, y in (("stdout", a.out, b.out), ("stderr", a.err, b.err)):
            if not noisy and x != y:
                V.append((n, differ(x, y)))
        for f in sorted(set(a.files) | set(b.files)):
            x, y = a.files.get(f), b.files.get(f)
            if x != y:
                V.append(("file " + f.split("/")[0], "%s: %s" % (f, "missing" if y is None else "not expected" if x is None else differ(x, y))))
        return V

    def reduce(self, case):
        for i in range(len(case["env"])):
            if len(case["env"]) > 1:
                yield dict(case, env=case["env"][:i] + case["env"][i + 1:])
        if "-r" in case["args"]:
            i = case["args"].index("-r")
            yield dict(case, args=case["args"][:i] + case["args"][i + 2:])


def differ(x, y):
    X, Y = x.split(b"\n"), y.split(b"\n")
    for i in range(max(len(X), len(Y))):
        a, b = X[i] if i < len(X) else None, Y[i] if i < len(Y) else None
        if a != b:
            return "line %d: %r instead of %r" % (i + 1, b and b[:300], a and a[:300])
    return ""
