"""P11: a failed write of an output file or of the solver's input is reported; success means complete files."""
import json, re
from engine import Check
from simlib import Prefix, MS, S, hx
import workloads as W
from worlds import WORLDS, SOL, CHECKER, MODEL, DATA
from gc_checks import MODELS, read, GECODE

BIG = read(MODELS["d_global"]).decode()
ERRS = ["ENOSPC", "ENOSPC", "EIO", "EDQUOT", "EFBIG"]
SOLS = "".join(SOL % (i % 9 + 1, i) for i in range(1, 60)) + "==========\n"
# a solution stream read with --ozn-file
OZN = "int: x;\nint: y;\noutput [\"x=\\(x) y=\\(y)\\n\"];\n"


class Scn:
    """One use of the driver that writes files: prefix and the names (patterns) of the files with their approximate sizes."""

    def __init__(self, name, make, files, snap=("start",), script=None):
        self.name, self.make, self.files, self.snaps, self.script = name, make, files, snap, script or []


def compile_scn(args, model=MODEL, data=True, extra=None):
    def make(snap):
        files = {"bin/fz": "#!/bin/sh\n", "solvers/fz.msc": W.conf(stdFlags=[]), "m.mzn": model, "home/": None}
        if data:
            files["d.dzn"] = DATA
        files.update(extra or {})
        return Prefix(["--solver", "org.sim.fz"] + args + (["m.mzn"] + (["d.dzn"] if data else []) if "--compile-solution-checker" not in args else []), files, {"MZN_SOLVER_PATH": "/simwork/solvers"}, snap=snap)
    return make


def world_scn(world, args=(), out=None):
    def make(snap):
        return WORLDS[world].prefix(snap, list(args))
    return make


def gecode_scn(args, model):
    def make(snap):
        return Prefix(["--solver", GECODE, "-a"] + args + ["m.mzn"], {"home/": None, "m.mzn": read(MODELS[model])}, {}, snap=snap)
    return make


def ozn_scn(args):
    def make(snap):
        return Prefix(["--ozn-file", "o.ozn"] + args, {"home/": None, "o.ozn": OZN}, {}, snap=snap, stdin=SOLS)
    return make


ALLC = ["-c", "--fzn", "/simwork/o.fzn", "--ozn", "/simwork/o.ozn", "--output-paths-to-file", "/simwork/o.paths"]
SCNS = {s.name: s for s in (
    Scn("compile", compile_scn(ALLC), [("o.fzn", 800), ("o.ozn", 250), ("o.paths", 900)]),
    Scn("compile big", compile_scn(ALLC, BIG, False), [("o.fzn", 75000), ("o.ozn", 1200), ("o.paths", 60000)]),
    Scn("compile names", compile_scn(["-c"]), [("m.fzn", 800), ("m.ozn", 250)]),
    Scn("compile json", compile_scn(["-c", "--fzn-format", "json", "--json-stream", "--fzn", "/simwork/o.fzn", "--ozn", "/simwork/o.ozn"]), [("o.fzn", 1500), ("o.ozn", 250)]),
    Scn("compile twopass", compile_scn(["--two-pass"] + ALLC), [("o.fzn", 800), ("o.ozn", 250), ("o.paths", 900)]),
    Scn("mzc", compile_scn(["--compile-solution-checker", "c.mzc.mzn"], extra={"c.mzc.mzn": CHECKER}), [("c.mzc", 150)]),
    Scn("mzc big", compile_scn(["--compile-solution-checker", "c.mzc.mzn"], extra={"c.mzc.mzn": CHECKER + "".join("%% %d %d\n" % (i * 7919 % 10007, i * i * 31 % 99991) for i in range(4000))}), [("c.mzc", 40000)]),
    Scn("solve", world_scn("fzn"), [("/tmp/", 800)], ("join",)),
    Scn("solve json", world_scn("json"), [("/tmp/", 800)], ("join",)),
    Scn("solve fznjson", world_scn("fznjson"), [("/tmp/", 1500)], ("join",)),
    Scn("solve paths", world_scn("paths"), [(".fzn", 1200), (".paths", 900)], ("join",)),
    Scn("solve nl", world_scn("nl"), [("model.nl", 900)], ("join",)),
    Scn("solve mzn", world_scn("mzn"), [("/tmp/", 300)], ("start",)),
    Scn("solve files", world_scn("file"), [("out.txt", 40), ("o.fzn", 800), ("o.ozn", 250), ("raw.txt", 70), ("/tmp/", 800)], ("join",)),
    Scn("solve canon", world_scn("fzn", ["--canonicalize", "--output-non-canonical", "/simwork/nc.txt", "-o", "/simwork/out.txt"]), [("nc.txt", 40), ("out.txt", 40)], ("join",)),
    Scn("gecode", gecode_scn(["-o", "/simwork/out.txt"], "k_mip"), [("out.txt", 1500)]),
    Scn("gecode all", gecode_scn(["-o", "/simwork/out.txt", "--json-stream"], "b_comp"), [("out.txt", 14000)]),
    Scn("gecode raw", gecode_scn(["-o", "/simwork/out.txt", "--no-flush-output"], "b_comp"), [("out.txt", 13000)]),
    Scn("stream", ozn_scn(["-o", "/simwork/out.txt"]), [("out.txt", 900)]),
    Scn("stream canon", ozn_scn(["-o", "/simwork/out.txt", "--canonicalize", "--output-non-canonical", "/simwork/nc.txt"]), [("out.txt", 900), ("nc.txt", 900)]),
)}
WORLD_OF = {n: n.split()[1] for n in ("solve json", "solve fznjson", "solve paths", "solve nl", "solve mzn")}
WORLD_OF.update({"solve": "fzn", "solve files": "file", "solve canon": "fzn"})


class P11(Check):
    id = "P11"
    quick_units, thorough_units = 320, 8000
    quick_cap, thorough_cap = 45, 1200
    memo = True
    cache_size = 3
    rule = "A case is one use of the driver that writes files, with one write, open or close failing or falling short; non-trivial if the fault fired."
    assumptions = ["a failing close may lose data written before it; a failing write leaves the bytes before the limit"] + Check.assumptions

    def unit(self, rng, index, tier):
        names = list(SCNS)
        scn = SCNS[names[index % len(names)]]
        if rng.random() < 0.1:
            scn = SCNS[rng.choice(names)]
        snap = scn.snaps[0]
        for _ in range(12):
            pat, size = rng.choice(scn.files)
            k = rng.choice(["quota", "quota", "quota", "quota", "close", "open", "write", "short", "short", "eintr", "temp"])
            if k == "quota":
                n = rng.choice([0, 1, size // 2, size - 1, rng.randint(0, size), rng.randint(0, size), rng.randint(0, 2 * size), 8191, 4096, 8192])
                f = "quota %s %d %s" % (pat, n, rng.choice(ERRS))
            elif k == "close":
                f = "fault closew %s 1 1 %s %d" % (pat, rng.choice(["EIO", "ENOSPC", "EDQUOT"]), rng.choice([1, 10, 100, 100000]))
            elif k == "open":
                f = "fault openw %s 1 1 %s" % (pat, rng.choice(["ENOSPC", "EACCES", "EMFILE", "EROFS", "EDQUOT"]))
            elif k == "write":
                f = "fault writef %s %d 0 %s" % (pat, rng.choice([1, 1, 2, 3, 5]), rng.choice(["EIO", "ENOSPC"]))
            elif k == "short":
                a = rng.choice([1, 1, 2, 4])
                f = "fault writef %s %d %d short %d" % (pat, a, rng.choice([a, a + 3, 0]), rng.choice([1, 1, 2, 7, 100, 1000] if size < 10000 else [100, 1000]))
            elif k == "eintr":
                a = rng.choice([1, 1, 2, 4])
                f = "fault writef %s %d %d EINTR" % (pat, a, a + rng.choice([0, 0, 1, 4]))
            else:
                f = "fault %s - 1 1 %s" % (rng.choice(["mkstemps", "mkdtemp"]), rng.choice(["ENOSPC", "EACCES", "EMFILE"]))
            inj = [f]
            if rng.random() < 0.1 and k == "quota":
                a = rng.choice([1, 2])
                inj.append("fault writef %s %d 0 short %d" % (pat, a, rng.choice([1, 3, 50] if size < 10000 else [50, 500])))
            yield {"scn": scn.name, "snap": snap, "inject": inj, "seed": rng.randint(1, 9)}

    def execs(self, case):
        s = SCNS[case["scn"]]
        p = s.make(case["snap"])
        w = WORLD_OF.get(case["scn"])
        script = WORLDS[w].script() if w else []
        return [(p, ["seed %d" % case["seed"]] + script), (p, ["seed %d" % case["seed"]] + script + case["inject"])]

    def nontrivial(self, case, rs):
        return bool(rs[1].fired())

    def fingerprint(self, case, rs):
        return rs[1].key()

    def probe(self, case, rs):
        b = rs[1]
        return ["scn:" + case["scn"], ("failed" if b.code else "ok") + (" after fault" if b.fired() else "")]

    def judge(self, case, rs):
        a, b = rs
        if a.kind != "EXIT" or a.code != 0:
            return [("baseline", "without fault the driver ends with %s %d: %s" % (a.kind, a.code, a.err[-300:]))]
        V = []
        fired = b.fired()
        benign = all(k.endswith(":short") or k.endswith(":EINTR") for k in fired)
        if b.kind != "EXIT":
            return [("crash", "the driver ends with %s %d: %s" % (b.kind, b.code, b.err[-300:].decode("utf-8", "replace")))]
        ma = [l[5:7] for l in a.exl("model") if l[1] == "start"]
        mb = [l[5:7] for l in b.exl("model") if l[1] == "start"]
        if mb and mb != ma and (b.code == 0 or b"----------" in b.out or b"----------" in (b.files.get("out.txt") or b"") or b'"solution"' in b.out):
            V.append(("model", "the solver was started with an incomplete model (%s instead of %s) and its answer reported, exit code %d" % (mb, ma, b.code)))
        if b.code == 0:
            if benign or fired:
                if b.out != a.out:
                    V.append(("output", "exit code 0 but standard output is %r instead of %r" % (b.out[-300:], a.out[-300:])))
                for f in sorted(set(a.files) | set(b.files)):
                    x, y = a.files.get(f), b.files.get(f)
                    if x != y and f.split("/")[-1] in ("raw.txt", "nc.txt") and (f.split("/")[-1] + ":").encode() in b.err:
                        continue            # side outputs: reported, but no reason to fail
                    if x != y:
                        V.append(("incomplete", "exit code 0 but %s has %s instead of %s bytes" % (f, "no" if y is None else len(y), "no" if x is None else len(x))))
        else:
            if benign:
                V.append(("spurious", "exit code %d although nothing failed: %s" % (b.code, (b.err or b.out)[-300:].decode("utf-8", "replace"))))
            elif not b.err.strip() and b'"error"' not in b.out:
                V.append(("silent", "exit code %d without an error message" % b.code))
        return V
