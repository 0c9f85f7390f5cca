"""P12: an input that cannot be read completely never changes the problem silently."""
import base64, json, zlib
from engine import Check
from simlib import Prefix, MS, S, hx
import workloads as W
from gc_checks import GECODE

LIBDEF = "predicate fzn_all_different_int(array [int] of var int: x);\n"
INC = "predicate p(var int: a, var int: b) = a + k <= b;\nint: k;\n" + "".join("%% comment line %d of the included file\n" % i for i in range(400)) + "function var int: dist(var int: a, var int: b) = abs(a - b);\n"
MODEL = ('include "globals.mzn"; include "inc.mzn"; int: n; array[1..n] of int: w; array[1..n] of var 1..9: x; constraint all_different(x); constraint p(x[1], x[2]);\n'
         + "".join("%% filler %d\n" % (i * 7919 % 10007) for i in range(900))
         + 'constraint dist(x[1], x[n]) >= 2; constraint x[1] >= 2; constraint x[2] <= 7;\nsolve maximize sum(i in 1..n)(w[i] * x[i]);\noutput ["x=\\(x)\\n"];\nconstraint x[1] + x[2] <= 11;\n')
DZN = "n = 4;\nw = [20, 30, 50, 7];\n" + "".join("%% data comment %d\n" % i for i in range(900)) + "k = 2;\n"
JSON = '{\n "n": 4,\n "w": [20, 30, 50,' + " " * 9000 + ' 7],\n "k": 2\n}\n'
MPC = json.dumps({"solver": GECODE, "-O2": True, "cmdline-data": ["k = 3;"], "output-mode": "dzn"}, indent=1) + " " * 20 + "\n"
CHECKER = 'int: k; int: n; array[1..n] of int: w; array[1..n] of int: x; output ["value \\(sum(i in 1..n)(w[i] * x[i]))\\n"];\n'
MZC = "@" + base64.b64encode(zlib.compress(CHECKER.encode(), 9)).decode() + "\n"
FZN = "predicate fzn_all_different_int(array [int] of var int: x);\nvar 1..5: a:: output_var;\nvar 1..5: b:: output_var;\n" + "% pad\n" * 1500 + "constraint int_lt(a, b);\nconstraint int_le(3, b);\nconstraint int_le(b, 4);\nsolve satisfy;\n"
OZN = 'int: a;\nint: b;\noutput ["a \\(a) b \\(b)\\n"];\n'
SOLS = "".join("a = %d;\nb = %d;\n----------\n" % (i, i * i) for i in range(1, 600)) + "==========\n"
PREFS = json.dumps({"solverDefaults": [[GECODE, "--output-objective", ""]], "tagDefaults": [["", GECODE], ["mytag", "org.sim.fz"]]}) + "\n"


class Scn:
    def __init__(self, name, args, inputs, how="solve", data="dzn", stdin=b"", extra=None, lib=True, weight=1):
        self.name, self.args, self.inputs, self.how, self.data, self.stdin, self.extra, self.lib, self.weight = name, args, inputs, how, data, stdin, extra or {}, lib, weight

    def prefix(self):
        f = {"home/": None, "bin/fz": "#!/bin/sh\n", "solvers/fz.msc": W.conf(stdFlags=[], mznlib="/simwork/slib"), "slib/fzn_all_different_int.mzn": LIBDEF, "m.mzn": MODEL, "inc.mzn": INC}
        if self.data:
            f["d." + self.data] = DZN if self.data == "dzn" else JSON
        f.update(self.extra)
        a = list(self.args)
        if self.how == "compile":
            a = ["--solver", "org.sim.fz", "-c", "--fzn", "/simwork/o.fzn", "--ozn", "/simwork/o.ozn"] + a
        elif self.how == "solve":
            a = ["--solver", GECODE] + a
        return Prefix(a, f, {"MZN_SOLVER_PATH": "/simwork/solvers"}, snap="start", stdin=self.stdin)


MI = [("m.mzn", 3), ("inc.mzn", 2), ("d.dzn", 2), ("/std/", 2)]
SCNS = {s.name: s for s in (
    Scn("compile", ["m.mzn", "d.dzn"], MI + [("slib/", 3), ("fz.msc", 2)], "compile"),
    Scn("solve", ["m.mzn", "d.dzn"], MI),
    Scn("json", ["m.mzn", "d.json"], [("m.mzn", 1), ("d.json", 5)], data="json"),
    Scn("stdin", ["-", "d.dzn"], [("stdin", 6), ("inc.mzn", 1), ("d.dzn", 1)], stdin=MODEL.encode()),
    Scn("param", ["m.mzn", "d2.dzn", "p.mpc"], [("p.mpc", 6), ("m.mzn", 1), ("d2.dzn", 1)], how="plain", data=None, extra={"p.mpc": MPC, "d2.dzn": DZN.replace("k = 2;\n", "")}),
    Scn("param option", ["--param-file", "p.mpc", "m.mzn", "d2.dzn"], [("p.mpc", 6)], how="plain", data=None, extra={"p.mpc": MPC, "d2.dzn": DZN.replace("k = 2;\n", "")}),
    Scn("checker", ["m.mzn", "d.dzn", "c.mzc.mzn"], [("c.mzc.mzn", 6), ("d.dzn", 1)], extra={"c.mzc.mzn": CHECKER}),
    Scn("mzc", ["m.mzn", "d.dzn", "c.mzc"], [("c.mzc", 6), ("d.dzn", 1)], extra={"c.mzc": MZC}),
    Scn("fzn", ["f.fzn"], [("f.fzn", 4)], data=None, extra={"f.fzn": FZN, "f.ozn": OZN}),
    Scn("stream", ["--ozn-file", "f.ozn"], [("f.ozn", 3), ("stdin", 5)], how="plain", data=None, stdin=SOLS.encode(), extra={"f.ozn": OZN}),
    Scn("msc", ["--solver", "own.msc", "-c", "--fzn", "/simwork/o.fzn", "--ozn", "/simwork/o.ozn", "m.mzn", "d.dzn"], [("own.msc", 5), ("slib/", 3)], how="plain", extra={"own.msc": W.conf(id="org.sim.own", stdFlags=[], mznlib="/simwork/slib")}),
    Scn("prefs", ["m.mzn", "d.dzn"], [("Preferences.json", 5)], how="plain", extra={"home/.minizinc/Preferences.json": PREFS}),
    Scn("interface", ["--model-interface-only", "m.mzn", "d.dzn"], [("m.mzn", 3), ("inc.mzn", 3), ("d.dzn", 3)], how="solve"),
    Scn("check", ["--model-check-only", "m.mzn"], [("m.mzn", 3), ("inc.mzn", 3)], data=None),
    Scn("two models", ["m.mzn", "more.mzn", "d.dzn"], [("more.mzn", 4), ("m.mzn", 1)], extra={"more.mzn": "constraint x[2] != 6;\n" + "% more\n" * 900 + "constraint x[3] != 9;\n"}),
    Scn("cmd include", ["-I", "/simwork/lib2", "m2.mzn", "d.dzn"], [("other.mzn", 5), ("d.dzn", 1)], extra={"m2.mzn": MODEL.replace('"inc.mzn";', '"inc.mzn"; include "other.mzn";'), "lib2/other.mzn": "% o\n" * 300 + "constraint x[3] != 9;\n"}),
    Scn("redef", ["m.mzn", "d.dzn"], [("redefinitions", 5), ("slib/", 2)], "compile", extra={"slib/redefinitions.mzn": "predicate int_abs(var int: a, var int: b) = (a >= 0 /\\ b = a) \\/ (a < 0 /\\ b = -a);\n", "slib/redefinitions-2.0.mzn": "% none\n" * 2000}),
)}


class P12(Check):
    id = "P12"
    quick_units, thorough_units = 400, 8000
    quick_cap, thorough_cap = 45, 1200
    memo = True
    cache_size = 3
    rule = "A case is one use of the driver with one input that fails, falls short or shrinks while it is read; non-trivial if the fault fired."
    assumptions = ["a file that cannot be opened although it exists counts as a failed read", "errors of stat() are not injected: they are indistinguishable from a missing file",
                   "a file that ends early is detectable for files whose size was asked before (models and data); for JSON only as a syntax error"] + Check.assumptions

    def unit(self, rng, index, tier):
        names = list(SCNS)
        scn = SCNS[names[index % len(names)]]
        for _ in range(12):
            pat = rng.choices([p for p, _ in scn.inputs], [w for _, w in scn.inputs])[0]
            if pat == "stdin":
                k = rng.choice(["short", "EIO", "EIO"])
                inj = ["fault stdin - 1 0 short %d" % rng.choice([1, 2, 7, 100, 4095])] if k == "short" else ["fault stdin - %d 0 EIO" % rng.randint(1, len(scn.stdin) // 4096 + 1)]
                if k != "short" and rng.random() < 0.7:
                    inj = ["fault stdin - 1 %d short %d" % (rng.randint(1, 9), rng.randint(1, 4095))] + ["fault stdin - %d 0 EIO" % rng.randint(2, 12)]
            else:
                k = rng.choice(["read", "read", "read", "open", "open", "short", "short", "eintr", "seek", "eof", "short+read", "short+eof"])
                n = rng.choice([1, 1, 1, 2, 2, 3, 4])
                if pat in ("/std/", "slib/") and rng.random() < 0.7:
                    n = rng.randint(1, 150 if pat == "/std/" else 8)
                last = rng.choice([0, 0, n])
                err = rng.choice(["EIO", "EIO", "EISDIR", "ESTALE"])
                sh = rng.choice([1, 2, 10, 100, 1000, 4000] if pat != "/std/" else [200, 1000, 4000])
                inj = {"read": ["fault readf %s %d %d %s" % (pat, n, last, err)],
                       "open": ["fault openr %s %d %d %s" % (pat, n, last, rng.choice(["EMFILE", "ENFILE", "EACCES", "EIO", "ENOMEM", "ELOOP"]))],
                       "short": ["fault readf %s %d 0 short %d" % (pat, n, sh)],
                       "eintr": ["fault readf %s %d %d EINTR" % (pat, n, n + rng.choice([0, 0, 3]))],
                       "seek": ["fault seekf %s %d %d %s" % (pat, n, last, rng.choice(["EIO", "ESPIPE", "EINVAL"]))],
                       "eof": ["fault readf %s %d 0 eof" % (pat, n)],
                       "short+read": ["fault readf %s 1 1 short %d" % (pat, sh), "fault readf %s 2 0 %s" % (pat, err)],
                       "short+eof": ["fault readf %s 1 1 short %d" % (pat, sh), "fault readf %s 2 0 eof" % pat]}[k]
            yield {"scn": scn.name, "inject": inj, "json": scn.name != "stream" and rng.random() < 0.15, "seed": rng.randint(1, 9)}

    def execs(self, case):
        p = SCNS[case["scn"]].prefix()
        if case.get("json"):
            p.args = ["--json-stream"] + p.args
        return [(p, ["seed %d" % case["seed"]]), (p, ["seed %d" % case["seed"]] + case["inject"])]

    def nontrivial(self, case, rs):
        return bool(rs[1].fired())

    def fingerprint(self, case, rs):
        return rs[1].key()

    def probe(self, case, rs):
        b = rs[1]
        return ["scn:" + case["scn"], ("failed" if b.code else "ok") + (" after fault" if b.fired() else "")]

    def judge(self, case, rs):
        a, b = rs
        if a.kind != "EXIT" or a.code != 0:
            return [("baseline", "without fault the driver ends with %s %d: %s" % (a.kind, a.code, a.err[-300:]))]
        fired = b.fired()
        benign = all(k.endswith(":short") or k.endswith(":EINTR") for k in fired)
        if b.kind != "EXIT":
            return [("crash", "the driver ends with %s %d: %s" % (b.kind, b.code, b.err[-300:].decode("utf-8", "replace")))]
        if b.code == 0:
            if "Preferences" in " ".join(case["inject"]) and b"Preferences.json" in b.err + b.out:
                return []       # reported as a warning
            V = []
            if a.out != b.out:
                V.append(("output", "exit code 0 but the output is %r instead of %r (error output %r)" % (b.out[-300:], a.out[-300:], b.err[-300:])))
            for f in sorted(set(a.files) | set(b.files)):
                if a.files.get(f) != b.files.get(f):
                    V.append(("files", "exit code 0 but %s differs" % f))
            if a.err != b.err:
                V.append(("messages", "exit code 0 but the error output is %r instead of %r" % (b.err[-300:], a.err[-300:])))
            return V
        if benign:
            return [("spurious", "exit code %d although nothing failed: %s" % (b.code, (b.err or b.out)[-300:].decode("utf-8", "replace")))]
        if not b.err.strip() and b'"error"' not in b.out:
            return [("silent", "exit code %d without an error message" % b.code)]
        sol = b"----------" in b.out or b'"solution"' in b.out
        if sol and not (case["scn"] == "stream" and a.out.startswith(b.out.split(b"=====")[0])) and not a.out.startswith(b.out):
            return [("answer", "a solution is printed although an input could not be read: %r" % b.out[-300:])]
        return []
