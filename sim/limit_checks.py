"""P14: the overall time limit stops compilation soon, cleanly and truthfully."""
import re
from engine import Check
from simlib import Prefix, MS, S, hx
import workloads as W
from gc_checks import MODELS, CORPUS, GECODE, model_prefix

BIG = '''int: n = 45; array[1..n] of var 1..n: x; array[1..n,1..n] of var bool: b;
constraint forall(i,j in 1..n where i<j)(x[i] != x[j] /\\ (b[i,j] <-> x[i] + 1 < x[j]));
constraint forall(i in 1..n)(sum(j in 1..n)(bool2int(b[i,j])*j) <= 1000);
solve satisfy;
output ["x\\(i)=\\(x[i])\\n" | i in 1..5 where fix(x[i]) > 0];
'''
PAR = '''function int: f(int: k) = if k <= 1 then 1 else (f(k-1) + f(k-2)) mod 1007 endif;
array[1..6] of int: t = [f(12+i) | i in 1..6]; var 0..2000: x; constraint x >= sum(t) mod 100; solve satisfy;
output ["x=\\(f(5) + x)\\n"];
'''
COMP = '''int: n = 200; array[1..n] of int: t = [ sum(j in 1..n)(if (i*j) mod 7 = 3 then j else 0 endif) | i in 1..n]; var 0..2000: x; constraint x >= sum(t) mod 100; solve satisfy;
output [ "x=\\(x)\\n" ] ++ [show(i) | i in 1..4 where t[i] > x];
'''
MANY = 'array[1..8] of var 1..12: x; constraint forall(i in 1..7)(x[i] <= x[i+1]);\npredicate q(var int: a, var int: b, int: k) = let { var 0..200: c = a * b + k } in (c mod 7 != 3) \\/ (a + c > 60);\n' + \
    "".join("constraint q(x[%d], x[%d], %d);\n" % (i % 8 + 1, (i * 3 + 1) % 8 + 1, i) for i in range(220)) + \
    'solve minimize sum(x);\noutput ["s=\\(sum(i in 1..8)(fix(x[i])))\\n"] ++ ["\\(x[i])," | i in 1..8];\n'
OWN = {"big": BIG, "par": PAR, "comp": COMP, "many": MANY}
SOLS = {"big": "x = [%s];\n----------\n" % ",".join(str(i) for i in range(1, 46)), "par": "x = 1000;\n----------\n", "comp": "x = 77;\n----------\n==========\n",
        "many": "x = [1,2,3,4,5,6,7,8];\n----------\nx = [1,1,1,1,1,1,1,2];\n----------\n==========\n"}
VARIANTS = [[], [], ["--two-pass"], ["-O2"], ["-O3"], ["-G", "linear"], ["-G", "linear", "--two-pass"], ["-O0"], ["--keep-paths"], ["-s"], ["-O2", "-v"]]
PLAIN = 2 * 10 ** 9


def own_prefix(case, limit):
    a = list(case["args"])
    f = {"home/": None, "m.mzn": OWN[case["model"]], "bin/fz": "#!/bin/sh\n", "solvers/fz.msc": W.conf(stdFlags=["-t", "-a", "-i"] if case.get("supt") else ["-a", "-i"])}
    e = {"MZN_SOLVER_PATH": "/simwork/solvers"}
    h = ["--solver", "org.sim.fz"]
    if case["how"] == "compile":
        h += ["-c", "--fzn", "/simwork/o.fzn", "--ozn", "/simwork/o.ozn"]
    elif case["how"] == "gecode":
        h = ["--solver", GECODE]
    return Prefix(h + limit + a + ["m.mzn"], f, e, snap="start")


def files(r):
    """Contents of the files, without the command line that is quoted in the compiled model."""
    return {f: re.sub(rb"^% (?:Compiled|Generated|Command line)[^\n]*\n", b"", d, flags=re.M) if f == "o.fzn" else d for f, d in (r.files or {}).items()}


class P14(Check):
    id = "P14"
    quick_units, thorough_units = 96, 3000
    quick_cap, thorough_cap = 50, 1200
    memo = True
    cache_size = 4
    rule = "A case is one model compiled (and handed to a scripted solver or to the linked Gecode) with an overall time limit that expires at a chosen allocation of the run, or not at all; non-trivial if the limit expired before the end."
    assumptions = ["simulated time passes with memory allocations and system calls; work between two allocations takes no time"] + Check.assumptions

    def unit(self, rng, index, tier):
        own = index % 4 != 3
        names = list(OWN)
        args = list(rng.choice(VARIANTS))
        if own:
            model = names[index % len(names)] if index % 8 < 4 else rng.choice(names)
            how = rng.choice(["compile", "compile", "solver", "solver", "gecode"])
        else:
            e = CORPUS[rng.randrange(len(CORPUS))]
            if rng.random() < 0.4:
                model, how = "@" + rng.choice(list(MODELS)), rng.choice(["compile", "solve"])
            else:
                model, args, how = e[0], e[1] + args, "solve" if e[4] and rng.random() < 0.5 else "compile"
        if how in ("gecode", "solve", "solver") and "linear" in " ".join(args):
            args = []
        if rng.random() < 0.2:
            args = args + ["--json-stream"]
        T = rng.choice([2, 20, 20, 100, 1000, 1000, 60000])
        supt = rng.random() < 0.5
        # many points in one window, or all over the run
        pts = [rng.random() * 1.05 for _ in range(6)]
        if rng.random() < 0.5:
            pts = [rng.uniform(0.55, 1.02) for _ in range(6)]
        for f in pts:
            c = {"model": model, "args": args, "how": how, "T": T, "supt": supt, "at": round(f, 4), "seed": rng.randint(1, 99), "inject": []}
            if rng.random() < 0.15:
                c["ST"] = rng.choice([1, 5, 500])
            if rng.random() < 0.15:
                c["inject"].append(rng.choice(["stall step %d %d" % (rng.randint(1, 400000), rng.choice([1, 100, 10000]) * MS), "jump step %d %d" % (rng.randint(1, 400000), rng.choice([-1, 1]) * 3600 * S)]))
            yield c
        if rng.random() < 0.5:
            yield {"model": model, "args": args, "how": how, "T": rng.choice([1000, 10 ** 6, 2 ** 31, 10 ** 12]), "supt": supt, "at": None, "seed": 1, "inject": []}

    def prefix(self, case, limit):
        if case["model"] in OWN:
            return own_prefix(case, limit)
        p = model_prefix(case["model"], case["args"], case["how"])
        p.args = limit + p.args
        return p

    def execs(self, case):
        L = ["seed 1", "cpu 60", "maxsteps 40000000", "opcost 1 2", "alloccost 0"]
        if case["how"] == "solver":
            L += ["start 100 100", "plan 0", "a out 100 " + hx(SOLS[case["model"]].encode()), "a exit 0 0"]
        lim = ["--time-limit", str(case["T"])] + (["--solver-time-limit", str(case["ST"])] if case.get("ST") else [])

        def limited(rs):
            M = [l for l in L if not l.startswith(("alloccost", "seed"))] + ["seed %d" % case["seed"]]
            if case["at"] is not None:
                M.append("alloccost %d" % self.cost(case, rs[0].steps))
            return M + case["inject"]
        a = self.prefix(case, ["--solver-time-limit", str(case["ST"])] if case.get("ST") else [])
        return [(a, L), (self.prefix(case, lim), limited)]

    def cost(self, case, steps):
        return max(1, int(case["T"] * MS / max(1000, steps * case["at"])))

    def nontrivial(self, case, rs):
        return rs[1].sim_ns > case["T"] * MS

    def fingerprint(self, case, rs):
        return rs[1].key()

    def probe(self, case, rs):
        a, b = rs
        r = ["how:" + case["how"], "model:" + (case["model"] if case["model"] in OWN else case["model"][0] if case["model"][0] == "@" else "repository")]
        if case["at"] is None:
            return r + ["no expiry"]
        return r + ["after %d%%" % (int(case["at"] * 10) * 10), self.outcome(case, a, b)]

    def outcome(self, case, a, b):
        o = b.out + b.err
        if b.kind == "EXIT" and case["how"] == "compile" and b.code and (b"time limit reached" in o):
            return "stopped"
        if b.kind == "EXIT" and case["how"] != "compile" and not b.exl("exec") and b.code == 0 and (b"=====UNKNOWN=====" in o or b'"UNKNOWN"' in o):
            return "stopped"
        return "finished"

    def judge(self, case, rs):
        a, b = rs
        if a.kind != "EXIT":
            return []
        if b.kind != "EXIT":
            return [("end", "driver ended with %s %d: %s" % (b.kind, b.code, b.err[-300:].decode("utf-8", "replace")))]
        V = []
        noisy = "-s" in case["args"] or "-v" in case["args"]
        af, bf = (files(r) for r in rs)
        same = a.code == b.code and (noisy or (a.out == b.out and a.err == b.err)) and af == bf
        for e in b.exl("exec"):
            if case.get("supt"):
                t = e[e.index("-t") + 1] if "-t" in e else None
                if t is None or not t.isdigit() or not 1 <= int(t) <= min(case["T"], case.get("ST") or case["T"]):
                    V.append(("limit", "the solver was started with time limit %s (overall limit %d ms)" % (t, case["T"])))
        out = self.outcome(case, a, b)
        if case["at"] is None:
            if not same:
                V.append(("no expiry", "the limit did not expire, but %s" % self.diff(a, b)))
            return V
        stopped = out == "stopped"
        if stopped and case["how"] == "compile":
            if [f for f in bf if f not in af or (a.code == 0 and bf[f] != af[f])]:
                V.append(("files", "compilation was stopped but left %s" % sorted(b.files)))
            if b"----------" in b.out:
                V.append(("answer", "output of a stopped compilation: %r" % b.out[-300:]))
        elif stopped:
            t = W.TIME.sub(b"", b.out).decode("utf-8", "replace")
            lines = [l for l in t.split("\n") if l.strip() and not l.startswith("%%%mzn-stat") and '"type": "statistics"' not in l]
            want = ['{"type": "status", "status": "UNKNOWN"}'] if "--json-stream" in case["args"] else ["=====UNKNOWN====="]
            lines = [l for l in lines if '"type": "warning"' not in l and '"type": "checker"' not in l and '"type": "trace"' not in l]
            if lines != want and case["how"] == "solver":
                V.append(("answer", "output of a stopped run: %r" % b.out[-400:]))
        elif case["how"] in ("gecode", "solve") or case["how"] == "solver":
            if not same and not noisy:
                # the solver ran with a limit: any prefix of the solutions, or none
                x = W.TIME.sub(b"", a.out)
                y = W.TIME.sub(b"", b.out)
                for u in (b"=====UNKNOWN=====\n", b"==========\n", b'{"type": "status", "status": "UNKNOWN"}\n'):
                    if y.endswith(u) and not x.endswith(u):
                        y = y[:-len(u)]
                if b.code != 0 or (a.code == 0 and not x.startswith(y)):
                    V.append(("result", "after the limit expired: %s" % self.diff(a, b)))
        elif not same and not noisy:
            V.append(("result", "compilation was not stopped, but %s" % self.diff(a, b)))
        # promptness: own models only, whose unstoppable stretches are known
        if case["model"] in OWN and not case["inject"]:
            K = int(case["T"] * MS / self.cost(case, a.steps))
            over = b.steps - K
            if stopped and over > 700000:
                V.append(("late", "compilation went on for %d of %d allocations after the limit had expired" % (over, a.steps)))
            if not stopped and over > max(450000, 0.4 * a.steps):
                V.append(("not stopped", "compilation went on to its end for %d of %d allocations after the limit had expired" % (over, a.steps)))
        return V

    def diff(self, a, b):
        if a.code != b.code:
            return "exit code %d instead of %d: %r %r" % (b.code, a.code, b.out[-200:], b.err[-200:])
        if a.out != b.out or a.err != b.err:
            return "output %r instead of %r (errors %r, %r)" % (b.out[-300:], a.out[-300:], b.err[-200:], a.err[-200:])
        return "files %s differ" % sorted(f for f in set(a.files) | set(b.files) if files(a).get(f) != files(b).get(f))

    def reduce(self, case):
        if case["inject"]:
            yield dict(case, inject=[])
        if case.get("ST"):
            yield dict(case, ST=None)
        if case["args"]:
            yield dict(case, args=case["args"][1:] if case["args"][0] != "-G" else case["args"][2:])
