"""P17: a time limit only truncates the answer of a solver linked into the driver."""
import json, re
from engine import Check
from simlib import Prefix, MS, S, hx
from gc_checks import GECODE
import workloads as W

QUEENS = '''int: n = 7; include "all_different.mzn"; array[1..n] of var 1..n: q;
constraint all_different(q) /\\ all_different(i in 1..n)(q[i] + i) /\\ all_different(i in 1..n)(q[i] - i);
solve :: int_search(q, first_fail, indomain_min, complete) satisfy; output ["q=\\(q)\\n"];
'''
KNAP = '''int: n = 13; array[1..n] of int: w = [(i*37+11) mod 29 + 5 | i in 1..n]; array[1..n] of int: p = [(i*53+7) mod 31 + 3 | i in 1..n];
array[1..n] of var 0..1: x; var 0..1000: v = sum(i in 1..n)(p[i]*x[i]); constraint sum(i in 1..n)(w[i]*x[i]) <= 90;
solve maximize v; output ["x=\\(x) v=\\(v)\\n"];
'''
PIGEON = '''int: n = 6; array[1..n] of var 1..n-1: x; constraint forall(i, j in 1..n where i < j)(x[i] != x[j]); solve satisfy; output ["x=\\(x)\\n"];
'''
SETS = '''var set of 1..5: s; var set of 1..5: t; var bool: b; var 0..5: c; constraint c = card(s intersect t) /\\ (b <-> 3 in s) /\\ s subset t \\/ c = 2; constraint card(t) = 3;
solve satisfy; output ["s=\\(s) t=\\(t) b=\\(b) c=\\(c)\\n"];
'''
TOUR = '''include "circuit.mzn"; int: n = 6; array[1..n, 1..n] of int: d = array2d(1..n, 1..n, [(i*7 + j*11 + i*j*3) mod 17 + 1 | i, j in 1..n]);
array[1..n] of var 1..n: s; constraint circuit(s); var 0..200: len = sum(i in 1..n)(d[i, s[i]]);
solve :: int_search(s, input_order, indomain_max, complete) minimize len; output ["s=\\(s) len=\\(len)\\n"];
'''
FLOATS = '''var 0.0..4.0: x; var 0..12: k; constraint x = 0.25 * k /\\ k mod 3 != 1; solve maximize x - 0.5 * k + 3.0 * bool2int(k = 9); output ["k=\\(k) x=\\(x)\\n"];
'''
MIX = '''int: n = 9; array[1..n] of var 0..4: x; constraint forall(i in 1..n-1)(x[i] + x[i+1] <= 5); constraint sum(i in 1..n)(i * x[i]) <= 70; constraint forall(i in 1..n-2)(x[i] != x[i+2]);
var int: o = sum(i in 1..n)((i mod 4 + 1) * x[i]); solve maximize o; output ["x=\\(x) o=\\(o)\\n"];
'''
SPLIT = '''array[1..10] of var 0..1: x; constraint sum(i in 1..10)([13,27,38,41,55,62,74,88,91,30][i]*x[i]) = 260; constraint sum(i in 1..10)([11,9,44,32,17,61,29,38,72,5][i]*x[i]) >= 100;
solve minimize sum(i in 1..10)([5,3,8,1,9,2,7,4,6,10][i]*x[i]); output ["x=\\(x)\\n", "o=\\(sum(i in 1..10)([5,3,8,1,9,2,7,4,6,10][i]*x[i]))\\n"];
'''
NOCONS = 'var 1..4: x; var bool: b; solve satisfy; output ["x=\\(x) b=\\(b)\\n"];\n'
# name -> (model, solvers, kind)
PROBLEMS = {"queens": (QUEENS, "g", "sat"), "knap": (KNAP, "gc", "opt"), "pigeon": (PIGEON, "gc", "sat"), "sets": (SETS, "g", "sat"), "tour": (TOUR, "gc", "opt"),
            "mix": (MIX, "gc", "opt"), "split": (SPLIT, "gc", "opt"), "nocons": (NOCONS, "g", "sat"), "floats": (FLOATS, "c", "opt"), "queensc": (QUEENS.replace("n = 7", "n = 5"), "c", "sat")}
BEST = {}
CHECKER = {"knap": 'array[int] of int: x; int: v; output ["checked \\(sum(x)) \\(v)\\n"];\n', "queens": 'array[int] of int: q; output ["checked \\(sum(q))\\n"];\n'}
FINAL = {b"==========": "COMPLETE", b"=====UNSATISFIABLE=====": "UNSAT", b"=====UNKNOWN=====": "UNKNOWN", b"=====ERROR=====": "ERROR", b"=====UNBOUNDED=====": "UNBOUNDED", b"=====UNSATorUNBOUNDED=====": "UORU"}
JFINAL = {"ALL_SOLUTIONS": "COMPLETE", "OPTIMAL_SOLUTION": "COMPLETE", "UNSATISFIABLE": "UNSAT", "UNKNOWN": "UNKNOWN", "SATISFIED": None, "ERROR": "ERROR"}


def answer(out, js):
    """(solutions, statuses, remaining lines) of the output."""
    sols, fin, rest = [], [], []
    if js:
        for l in out.split(b"\n"):
            if not l.strip():
                continue
            try:
                m = json.loads(l)
            except ValueError:
                rest.append(l)
                continue
            if m.get("type") == "solution":
                sols.append(m["output"].get("default") if "default" in m["output"] else json.dumps(m["output"], sort_keys=True))
            elif m.get("type") == "status":
                fin.append(JFINAL.get(m["status"], m["status"]))
            elif m.get("type") not in ("statistics", "checker"):
                rest.append(l)
        return sols, [f for f in fin if f], rest
    cur = []
    for l in out.split(b"\n"):
        if l.startswith((b"%%%mzn-stat", b"% time elapsed", b"% Generated FlatZinc statistics")):
            continue
        if l == b"----------":
            sols.append(b"\n".join(cur).decode())
            cur = []
        elif l in FINAL:
            fin.append(FINAL[l])
        elif fin and l:
            rest.append(l)
        else:
            cur.append(l)
    return sols, fin, rest + [l for l in cur if l]


class P17(Check):
    id = "P17"
    quick_units, thorough_units = 140, 6000
    quick_cap, thorough_cap = 45, 1200
    memo = True
    cache_size = 6
    rule = "A case is one model solved by the linked Gecode or Cbc, under a time limit whose expiry is placed at a chosen operation of the run (by a sudden leap of simulated time) or follows from the cost of operations; non-trivial if the limit expired before the run without a limit would have ended."
    assumptions = ["simulated time passes with allocations and system calls, among them the reading of clocks", "Gecode and Cbc are the installed libraries and run one thread",
                   "Cbc may take a different path once its limit has expired, but its solutions are feasible and its claims of optimality true"] + Check.assumptions

    def unit(self, rng, index, tier):
        names = list(PROBLEMS)
        name = names[index % len(names)]
        model, solvers, kind = PROBLEMS[name]
        g = "g" in solvers and (solvers == "g" or rng.random() < 0.6)
        args = []
        if g:
            args += rng.choice([["-a"], ["-a"], ["-a"], [], ["-n", str(rng.randint(1, 9))], ["-i"] if kind == "opt" else ["-a"]])
            args += rng.choice([[], [], [], [], ["--sac"], ["--shave"], ["--c_d", "1"], ["--fail", str(rng.randint(1, 300))], ["--node", str(rng.randint(1, 600))]])
        else:
            args += rng.choice([["-i"], ["-i"], []]) if kind == "opt" else []
            args += rng.choice([[], [], [], ["--cbc-flags", "-preprocess off"], ["--cbc-flags", "-cuts off -heur off"], ["--cbc-flags", "-preprocess off -cuts off -heur off -presolve off"]])
        args += rng.choice([[], [], [], ["-s"], ["-v"]])
        js = rng.random() < 0.2
        chk = name in CHECKER and rng.random() < 0.25
        T = rng.choice([1, 5, 50, 1000, 10000])
        tl = "--solver-time-limit" if rng.random() < 0.75 else "--time-limit"
        base = {"model": name, "solver": "g" if g else "c", "args": args, "js": js, "chk": chk, "tl": tl}
        n = 5 if tier == "quick" else 10
        for k in range(n):
            c = dict(base, T=rng.choice([1000, 60000]) if tl == "--time-limit" else T, seed=rng.randint(1, 99))
            m = rng.random()
            if m < 0.7:         # the limit expires at one point
                c.update(mode="leap", at=round(rng.choice([rng.uniform(0.2, 1.0), 1 - 10 ** rng.uniform(-3.5, -0.7), 1 - 10 ** rng.uniform(-3.5, -0.7)]), 5), what=rng.choice(["op", "op", "op", "step"]))
            elif m < 0.85:      # a slow machine: the limit expires where it does
                c.update(mode="slow", at=round(rng.uniform(0.3, 1.1), 4))
            else:
                c.update(mode="never", T=rng.choice([10 ** 7, 2 ** 31, 10 ** 12]))
            yield c

    def prefix(self, case, limit, extra=()):
        model = PROBLEMS[case["model"]][0]
        f = {"home/": None, "m.mzn": model}
        a = ["--solver", GECODE if case["solver"] == "g" else "cbc"] + list(limit) + case["args"] + list(extra) + ["m.mzn"]
        if case["js"]:
            a.append("--json-stream")
        if case["chk"]:
            f["c.mzc.mzn"] = CHECKER[case["model"]]
            a.append("c.mzc.mzn")
        return Prefix(a, f, {}, snap="start")

    def execs(self, case):
        L = ["seed 1", "cpu 60", "maxsteps 60000000", "maxops 3000000", "opcost 1000 1000", "alloccost 100"]
        never = [case["tl"], "1000000000"]
        if case["mode"] == "never":
            return [(self.prefix(case, []), L), (self.prefix(case, [case["tl"], str(case["T"])]), L)]

        def limited(rs):
            b = rs[0]
            if case["mode"] == "leap":
                x = int((b.ops if case["what"] == "op" else b.steps) * case["at"])
                return [l for l in L if not l.startswith("seed")] + ["seed %d" % case["seed"], "stall %s %d %d" % (case["what"], x, (case["T"] + 1000) * MS)]
            # time per allocation and operation such that the limit expires after about this fraction of the run
            u = max(1, int(case["T"] * MS / max(1, (b.steps / 10 + b.ops) * case["at"])))
            return L[1:4] + ["seed %d" % case["seed"], "opcost %d %d" % (u, u), "alloccost %d" % max(1, u // 10)]
        ex = [(self.prefix(case, never), L), (self.prefix(case, [case["tl"], str(case["T"])]), limited)]
        if self.reference(case):
            ex.append((self.prefix(dict(case, args=self.reference(case)), []), L))
        return ex

    def reference(self, case):
        """Arguments of the run that shows all improving solutions."""
        a = case["args"]
        if PROBLEMS[case["model"]][2] == "opt" and case["solver"] == "g" and not ({"-a", "-i", "-n"} & set(a)):
            return ["-a"] + a
        return None

    def nontrivial(self, case, rs):
        return case["mode"] != "never" and rs[1].key() != rs[0].key()

    def fingerprint(self, case, rs):
        return rs[1].key()

    def probe(self, case, rs):
        a, b = rs[:2]
        sols, fin, _ = answer(b.out, case["js"])
        bs = answer(a.out, case["js"])[0]
        return ["%s:%s" % (case["solver"], case["model"]), case["mode"], "complete" if fin == answer(a.out, case["js"])[1] and len(sols) == len(bs) else "%s of the solutions, %s" % ("none" if not sols else "part" if len(sols) < len(bs) else "all", fin)]

    def judge(self, case, rs):
        a, b = rs[:2]
        js = case["js"]
        if a.kind != "EXIT" or a.code != 0:
            return [("base", "the run without expiry ended with %s %d: %s" % (a.kind, a.code, a.err[-300:]))]
        if b.kind != "EXIT":
            return [("end", "the driver ended with %s %d under a time limit: %r" % (b.kind, b.code, b.err[-300:]))]
        if b.code != a.code:
            return [("exit", "exit code %d instead of %d: %r %r" % (b.code, a.code, b.out[-300:], b.err[-300:]))]
        V = []
        noisy = "-s" in case["args"] or "-v" in case["args"]
        if case["mode"] == "never":
            if not noisy and (a.out != b.out or a.err != b.err):
                V.append(("no expiry", "the limit did not expire, but the output is %r instead of %r (errors %r, %r)" % (b.out[-300:], a.out[-300:], b.err[-200:], a.err[-200:])))
            elif noisy and answer(a.out, js) != answer(b.out, js):
                V.append(("no expiry", "the limit did not expire, but the output is %r instead of %r" % (b.out[-300:], a.out[-300:])))
            return V
        sa, fa, ra = answer(a.out, js)
        sb, fb, rb = answer(b.out, js)
        if case["chk"] and not js:
            strip = lambda ss: ["\n".join(l for l in s.split("\n") if not l.startswith("%")) for s in ss]
            chk = lambda ss: [re.findall(r"% checked[^\n]*", s) for s in ss]
            if chk(sb) != chk(sa)[:len(sb)] and case["solver"] == "g" and not self.reference(case):
                V.append(("checked", "reports of the checker %s instead of a beginning of %s" % (chk(sb), chk(sa))))
            sa, sb = strip(sa), strip(sb)
        limits = {"--fail", "--node"} & set(case["args"])
        whole = sb == sa and fb == fa
        if not whole:
            # text: no status after solutions; "unknown" if there are none
            want = [["UNKNOWN"]] if not sb else [[], ["UNKNOWN"]] if js else [[]]
            if fb not in want:
                V.append(("status", "status %s after %d of %d solutions of a search that the limit ended" % (fb, len(sb), len(sa))))
            if fa == ["UNSAT"] and sb:
                V.append(("solution", "solutions %s of an unsatisfiable problem" % sb[:3]))
        if [l for l in rb if l not in ra]:
            V.append(("text", "unexpected output %r" % rb[:5]))
        if case["solver"] == "g":
            if self.reference(case):
                sr = answer(rs[2].out, js)[0]
                if case["chk"] and not js:
                    sr = strip(sr)
                if len(sb) > 1 or sb and sb[0] not in sr:
                    V.append(("solution", "printed %r, which is not one of the improving solutions %r" % (sb, sr)))
                if sb and "COMPLETE" in fb and not limits and sb[-1:] != sr[-1:]:
                    V.append(("optimal", "printed %r as the optimum instead of %r" % (sb, sr[-1])))
            elif sb != sa[:len(sb)]:
                V.append(("solution", "printed %s, which is no beginning of %s" % (sb[-3:], sa[:len(sb)][-3:])))
        else:
            val = [self.feasible(case, s) for s in sb]
            if None in val:
                V.append(("solution", "not a solution: %r" % sb[val.index(None)]))
            elif PROBLEMS[case["model"]][2] == "opt":
                sign = -1 if "minimize" in PROBLEMS[case["model"]][0] else 1
                if any(sign * y <= sign * x for x, y in zip(val, val[1:])):
                    V.append(("order", "objective values %s are not improving" % val))
                best = self.feasible(case, sa[-1]) if sa and fa == ["COMPLETE"] else None
                if best is not None and val and sign * val[-1] > sign * best + 1e-6:
                    V.append(("optimal", "the run without expiry printed %s as the optimum, but %s is better" % (best, val[-1])))
                if "COMPLETE" in fb and best is not None and (not val or abs(val[-1] - best) > 1e-6):
                    V.append(("optimal", "objective values %s printed as if the last were the optimum, which is %s" % (val, best)))
        if case["mode"] == "leap" and case["solver"] == "g" and "--sac" not in case["args"] and "--shave" not in case["args"]:
            # progress: work after the leap
            x = int((a.ops if case["what"] == "op" else a.steps) * case["at"])
            over = (b.ops if case["what"] == "op" else b.steps) - x
            if not whole and not case["chk"] and over > (400 if case["what"] == "op" else 60000) + 60 * len(sb) and case["at"] > 0.9:
                V.append(("late", "the search went on for %d %ss after the limit" % (over, case["what"])))
        return V

    def feasible(self, case, s):
        """Objective value (or 0) of a printed solution, None if it is no solution."""
        m = case["model"]
        if s.startswith("{"):
            return None
        nums = lambda n: [int(v) for v in re.search(n + r"=\[([-\d, ]*)\]", s).group(1).split(",")]
        try:
            if m == "knap":
                x = nums("x")
                w, p = [(i * 37 + 11) % 29 + 5 for i in range(1, 14)], [(i * 53 + 7) % 31 + 3 for i in range(1, 14)]
                v = int(re.search(r"v=(\d+)", s).group(1))
                return v if sum(a * b for a, b in zip(w, x)) <= 90 and v == sum(a * b for a, b in zip(p, x)) and set(x) <= {0, 1} else None
            if m == "mix":
                x = nums("x")
                o = int(re.search(r"o=(-?\d+)", s).group(1))
                ok = all(x[i] + x[i + 1] <= 5 for i in range(8)) and sum((i + 1) * v for i, v in enumerate(x)) <= 70 and all(x[i] != x[i + 2] for i in range(7)) and all(0 <= v <= 4 for v in x)
                return o if ok and o == sum(((i + 1) % 4 + 1) * v for i, v in enumerate(x)) else None
            if m == "split":
                x = nums("x")
                o = int(re.search(r"o=(-?\d+)", s).group(1))
                A, B, C = [13, 27, 38, 41, 55, 62, 74, 88, 91, 30], [11, 9, 44, 32, 17, 61, 29, 38, 72, 5], [5, 3, 8, 1, 9, 2, 7, 4, 6, 10]
                dot = lambda k: sum(a * b for a, b in zip(k, x))
                return o if dot(A) == 260 and dot(B) >= 100 and dot(C) == o else None
            if m == "tour":
                x = nums("s")
                l = int(re.search(r"len=(\d+)", s).group(1))
                seen, k = [], 1
                for _ in range(6):
                    seen.append(k)
                    k = x[k - 1]
                return l if sorted(seen) == list(range(1, 7)) and k == 1 and l == sum((i * 7 + j * 11 + i * j * 3) % 17 + 1 for i, j in enumerate(x, 1)) else None
            if m == "floats":
                k = int(re.search(r"k=(\d+)", s).group(1))
                x = float(re.search(r"x=([-\d.e]+)", s).group(1))
                return x - 0.5 * k + 3.0 * (k == 9) if abs(x - 0.25 * k) < 1e-6 and k % 3 != 1 and 0 <= x <= 4.0001 else None
            if m == "queensc":
                q = nums("q")
                return 0 if len(set(q)) == len({v + i for i, v in enumerate(q)}) == len({v - i for i, v in enumerate(q)}) == 5 else None
            return 0 if m != "pigeon" else None
        except AttributeError:
            return None

    def reduce(self, case):
        if case["chk"]:
            yield dict(case, chk=False)
        if case["js"]:
            yield dict(case, js=False)
        for i in range(len(case["args"])):
            if case["args"][i].startswith("-") and case["args"][i] in ("-s", "-v", "--sac", "--shave"):
                yield dict(case, args=case["args"][:i] + case["args"][i + 1:])
