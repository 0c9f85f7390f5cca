"""P21: unsatisfiable cores are reported in terms of the model's assumptions."""
import re
from simlib import Prefix, MS, hx
import workloads as W
from workloads import FAMS, Fam, Ref, conf, prefix, delivery, base_lines, stream
from stream_checks import StreamCheck, gen_records, gen_opts, gen_cuts, gen_end, limit_args, check_stream, DELAYS, gen_inject

LIB = {"lib/experimental/assume/fzn_assume.mzn": "predicate fzn_assume(array [int] of var bool: b :: promise_ctx_monotone);\n"}
PRE = 'include "experimental/assume.mzn";\n'


class CoreFam(Fam):
    """A model with assumptions.  calls: for every assume, the texts of its elements (None: fixed to true and left out)."""

    def __init__(self, name, model, calls, obj=None, free=False):
        self.name, self.model, self.calls, self.objective, self.opt, self.free = name, PRE + model, calls, obj, obj is not None, free

    def sol(self, rng):
        return [rng.randint(1, 9)]

    def text(self, v):
        return "x = %d;\n" % v[0]

    def show(self, v):
        return "x=%d\n" % v[0]


X = 'var 1..10: x; var 1..10: y; var 1..10: z; var bool: p; var bool: q; var bool: r;\n'
OUT = 'output ["x=\\(x)\\n"];\n'
CORE_FAMS = [
    CoreFam("c_lin", X + "constraint assume([x + y < 5, x > 8, p, x + y < 5 \\/ q, not r, true, y in {1,3,5}, 2 < 3, x = y]);\nsolve satisfy;\n" + OUT,
            [["x+y < 5", "x > 8", "p", "x+y < 5 \\/ q", "not r", None, "y in {1,3,5}", None, "x = y"]]),
    CoreFam("c_named", X + "array[int] of var bool: asmp = [x < 3, x > y, q];\nconstraint assume(asmp);\nsolve satisfy;\n" + OUT, [["x < 3", "x > y", "q"]]),
    CoreFam("c_norhs", X + "array[2..4] of var bool: b;\nconstraint b[3] -> x < 3;\nconstraint b[2] -> x > 7;\nconstraint assume(b);\nconstraint assume([b[4] \\/ p]);\nsolve satisfy;\n" + OUT, [["b[2]", "b[3]", "b[4]"], ["b[4] \\/ p"]]),
    CoreFam("c_fun", X + "function array [int] of var bool: asmp(var int: v) = [v < 3, v > 8, v = y];\nconstraint assume(asmp(x));\nconstraint assume(asmp(z));\nsolve satisfy;\n" + OUT,
            [["asmp(x)[1]", "asmp(x)[2]", "asmp(x)[3]"], ["asmp(z)[1]", "asmp(z)[2]", "asmp(z)[3]"]]),
    CoreFam("c_comp", X + "constraint assume([x != i + y | i in 1..3]);\nconstraint assume([x > y * i | i in 2..3]);\nsolve satisfy;\n" + OUT,
            [["[x!=i+y | i in 1..3][%d]" % i for i in (1, 2, 3)], ["[x > y*i | i in 2..3][%d]" % i for i in (1, 2)]]),
    CoreFam("c_same", X + "constraint p = q;\nconstraint assume([p, q, x > 3, r, x > 3]);\nconstraint assume([r, q]);\nconstraint q -> x > 8;\nsolve satisfy;\n" + OUT, [["p", "q", "x > 3", "r", "x > 3"], ["r", "q"]]),
    CoreFam("c_new", X + "constraint assume([let { var 1..3: k } in k < x, if p then x = 5 else y = 2 endif, exists(i in 1..3)(x = i * y), [x, y, z][z mod 3 + 1] > 4, let { var 1..4: k = x mod 4 + 1 } in k > y]);\nsolve satisfy;\n" + OUT,
            [["let {var 1..3: k} in (k < x)", "if p then x==5 else y==2 endif", "exists([x==i*y | i in 1..3])", "[x,y,z][z mod 3+1] > 4", "let {var 1..4: k = x mod 4+1} in (k > y)"]]),
    CoreFam("c_opt", X + "constraint assume([x + y < 5, p, z > x]);\nsolve maximize x * y + z;\n" + OUT, [["x+y < 5", "p", "z > x"]], "x*y+z"),
    CoreFam("c_text", X + 'predicate named(string: s, var int: v) = v < 8 \\/ v + x = 3;\nconstraint assume([named("a\\"b\\\\c", y), named("\u00e9 \u2713\\n", z), x > 2]);\nsolve satisfy;\n' + OUT,
            [['named("a\\"b\\\\c",y)', 'named("\u00e9 \u2713\\n",z)', "x > 2"]]),
    CoreFam("c_many", X + "array[1..40] of var 0..9: a;\nconstraint assume([a[i] > a[i+1] | i in 1..39]);\nconstraint assume([a[1] + a[2] > x, a[40] < y]);\nsolve satisfy;\n" + OUT,
            [["[a[i] > a[i+1] | i in 1..39][%d]" % i for i in range(1, 40)], ["a[1]+a[2] > x", "a[40] < y"]]),
    CoreFam("c_fixed", X + "constraint x = 4;\nconstraint r;\nconstraint assume([y > 3, r, p]);\nconstraint p -> y < 5;\nsolve satisfy;\n" + OUT, [["y > 3", "r", "p"]], free=True),
]
for f in CORE_FAMS:
    W.MORE[f.name] = f
NAMES = [f.name for f in CORE_FAMS]
FLAGS = [[], [], [], [], ["-O0"], ["-O2"], ["--two-pass"], ["--no-optimize"], ["--keep-paths"], ["-O3"]]


def norm(t):
    return re.sub(r"[\s()]", "", t).replace("==", "=")


def variables(fzn):
    """The arrays of the fzn_assume constraints, and the objective."""
    t = fzn.decode()
    arr = {m.group(1): m.group(2) for m in re.finditer(r"^array \[[^]]*\] of var bool: (\w+)[^=\n]*= \[([^]]*)\];", t, re.M)}
    calls = []
    for m in re.finditer(r"^constraint fzn_assume\((?:\[([^]]*)\]|(\w+))\)", t, re.M):
        b = m.group(1) if m.group(2) is None else arr[m.group(2)]
        calls.append([x for x in b.split(",") if x])
    m = re.search(r"^solve .*(?:maximize|minimize) +(\w+);", t, re.M)
    return calls, m and m.group(1)


class CoreRef(Ref):
    def __init__(self, fam, opts, records, fzn):
        Ref.__init__(self, fam, opts, records)
        calls, obj = variables(fzn)
        self.calls, self.problem, self.flat = calls, None, []
        self.cores, alias = {}, {}
        want = [[norm(t) for t in c if t is not None] for c in fam.calls]
        texts = sorted({t for c in want for t in c})
        if fam.free:                # which of them are fixed is the compiler's business
            names = {v for c in calls for v in c if re.fullmatch(r"[A-Za-z_]\w*", v) and v not in ("true", "false")}
            self.flat = sorted(names)
            self.cores = {n: None for n in names}
        elif [len(c) for c in calls] != [len(c) for c in want]:
            self.problem = "the FlatZinc assumes %s, the model %s" % (calls, fam.calls)
        else:
            for c, w in zip(calls, want):
                for v, t in zip(c, w):
                    self.flat.append(v)
                    r = self.cores.setdefault(v, t)
                    if r != t:
                        alias[t] = r
        if obj and fam.objective:
            self.cores[obj] = norm(fam.objective)
        self.alias = alias
        self.known = sorted(texts + ([norm(fam.objective)] if fam.objective else []), key=len, reverse=True)
        self.objective = obj

    def spell(self, t):
        t = norm(t)
        return self.alias.get(t, t)

    def core(self, payload):
        """What must be printed for the names in a core."""
        b = payload.strip(" \t\r\n")
        if b[:1] == "[" and b[-1:] == "]":
            b = b[1:-1]
        r = []
        for t in b.split(","):
            t = t.strip(" \t\r\n")
            if t:
                m = re.match(r"[A-Za-z_]\w*", t, re.A)
                e = self.cores.get(m.group(0)) if m else None
                r.append(self.spell(e + t[m.end():] if e else t))
        return r

    def respell(self, out):
        """Core lines of a plain text in the spelling of core()."""
        def line(m):
            b, r = norm(m.group(1)), []
            while b:
                for k in self.known:
                    if b.startswith(k) and (len(b) == len(k) or b[len(k)] in ",<>=!"):
                        n = len(k)
                        break
                else:
                    n = 0
                e = b.find(",", n)
                e = len(b) if e < 0 else e
                r.append(self.spell(b[:e]))
                b = b[e + 1:]
            return "%%%mzn-core: [" + ", ".join(r) + "]\n"
        return re.sub(r"^%%%mzn-core: \[(.*)\]\n", line, out, flags=re.M)


def with_names(case, ref):
    """The records with the names of this compilation in the core lines."""
    recs = []
    for r in case["records"] + []:
        if r[0] == "core":
            P = []
            for k in r[1]:
                if isinstance(k, int):
                    P.append(ref.flat[k % len(ref.flat)] if ref.flat else "X_INTRODUCED_0_")
                elif k.startswith("OBJ"):
                    P.append((ref.objective or "x") + k[3:])
                else:
                    P.append(k)
            recs.append(["comment", "%%%mzn-core: " + r[2][0] + r[2][1].join(P) + r[2][2]])
        else:
            recs.append(r)
    return dict(case, records=recs)


class P21(StreamCheck):
    id = "P21"
    quick_units, thorough_units = 88, 3000
    quick_cap = 30
    rule = "A case is one solver stream with unsatisfiable cores over the variables the compiled model assumes, delivered under one schedule and ended in one way; it is non-trivial if at least one core was received."
    assumptions = ["the solver names the variables of its own FlatZinc, which is that of a compilation with the same options", "spaces, parentheses and the spelling of = in a reported expression are not compared"] + StreamCheck.assumptions

    def unit(self, rng, index, tier):
        fam = CORE_FAMS[index % len(CORE_FAMS)]
        n = sum(t is not None for c in fam.calls for t in c)
        opts, args = gen_opts(rng)
        flags = rng.choice(FLAGS)
        for rno in range(3):
            recs = gen_records(rng, fam, opts, nmax=2)
            k0 = opts.get("ignore", 0)
            for _ in range(rng.choice([1, 1, 1, 2, 4])):
                ks = rng.sample(range(n), min(n, rng.choice([1, 1, 2, 3, n])))
                if rng.random() < 0.3:
                    ks.insert(rng.randint(0, len(ks)), rng.choice(["OBJ >= 7", "OBJ<3", "X_INTRODUCED_9999_", "zz >= 3", "true", "7", "p2"]) if fam.opt or rng.random() < 0.5 else "nobody")
                if rng.random() < 0.1:
                    ks = []
                st = rng.choice([("[", ", ", "]"), ("[", ", ", "]"), ("[", ",", "]"), ("", ", ", ""), (" [ ", " ,  ", " ] ")])
                recs.insert(rng.randint(k0, len(recs)), ["core", ks, list(st)])
            base = {"fam": fam.name, "opts": opts, "args": args + flags, "flags": flags, "records": recs, "eol": rng.choice([None, None, None, "crlf"])}
            m = len(stream(self.dummy(base)))
            for _ in range(5 if tier == "quick" else 12):
                c = dict(base)
                c["seed"] = rng.randint(1, 1 << 30)
                if rng.random() < 0.25:
                    c["cut"] = rng.randint(0, m)
                c["cuts"] = [] if rng.random() < 0.3 else gen_cuts(rng, stream(self.dummy(c)))
                c["delays"] = rng.choice(DELAYS)
                c["errs"] = []
                c["opcost"] = [1000, 1000]
                c["inject"] = gen_inject(rng) if rng.random() < 0.6 else []
                if rng.random() < 0.2:
                    c["inject"].append("gc prob %d" % rng.choice([1, 5, 20]))
                if rng.random() < 0.2:
                    c["closeout"] = rng.choice([1, 1000, 20 * MS])
                gen_end(rng, c, ("exit", "fail", "die") if c.get("cut") is not None else ("exit", "exit", "fail", "die", "limit", "int"))
                yield limit_args(c)

    def dummy(self, case):
        return dict(case, records=[["comment", "%%%mzn-core: " + "X" * (18 * len(r[1]))] if r[0] == "core" else r for r in case["records"]])

    def ref(self, case, r):
        return CoreRef(FAMS[case["fam"]], case["opts"], case["records"] + case.get("tail", []), r.files.get("o.fzn", b""))

    def execs(self, case):
        o, fam = case["opts"], FAMS[case["fam"]]
        k = {"mznlib": "/simwork/lib"}
        p = prefix(case, "join" if o.get("file") or o.get("raw") or o.get("noncanon") else "fork", k, LIB)
        files = {"bin/fz": "#!/bin/sh\n", "solvers/fz.msc": conf(**k), "m.mzn": fam.model, "home/": None}
        files.update(LIB)
        comp = Prefix(["--solver", "org.sim.fz", "-c", "--fzn", "/simwork/o.fzn"] + case["flags"] + ["m.mzn"], files, {"MZN_SOLVER_PATH": "/simwork/solvers"}, snap="start")

        def lines(rs):
            c = with_names(case, self.ref(case, rs[0]))
            return base_lines(c) + delivery(c)
        return [(comp, ["seed 1", "cpu 60"]), (p, lines)]

    def nontrivial(self, case, rs):
        return any(r[0] == "core" and r[1] for r in case["records"]) and b"mzn-core" in rs[1].out + rs[1].err or b'"core"' in rs[1].out

    def judge(self, case, rs):
        ref = self.ref(case, rs[0])
        if rs[0].kind != "EXIT" or rs[0].code:
            return [("compile", "the model does not compile: %r" % rs[0].err[-300:])]
        if ref.problem:
            return [("assume", ref.problem)]
        c = with_names(case, ref)
        if CORE_FREE in (case["fam"],):
            return self.free(case, c, ref, rs[1])
        return check_stream(c, rs[1], ref=ref)

    def free(self, case, c, ref, r):
        """Only that what is reported are assumptions, as many as named."""
        texts = {norm(t) for x in FAMS[case["fam"]].calls for t in x}
        out = W.outputs(c, r) if hasattr(W, "outputs") else r.out
        V = []
        for m in re.finditer(r"^%%%mzn-core: \[(.*)\]$", out.decode("utf-8", "surrogateescape"), re.M):
            for t in m.group(1).split(", "):
                if t and re.fullmatch(r"X_INTRODUCED_\d+_", t) and t in ref.flat:
                    V.append(("core", "the assumption %s is reported by its FlatZinc name" % t))
        return V

    def valid(self, case):
        return StreamCheck.valid(self, case) and all(c is None or True for c in case["records"])


CORE_FREE = "c_fixed"
