"""P18: solution checkers."""
from engine import Check
from simlib import Prefix, MS, S, hx
import workloads as W
from workloads import FAMS, Ref, prefix, delivery, base_lines, stream, compare_text, compare_json, parse_json_stream, lst
from stream_checks import StreamCheck, gen_records, gen_opts, gen_cuts, gen_end, limit_args, check_stream, DELAYS, gen_inject


class Checker:
    """A checker model and the report it must give for a solution.  show(v) -> text, or ("error", what, message, location lines), or "unsat"."""

    def __init__(self, name, fam, model, show, section="default"):
        self.name, self.fam, self.model, self.show, self.section = name, fam, model, show, section

    def report(self, v):
        s = self.show(v)
        if s == "unsat":
            return ["=====UNSATISFIABLE====="]
        if isinstance(s, tuple):
            return ["Error: %s: %s" % (s[1], s[2])] + list(s[3])
        if s and not s.endswith("\n"):
            s += "\n"
        return s.split("\n")[:-1]

    def messages(self, v):
        s = self.show(v)
        if s == "unsat":
            return [{"type": "status", "status": "UNSATISFIABLE"}]
        if isinstance(s, tuple):
            return [{"type": "error", "what": s[1], "message": s[2]}]
        return [{"type": "solution", "output": {"dzn": s} if self.section == "dzn" else {"default": s, "raw": s}}]


def many(v):
    x, a, b, f, s, e, m, eb = v
    return "x %d a %s b %s f %r s %s\nm %s e %s\neb %s\n" % (x, lst(a), "true" if b else "false", f, "{" + ",".join(map(str, s)) + "}", lst(m), "ABC"[e - 1], lst(["true" if i else "false" for i in eb]))


def at(line, col, end):
    return ["checker.mzc:%d.%d-%d" % (line, col, end), "  in call 'assert'"]


CHECKERS = [
    Checker("sum", "ints", 'int: x; int: y; output ["sum \\(x + y)\\n", if x < y then "ok" else "bad é \\"q\\" \\\\" endif];\n', lambda v: "sum %d\n%s" % (v[0] + v[1], "ok" if v[0] < v[1] else 'bad é "q" \\')),
    Checker("unsat", "ints", 'int: x; int: y; constraint x < y; output ["ok\\n"];\n', lambda v: "ok\n" if v[0] < v[1] else "unsat"),
    Checker("assert", "opt", 'int: x; int: y; constraint assert(x < y, "x too large: \\(x)"); output ["fine: \\(y - x)\\n"];\n',
            lambda v: "fine: %d\n" % (v[1] - v[0]) if v[0] < v[1] else ("error", "assertion failed", "x too large: %d" % v[0], at(5, 12, 55))),
    Checker("search", "opt", 'int: x; int: y; var 0..300: z; constraint z >= x; constraint z > y; solve minimize z; output ["z \\(z)\\n"];\n', lambda v: "z %d\n" % max(v[0], v[1] + 1)),
    Checker("part", "ints", 'int: y; output ["y only \\(y)\\n\\n%% odd\\n----------\\n"];\n', lambda v: "y only %d\n\n%%%% odd\n----------\n" % v[1]),
    Checker("all", "dzn", 'int: x; array[1..4] of int: a; bool: b; float: f; set of int: s; enum E = {A, B, C}; E: e; array[1..2,1..2] of int: mm; array[E] of bool: eb; '
            'output ["x \\(x) a \\(a) b \\(b) f \\(f) s \\(s)\\n", "m \\([mm[i,j] | i,j in 1..2]) e \\(e)\\n", "eb \\([eb[i] | i in E])\\n"];\n', many),
    Checker("dzn", "derived", 'array[1..3] of int: a; var int: t; constraint t = sum(a);\n', lambda v: "t = %d;\n" % sum(v[0]), "dzn"),
    Checker("json", "json", 'int: x; set of int: s; output ["x \\(x) in \\(s): \\(x in s)\\n"];\n', lambda v: "x %d in {%s}: %s\n" % (v[0], ",".join(map(str, v[4])), "true" if v[0] in v[4] else "false")),
    Checker("big", "big", 'array[1..700] of int: a; output ["sum \\(sum(a)) last \\(a[700])\\n"];\n', lambda v: "sum %d last %d\n" % (sum(FAMS["big"].vals(v)), FAMS["big"].vals(v)[-1])),
    Checker("nothing", "uni", 'int: x; int: y; output [];\n', lambda v: ""),
]


class P18(StreamCheck):
    id = "P18"
    quick_units, thorough_units = 60, 1500
    quick_cap = 50
    rule = "A case is one solver stream with a solution checker attached, delivered under one schedule and ended in one way; it is non-trivial if at least one solution was received."

    def unit(self, rng, index, tier):
        ck = CHECKERS[index % len(CHECKERS)]
        fam = FAMS[ck.fam]
        opts, args = gen_opts(rng)
        for rno in range(3):
            recs = gen_records(rng, fam, opts, nmax=2)
            if not any(r[0] == "sol" for r in recs):
                recs.insert(opts.get("ignore", 0), ["sol", fam.sol(rng)])
            base = {"fam": fam.name, "checker": index % len(CHECKERS), "opts": opts, "args": args, "records": recs, "eol": rng.choice([None, None, None, "crlf"])}
            n = len(stream(base))
            for _ in range(5 if tier == "quick" else 12):
                c = dict(base)
                c["seed"] = rng.randint(1, 1 << 30)
                if rng.random() < 0.3:
                    c["cut"] = rng.randint(0, n)
                data = stream(c)
                c["cuts"] = [] if rng.random() < 0.4 else gen_cuts(rng, data)
                c["delays"] = rng.choice(DELAYS)
                c["errs"] = []
                c["opcost"] = [1000, 1000]
                c["inject"] = gen_inject(rng) if rng.random() < 0.6 else []
                if rng.random() < 0.2:
                    c["inject"].append("gc prob %d" % rng.choice([1, 5, 20]))
                if rng.random() < 0.2:
                    c["closeout"] = rng.choice([1, 1000, 20 * MS])
                gen_end(rng, c, ("exit", "fail", "die") if c.get("cut") is not None else ("exit", "exit", "fail", "die", "limit", "int"))
                if c.get("cut") is not None:
                    c.pop("tail", None)
                yield limit_args(c)

    def execs(self, case):
        o = case["opts"]
        ck = CHECKERS[case["checker"]]
        p = prefix(dict(case, args=["--solution-checker", "c.mzc.mzn"] + case["args"]), "join" if o.get("file") or o.get("raw") or o.get("noncanon") else "fork", None, {"c.mzc.mzn": ck.model})
        return [(p, base_lines(case) + delivery(case))]

    def nontrivial(self, case, rs):
        return any(r[0] == "sol" for r in case["records"])

    def judge(self, case, rs):
        r = rs[0]
        o = case["opts"]
        ck = CHECKERS[case["checker"]]
        ref = Ref(FAMS[case["fam"]], o, case["records"] + case.get("tail", []), ck)
        data = stream(case) + (W.tail(case) if case["end"][2:3] == ["script"] else b"")
        want = ref.run(data, case["end"])
        r.err = b""             # messages of the checker itself
        if o.get("file"):       # reports stay on standard output, solutions go to the file
            checks = [e for e in want["events"] if e[0] == "check"]
            want["events"] = [e for e in want["events"] if e[0] != "check"]
            if o.get("json"):
                msgs, e = parse_json_stream(r.out)
                d = e or compare_json(ref, checks, msgs)
            else:
                d = compare_text(ref, checks, r.out)
            V = [("reports", d)] if d else []
            r.out = b""
            return V + check_stream(case, r, ref, want, data=data)
        return check_stream(case, r, ref, want, data=data)
