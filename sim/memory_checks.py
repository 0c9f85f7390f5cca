"""P13: running out of memory never yields a wrong result or hidden failure."""
import re
from engine import Check
from simlib import Prefix, MS, S, hx
from gc_checks import MODELS, CORPUS, GECODE, model_prefix, solutions
from worlds import WORLDS
import process_checks
import workloads as W

SPREE = [1, 1, 1, 1, 2, 5, 40, 10 ** 9]
VARIANTS = [[], [], [], ["--two-pass"], ["-G", "linear"], ["-O3"], ["--json-stream"], ["-v", "-s"], ["--keep-paths"]]


class P13(Check):
    id = "P13"
    quick_units, thorough_units = 120, 5000
    quick_cap, thorough_cap = 45, 1200
    memo = True
    cache_size = 3
    rule = "A case is one run of the driver (compiling, solving with the linked Gecode, or processing the output of a scripted solver) in which a chosen memory allocation of the product fails, once, several times or from then on; non-trivial if it failed."
    assumptions = ["allocations by libc itself do not fail; those through malloc, calloc, realloc and operator new of the product do",
                   "allocations in solver library code (Gecode, Cbc) fail as well: abnormal termination counts as reported failure"] + Check.assumptions

    def unit(self, rng, index, tier):
        kind = index % 5
        n = 24 if tier == "quick" else 60
        if kind in (0, 1):          # output processing
            name = list(WORLDS)[(index // 5 * 2 + kind) % len(WORLDS)]
            w = WORLDS[name]
            snap = rng.choice(["fork", "fork", "join"])
            script = w.script(dt=rng.choice([0, 1000, 2 * MS]))
            for _ in range(n):
                hi = rng.choice([60, 400, 3000]) if snap == "fork" else 6000
                yield {"world": name, "snap": snap, "script": script, "fail": rng.randint(1, hi), "n": rng.choice(SPREE), "seed": rng.randint(1, 99)}
            return
        args = list(rng.choice(VARIANTS))
        if kind in (2, 3):
            name = rng.choice(list(MODELS))
            model, can = "@" + name, name != "j_float"
        else:
            e = CORPUS[rng.randrange(len(CORPUS))]
            model, args, can = e[0], e[1] + args, e[4]
        how = rng.choice(["compile", "compile", "solve", "print"]) if can else "compile"
        if how != "compile":
            args = []
        at = rng.choice([rng.randint(0, 500000), rng.randint(0, 500000), 505000, 507500, 520000, rng.randint(505000, 600000), rng.randint(505000, 900000), rng.choice([0, 100, 3000])])
        for _ in range(n):
            yield {"model": model, "args": args, "how": how, "at": at, "fail": rng.randint(1, rng.choice([100, 2000, 30000])), "n": rng.choice(SPREE), "seed": 1}

    def execs(self, case):
        fail = "allocfail %d %d" % (case["fail"], case["n"])
        if case.get("stream"):
            fail = "allocstream\n" + fail
        if "world" in case:
            w = WORLDS[case["world"]]
            p = w.prefix(snap=case["snap"])
            L = ["seed %d" % case["seed"]] + case["script"]
            return [(p, L), (p, L + fail.split("\n"))]
        a = model_prefix(case["model"], case["args"], case["how"])
        b = model_prefix(case["model"], case["args"], case["how"], "step %d" % case["at"] if case["at"] else "start")
        return [(a, ["seed 1", "cpu 60"]), (b, ["seed 1", "cpu 60", "maxsteps 40000000"] + fail.split("\n"))]

    def nontrivial(self, case, rs):
        return bool(rs[1].fired())

    def fingerprint(self, case, rs):
        return rs[1].key()

    def probe(self, case, rs):
        a, b = rs
        if not b.fired():
            return ["nothing failed"]
        P = ["world:" + case["world"] if "world" in case else "how:" + case["how"]]
        P.append("survived" if b.kind == "EXIT" and b.code == a.code == 0 else "error" if b.kind == "EXIT" else "abnormal %s" % b.kind)
        return P

    def judge(self, case, rs):
        a, b = rs
        if a.kind != "EXIT" or not b.fired():
            return []
        if b.kind in ("DEADLOCK", "BUDGET", "CPU"):
            return [("hang", "the driver does not end (%s)" % b.kind)]
        V = self.verdict(case, a, b)
        if V and "allocfail-stream" in b.fired():
            return [("swallowed", "a failing allocation below a stream operation: " + V[0][1])]
        return V

    def verdict(self, case, a, b):
        V = []
        x, y = W.TIME.sub(b"", a.out), W.TIME.sub(b"", b.out)
        noisy = "-s" in case.get("args", ()) or "-v" in case.get("args", ())
        if b.kind == "EXIT" and b.code == 0:
            if a.code != 0:
                return [("success", "exit code 0 instead of %d" % a.code)]
            x, y = self.without_failed_reports(x, y)
            if x != y and not noisy:
                V.append(("output", "exit code 0 but the output is %r instead of %r" % (y[-400:], x[-400:])))
            if a.err != b.err and not noisy:
                V.append(("messages", "exit code 0 but the error output is %r instead of %r" % (b.err[-300:], a.err[-300:])))
            for f in sorted(set(a.files) | set(b.files)):
                if a.files.get(f) != b.files.get(f):
                    V.append(("files", "exit code 0 but %s differs" % f))
            if b.exl("left"):
                V.append(("left", "exit code 0 but something was left behind: %s" % b.exl("left")[:2]))
            return V
        # failed: what was printed as an answer must still be the truth
        # (2 is the exit code of the scanner's fatal error, whose message does not go through the streams)
        if b.kind == "EXIT" and b.code != 2 and not b.err.strip() and b'"error"' not in b.out and b"=====ERROR=====" not in b.out and a.code == 0:
            V.append(("silent", "exit code %d without an error message" % b.code))
        if not noisy:
            pa, sa, ta = solutions(x)
            pb, sb, tb = solutions(y)
            if pb != pa[:len(pb)]:
                V.append(("solutions", "wrong solutions in the output of a failed run: %r" % y[-400:]))
            bad = [s for s in sb if s not in sa and s not in (b"=====UNKNOWN=====", b"=====ERROR=====")]
            if bad or (b"==========" in sb and len(pb) < len(pa)):
                V.append(("status", "status %r in the output of a failed run: %r" % (bad, y[-400:])))
        return V

    REPORT = re.compile(rb"^% Solution checker report:\n((?:% [^\n]*\n)*)", re.M)

    def without_failed_reports(self, x, y):
        """A failure is reported in place of the checker's report."""
        X, Y = list(self.REPORT.finditer(x)), list(self.REPORT.finditer(y))
        if len(X) != len(Y):
            return x, y
        for p, q in reversed(list(zip(X, Y))):
            if not q.group(1).startswith(b"% sum ") and q.group(1).strip(b"% \n"):
                x, y = x[:p.start()] + x[p.end():], y[:q.start()] + y[q.end():]
        return x, y

    def reduce(self, case):
        if case["n"] > 1:
            yield dict(case, n=1)
        if case.get("args"):
            yield dict(case, args=[])
        if case.get("how", "compile") != "compile":
            yield dict(case, how="compile")
