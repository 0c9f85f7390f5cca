"""P15, P16, P18, P20: solvers with other ways of handing over their results."""
import json, re
from engine import Check
from simlib import Prefix, MS, S, hx
import workloads as W
from worlds import WORLDS, World, SOL, sol_file
from process_checks import clean_up, Life, requests
from system_checks import SystemCheck, gen_schedule

BEGIN, END = b"%%%mzn-sol-begin", b"%%%mzn-sol-end"


def held(rest):
    """Length of the longest end of rest that may be the start of the marker (or of the marker with CR)."""
    m = BEGIN + b"\r"
    for k in range(min(len(rest), len(m)), 0, -1):
        if m.startswith(rest[-k:]):
            return k
    return 0


class Dialog:
    """Reference for interactive sessions: text is echoed, solution blocks are processed."""

    def __init__(self, show=lambda a: b"x=%d y=%d\n" % (a.get(b"x", 0), a.get(b"y", 0)), unique=True):
        self.show, self.unique = show, unique

    def run(self, data, final):
        out, insol, asg, seen = [], False, {}, set()
        if final and data and not data.endswith(b"\n"):
            data += b"\n"
        lines = data.split(b"\n")
        rest = lines.pop()
        for l in lines:
            m = l[:-1] if l.endswith(b"\r") else l
            if not insol:
                if m.endswith(BEGIN):
                    out.append(m[:-len(BEGIN)])
                    insol = True
                else:
                    out.append(l + b"\n")
            elif m == END:
                insol = False
            elif m == b"----------":
                s = self.show(asg)
                if not self.unique or s not in seen:
                    out.append(s + b"----------\n")
                seen.add(s)
                asg = {}
            elif m.lstrip().startswith(b"%"):
                out.append(m + b"\n")
            elif m in (b"==========", b"=====UNKNOWN=====", b"=====UNSATISFIABLE====="):
                out.append(m + b"\n")
            else:
                for k, v in re.findall(rb"(\w+) = (\d+);", m):
                    asg[k] = int(v)
        if rest and not insol:
            k = held(rest)
            out.append(rest[:len(rest) - k])
        return b"".join(out)


TEXTS = ["Welcome to the session\n", "> ", "solve> ", "\n", "\n\n", "no newline yet", "line with \t tab and é ✓\n", "%\n", "%%%\n", "50%", "%%%mzn-sol", "%%%mzn-sol\n", "%%%mzn-sol-begin \n", "%%%mzn-sol-begin-x\n", " %%%mzn-sol-end\n",
         "%%%mzn-sol-end\n", "----------\n", "==========\n", "x = 7;\n", "carriage\r\n", "a" * 995 + "\n", "b" * 2100 + "\n", "c" * 999 + "> ", "%%%%%%", "%%%mzn-stat: nodes=3\n", "\x1b[1mbold\x1b[0m> ", "-sol-begin\n", "%%%mzn-sol-begi"]


def block(rng):
    eol = rng.choice(["\n", "\n", "\n", "\r\n"])
    L = [BEGIN.decode()]
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        a, b = rng.randint(1, 3), rng.randint(10, 12)
        k = rng.random()
        if k < 0.8:
            L += ["x = %d;" % a, "y = %d;" % b] + (["% inside"] if rng.random() < 0.3 else []) + ["----------"]
        elif k < 0.9:
            L += ["x = %d; y = %d;" % (a, b), "----------"]
        else:
            L += ["x = %d;" % a, END.decode(), "some text in between", BEGIN.decode(), "y = %d;" % b, "----------"]
    if rng.random() < 0.15:
        L.append("==========")
    L.append(END.decode())
    return eol.join(L) + eol


class P15(SystemCheck):
    id = "P15"
    quick_units, thorough_units = 48, 1500
    quick_cap = 32
    rule = "A case is one interactive session (dialogue stream, its partition into writes and reads, pauses, interrupts); it is non-trivial if the solver wrote something."

    def unit(self, rng, index, tier):
        for k in range(12):
            s = ""
            pos = []
            for _ in range(rng.choice([1, 2, 4, 7, 12])):
                s += rng.choice(TEXTS) if rng.random() < 0.6 else block(rng)
                pos.append(len(s.encode()))
            data = s.encode()
            n = len(data)
            base = {"world": "interactive", "data": data.decode("latin-1"), "seed": rng.randint(1, 1 << 30), "args": [], "unique": True}
            if rng.random() < 0.2:
                base["unique"] = False
                base["args"] = ["--non-unique"]
            plans = [[], pos]
            for _ in range(3):
                plans.append(sorted(rng.randint(1, max(1, n - 1)) for _ in range(rng.choice([1, 2, 5]))))
            m = data.find(BEGIN)
            if m >= 0:
                plans.append([m, m + rng.randint(1, len(BEGIN) + 1)])
                plans.append([max(0, m - 1), m + rng.randint(1, len(BEGIN) + 1)])
                plans.append(list(range(max(0, m - 3), m + len(BEGIN) + 3)))
            m = data.find(END)
            if m >= 0:
                plans.append([m + rng.randint(0, len(END) + 1)])
            if n < 60:
                plans.append(list(range(n)))
            for cuts in plans:
                c = dict(base, cuts=sorted(set(x for x in cuts if 0 < x < n)))
                c["delays"] = [rng.choice([0, 1000, 100000, 2 * S, 2 * S]) for _ in range(rng.choice([1, 3]))]
                c["inject"] = gen_schedule(rng)
                c["end"] = rng.choice([["exit", 0], ["exit", 0], ["exit", 0], ["exit", 2], ["die", 11]])
                c["how"] = "dialog"
                if rng.random() < 0.25:
                    c["how"] = "int"
                    # everything is quick, then the user interrupts while the solver waits
                    c["delays"] = [1000]
                    for _ in range(rng.choice([1, 2])):
                        c["inject"].append("sig 2 at %d" % rng.choice([1 * S, 1 * S + 1000, rng.randint(200 * MS, 3 * S)]))
                    c["on2"] = rng.choice(["ignore", "script", "default"])
                    c["pause"] = 2 * S
                yield c
                if tier != "quick" or rng.random() < 0.5:
                    yield dict(c, inject=c["inject"] + ["fault read - 1 0 short %d" % rng.choice([1, 2, 3, 7])], how="short", on2=None, end=["exit", 0]) if c["how"] == "dialog" else dict(c, inject=c["inject"] + ["fault read - %d %d EINTR" % ((rng.randint(1, 4),) * 2)])

    def script(self, case):
        data = case["data"].encode("latin-1")
        n = len(data)
        pos = [0] + [c for c in case["cuts"] if 0 < c < n] + [n]
        L = ["plan 0", "start 20000 50000"]
        dl = case["delays"]
        for i in range(len(pos) - 1):
            if pos[i + 1] > pos[i]:
                L.append("a out %d %s" % (dl[i % len(dl)], hx(data[pos[i]:pos[i + 1]])))
        if case.get("errs"):
            L.append("a err 1000 " + hx("note\n"))
        L.append("a %s %d %d" % (case["end"][0], 1000 + (case.get("pause") or 0), case["end"][1]))
        if case.get("on2"):
            L.append("on 2 %s" % case["on2"])
            if case["on2"] == "script":
                L.append("s 2 out 1000 " + hx("interrupted\n> "))
        return L

    def execs(self, case):
        p = WORLDS["interactive"].prefix("fork", case["args"])
        return [(p, self.base(case) + self.script(case) + case["inject"])]

    def reduce(self, case):
        for key in ("inject", "cuts"):
            L = case[key]
            for i in range(len(L)):
                yield dict(case, **{key: L[:i] + L[i + 1:]})
        d = case["data"]
        n = len(d)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                c = dict(case, data=d[:i] + d[i + size:])
                c["cuts"] = [x - size if x > i + size else x for x in case["cuts"] if not i < x <= i + size]
                yield c
            size //= 2
            if n > 200 and size < n // 20:
                break

    def valid(self, case):
        try:
            t = case["data"].encode("latin-1").decode("utf-8")
        except UnicodeDecodeError:
            return False
        # keep to streams the reference covers: inside blocks only what block() makes
        insol = False
        for l in t.split("\n")[:-1]:
            l = l.rstrip("\r")
            if not insol:
                insol = l.endswith(BEGIN.decode())
            elif l == END.decode():
                insol = False
            elif not re.fullmatch(r"([xy] = \d+;)( [xy] = \d+;)?|-{10}|={10}|% inside", l):
                return False
        return True

    def nontrivial(self, case, rs):
        return bool(case["data"])

    def judge(self, case, rs):
        r = rs[0]
        if r.kind != "EXIT":
            return [("end", "driver ended with %s %d" % (r.kind, r.code))]
        V = []
        data = case["data"].encode("latin-1")
        l = Life(case, r)
        D = Dialog(unique=case["unique"])
        n = l.n
        stream = data
        if l.handled and case.get("on2") == "script":
            stream, prev, src = b"", 0, data          # as written: main stream up to each handled signal, then the handler's text
            for _, sg, k in l.handled:
                stream += src[:k - prev]
                src = b"interrupted\n> " + src[max(0, k - prev):]
                prev = k
            stream += src
        stream = stream[:n]
        if case.get("on2") != "script":
            want = D.run(stream, True)
            if r.out != want:
                V.append(("output", "session %r printed %r instead of %r" % (stream, r.out, want)))
        else:
            # the handler's text may come at any place of the stream: it must be there, everything else unchanged
            if r.out.count(b"interrupted\n> ") < len(l.handled):
                V.append(("output", "text written after an interrupt is missing in %r" % r.out))
        nat = l.natural()
        if nat and (nat == ["exit", 0]) != (r.code == 0):
            V.append(("exitcode", "solver ended with %s, driver with %d" % (nat, r.code)))
        if l.sent:
            V.append(("signalled", "driver sent signals: %s" % l.sent))
        for c in r.exl("child"):
            d = dict(zip(c[2::2], c[3::2]))
            if d["stdin"] != "0":
                V.append(("stdin", "solver does not read the terminal: %s" % " ".join(c)))
            if d["ignint"] != "0" or d["blkint"] != "0":
                V.append(("sigmask", "solver cannot be interrupted: %s" % " ".join(c)))
            if d["pgid"] != "0":
                V.append(("group", "solver is not in the terminal's process group: %s" % " ".join(c)))
        # shown promptly: whenever the solver pauses for a second or more
        if case["how"] == "dialog" and not any(x.startswith("opcost 10000 ") for x in case["inject"]):
            n = len(data)
            pos = [0] + [c for c in case["cuts"] if 0 < c < n] + [n]
            wr, k = [], 0
            for m in re.finditer(rb"(?m)^(\d+) solver 2001 wrote (\d+) to pipe 2$", r.log):
                k += int(m.group(2))
                wr.append((int(m.group(1)), k))
            fl = [(int(e[2]), int(e[3])) for e in r.exl("flush") if e[1] == "out"]
            for i in range(len(wr) - 1):
                t, k = wr[i]
                if wr[i + 1][0] - t >= 1 * S:
                    shown = max([0] + [b for a, b in fl if a <= t + 500 * MS])
                    want = len(D.run(data[:k], False))
                    if shown != want:
                        V.append(("prompt", "after %r arrived, %d bytes were shown instead of %d" % (data[:k][-60:], shown, want)))
                        break
        V += [v for v in clean_up(r, [])]
        return V


RAW = ["x is 3\n", "free text\n----------\n", "==========\n", "\n", "\n\n", "no end", "tab\t and é ✓\n", "\xff\xfe broken \x80\n", "a\r\n", "b\rc", "%%%mzn-stat: nodes=3\n", "%%%mzn-stat-end\n", "z" * 997 + "\n", "y" * 1000, "w" * 3003 + "\n", "{\"type\": \"solution\"}\n",
       "=====UNSATISFIABLE=====\n", "%%%mzn-sol-begin\n", "\x01\x02\x1b[0m", " ", "-" * 10, "x = 3;\n----------\n", "% c\n", "=====ERROR=====\n"]
ERRTXT = ["note\n", "warning: no end", "e" * 1500 + "\n", "\xff\n", "\n", "two\nlines\n", "%%%mzn-stat: a=1\n"]


def raw_text(rng, pool, n):
    s = b""
    for _ in range(n):
        t = rng.choice(pool)
        s += t.encode("latin-1") if max(map(ord, t)) < 256 and rng.random() < 0.9 else t.encode("utf-8")
    return s


class P20(SystemCheck):
    id = "P20"
    quick_units, thorough_units = 96, 3000
    quick_cap = 32
    rule = "A case is one run of a solver that reads MiniZinc itself or whose output is passed through (its streams, their partition and timing, its end, limits, signals, options); it is non-trivial if the solver was started."

    def unit(self, rng, index, tier):
        kind = index % 4
        name = ["passthrough", "mzn"][index // 4 % 2]
        if kind == 3:
            for _ in range(6 if name == "passthrough" else 12):
                yield self.gen_options(rng, name)
            return
        C = rng.choice([1000, 1000, 100, 30, 250])
        args = [] if C == 1000 else ["--cleanup-time-limit", str(C)]
        sigint = rng.random() < 0.3
        if sigint:
            args.append("--fzn-sigint" if name == "passthrough" else "--mzn-sigint")
        supt = rng.random() < 0.3
        for _ in range(2):
            T = rng.choice([0, 1000, 50, 5000]) if kind else 0
            overall = name == "mzn" and rng.random() < 0.3
            a = args + (["--time-limit" if overall else "--solver-time-limit", str(T)] if T else [])
            for _ in range(30):
                data = raw_text(rng, RAW, rng.choice([0, 1, 2, 4, 8, 15]))
                err = raw_text(rng, ERRTXT, rng.choice([0, 0, 1, 2, 4]))
                n, m = len(data), len(err)
                cuts = sorted(set(rng.randint(1, max(1, n - 1)) for _ in range(rng.choice([0, 1, 2, 5, 12]))))
                if rng.random() < 0.15:
                    cuts = list(range(n))[:40]
                ecuts = sorted(set(rng.randint(1, max(1, m - 1)) for _ in range(rng.choice([0, 0, 1, 3]))))
                c = {"world": name, "supt": supt, "args": a, "T": T, "C": C, "sigint": sigint, "seed": rng.randint(1, 1 << 30), "data": data.decode("latin-1"), "err": err.decode("latin-1"), "cuts": cuts, "ecuts": ecuts,
                     "delays": rng.choice([[0], [1000], [0, 50 * MS], [300 * MS], [2 * S, 0, 0]]), "inject": gen_schedule(rng), "on": {}}
                c["end"] = rng.choice([["exit", 0], ["exit", 0], ["exit", 0], ["exit", 1], ["exit", 77], ["die", 11], ["die", 9]])
                if rng.random() < 0.1:
                    c["closeout"] = rng.choice([0, 1000, 10 * MS])
                if rng.random() < 0.1:
                    c["helper"] = [rng.choice([10 * MS, S]), rng.randint(0, 1)]
                if rng.random() < 0.15:
                    q = rng.randint(1, 8)
                    c["inject"].append("fault %s - %d %d EINTR" % (rng.choice(["read", "select", "waitpid"]), q, q + rng.randint(0, 3)))
                c["how"] = "stream"
                if kind == 1 and T:
                    c["how"] = "limit"
                    c["end"] = ["run"] if rng.random() < 0.8 else ["exit", rng.choice([0, 2]), T * MS + rng.choice([-1000000, -50000, 0, 50000])]
                elif kind == 2:
                    c["how"] = "int"
                    c["end"] = ["run"]
                    t = rng.choice([0, 10 * MS, 700 * MS, 3 * S])
                    c["sigs"] = []
                    for _ in range(rng.choice([1, 1, 2])):
                        c["sigs"].append("sig %d at %d" % (rng.choice([2, 15]), t))
                        t += rng.choice([0, 1000, C * MS // 2, C * MS + 1000, 10 * S])
                    if c["sigs"][0].endswith(" 0") and name == "mzn":
                        c["sigs"] = ["sig 15 at %d" % (5 * S)]
                if c["how"] != "stream":
                    for s in (2, 15):
                        k = rng.random()
                        if k < 0.3:
                            c["on"][str(s)] = ["ignore"]
                        elif k < 0.6:
                            c["on"][str(s)] = ["script", rng.choice([0, 1000, C * MS // 2, 2 * C * MS]), raw_text(rng, RAW, rng.choice([0, 1, 3])).decode("latin-1"), rng.choice([0, 0, 4])]
                    c.pop("helper", None)
                yield c

    def gen_options(self, rng, name):
        std = [f for f in ("-a", "-i", "-n", "-s", "-r", "-v", "-p", "-f", "-t") if rng.random() < 0.6]
        extra = [["--foo", "a switch", "bool", "false"], ["--bar", "a number", "int", "0"], ["--baz", "a text", "string", ""], ["--opt", "a choice", "opt:x:y:z", "x"]]
        extra = [e for e in extra if rng.random() < 0.6]
        conf = {"stdFlags": std, "extraFlags": extra}
        words = ["--alpha", "-x", "a b", "k=v", "", "-9", "é", "\"q\"", "m'n", "--", "-", "b\\c", "$HOME", "*"]
        pf = "--mzn-flag" if name == "mzn" else "--fzn-flag"
        args, order, rest = [], [], []
        one = lambda a, want, rest_=False: (args.extend(a), (rest if rest_ else order).extend(want))
        for _ in range(rng.randint(1, 6)):
            k = rng.randrange(12)
            if k == 0:
                w = rng.choice(words)
                one([rng.choice([pf, "--backend-flag"]), w], [w])
            elif k == 1:
                one([rng.choice([pf + "s", "--backend-flags"]), "-p1 --two=3 x"], ["-p1", "--two=3", "x"])
            elif k == 2 and extra:
                e = rng.choice(extra)
                if e[2] == "bool":
                    one([e[0]], [e[0]])
                else:
                    w = rng.choice(words[:4] + ["7"])
                    one([e[0], w], [e[0], w])
            elif k == 3 and "-p" in std and "-p" not in args:
                one(["-p", "4"], ["-p", "4"], True)
            elif k == 4 and "-f" in std and "-f" not in args:
                one(["-f"], ["-f"], True)
            elif k == 5 and "-r" in std and not set(args) & {"-r", "--seed", "--random-seed"}:
                one([rng.choice(["-r", "--random-seed", "--seed"]), "17"], ["-r", "17"], True)
            elif k == 6 and "-a" in std and not set(args) & {"-a", "--all-solutions", "-i"}:
                one([rng.choice(["-a", "--all-solutions"])], ["-a"], True)
            elif k == 7 and "-i" in std and not set(args) & {"-a", "--all-solutions", "-i", "-n"}:
                one(["-i"], ["-i"] if name == "mzn" else [], True)
            elif k == 8 and "-s" in std and "--solver-statistics" not in args and name == "mzn":
                one(["--solver-statistics"], ["-s"], True)
            elif k == 9 and "-n" in std and name == "mzn" and not set(args) & {"-n"}:
                one(["-n", "5"], ["-n", "5"], True)
            elif k == 10 and "T" not in rest and "--solver-time-limit" not in args:
                one([rng.choice(["--solver-time-limit"]), "9000"], ["-t", "9000"] if "-t" in std else [], True)
            elif k == 11 and name == "mzn":
                f = rng.choice(["more.dzn", "d2.json", "sub dir/e.dzn", "p.mzn"])
                one([f], [f])
        if rng.random() < 0.2:
            conf["needsStdlibDir"] = True
        return {"world": name, "conf": conf, "args": args, "order": order, "rest": rest, "how": "options", "inject": [], "seed": rng.randint(1, 1 << 30), "data": "ok\n", "err": "", "cuts": [], "ecuts": [], "delays": [1000], "end": ["exit", 0], "on": {}, "T": 0, "C": 1000, "sigint": False, "supt": False}

    def script(self, case):
        L = ["plan 0", "start 20000 50000"]
        if case.get("helper"):
            L.append("a helper 0 %d %d" % tuple(case["helper"]))
        d, e = case["data"].encode("latin-1"), case["err"].encode("latin-1")
        cut = lambda b, cs: [b[i:j] for i, j in zip([0] + cs, cs + [len(b)]) if b[i:j]]
        outs, errs = cut(d, [x for x in case["cuts"] if 0 < x < len(d)]), cut(e, [x for x in case["ecuts"] if 0 < x < len(e)])
        dl = case["delays"]
        for i in range(max(len(outs), len(errs))):
            if i < len(outs):
                L.append("a out %d %s" % (dl[i % len(dl)], hx(outs[i])))
            if i < len(errs):
                L.append("a err %d %s" % (dl[i % len(dl)], hx(errs[i])))
        if "closeout" in case:
            L.append("a closeout %d" % case["closeout"])
        E = case["end"]
        if E[0] != "run":
            L.append("a %s %d %d" % (E[0], E[2] if len(E) > 2 else 1000, E[1]))
        for s, o in case["on"].items():
            L.append("on %s %s" % (s, o[0]))
            if o[0] == "script":
                if o[2]:
                    L.append("s %s out %d %s" % (s, o[1], hx(o[2].encode("latin-1"))))
                if o[3] is not None:
                    L.append("s %s exit %d %d" % (s, o[1], o[3]))
        return L

    def execs(self, case):
        w = WORLDS[case["world"]]
        conf = dict(w.conf, **(case.get("conf") or {}))
        if case["supt"]:
            conf["stdFlags"] = ["-a", "-n", "-s", "-i", "-r", "-v", "-t"]
        p = w.prefix("fork" if case["world"] == "passthrough" else "start", case["args"], {"solvers/fz.msc": W.conf(**conf)})
        return [(p, self.base(case) + self.script(case) + case["inject"] + case.get("sigs", []))]

    def reduce(self, case):
        for key in ("inject", "cuts", "ecuts", "sigs"):
            L = case.get(key) or []
            for i in range(len(L)):
                yield dict(case, **{key: L[:i] + L[i + 1:]})
        for key in ("data", "err"):
            d = case[key]
            n, size = len(d), len(d) // 2
            while size >= 1:
                for i in range(0, n, size):
                    yield dict(case, **{key: d[:i] + d[i + size:]})
                size //= 2
                if n > 200 and size < n // 20:
                    break

    def nontrivial(self, case, rs):
        return bool(rs[0].exl("exec"))

    def written(self, case, l):
        out, prev, src = b"", 0, case["data"].encode("latin-1")
        for _, sg, k in l.handled:
            out += src[:k - prev]
            prev, src = k, (case["on"][str(sg)][2].encode("latin-1") if case["on"].get(str(sg), [""])[0] == "script" else b"")
        return out + src[:l.n - prev]

    def judge(self, case, rs):
        r = rs[0]
        if r.kind not in ("EXIT", "SIGNAL"):
            return [("end", "driver ended with %s %d" % (r.kind, r.code))]
        l = Life(case, r)
        V = []
        if any(k == "default" for _, _, k in l.drv) and not r.exl("exec"):
            return clean_up(r, [])
        data = self.written(case, l)
        late = any(k == "default" for _, _, k in l.drv)
        want = data if not data or data.endswith(b"\n") else data + b"\n"
        g, nat = requests(l), l.natural()
        allowed = [want] + ([want + b"=====ERROR=====\n"] if nat and nat != ["exit", 0] else []) + ([want + b"=====UNKNOWN=====\n"] if any(k != "default" for _, _, k in l.drv) else [])
        if r.out not in allowed and not (late and want.startswith(r.out)):
            V.append(("output", "solver wrote %r, shown was %r" % (data, r.out)))
        pc = r.exl("pc")
        e = case["err"].encode("latin-1")[:int(pc[0][6]) if pc and len(pc[0]) > 6 else None]
        took = [s for _, s, k in l.drv if k in ("handler", "pending")]
        if r.err != e and not took and not late:
            V.append(("stderr", "solver wrote %r to standard error, shown was %r" % (e, r.err)))
        slack = 25 + r.ops * 0.3
        first = case["T"] + (case["C"] if case["supt"] else 0)
        if case["how"] == "options":
            ex = r.exl("exec")
            x = [bytes(a, "utf-8").decode("unicode_escape") for a in []]
            V += self.check_options(case, r)
        if took:
            if r.kind != "SIGNAL" or r.code not in took:
                V.append(("end", "driver received %s and ended with %s %d" % (took, r.kind, r.code)))
            t0 = min(t for t, s, k in l.drv)
            if (l.ended is None or l.ended > t0 + slack) and not any(t0 - 0.01 <= q[0] <= t0 + slack for q in g):
                V.append(("not-forwarded", "signal received after %.3f ms, requests %s" % (t0, g)))
        elif not late:
            ok = set()
            if g:
                ok.add(True)
            if nat and (not g or g[0][0] >= l.ended - 5):
                ok.add(nat == ["exit", 0])
            if r.kind != "EXIT" or (r.code == 0) not in ok:
                V.append(("exitcode", "solver ended with %s, requests %s, driver with %s %d" % (nat, g, r.kind, r.code)))
            if g and (not case["T"] or g[0][0] < first - 1.01):
                V.append(("needless", "solver signalled after %.3f ms" % g[0][0]))
            if case["T"] and not g and l.finish > first + slack:
                V.append(("late", "limit %d ms, driver ended after %.3f ms without stopping the solver" % (first, l.finish)))
            if g and g[0][0] > first + slack:
                V.append(("late", "limit %d ms, first signal after %.3f ms" % (first, g[0][0])))
            if [q[1] for q in g] != (([2] if case["sigint"] else []) + [15, 9])[:len(g)]:
                V.append(("escalation", "signals sent: %s" % g))
        for i in range(len(g)):
            nxt = g[i + 1][0] if i + 1 < len(g) else l.ended if l.ended is not None else l.finish
            if nxt - g[i][0] > case["C"] + slack and (l.ended is None or l.ended > g[i][0] + case["C"] + slack):
                V.append(("slow", "nothing followed signal %d for %.3f ms" % (g[i][1], nxt - g[i][0])))
            if i + 1 < len(g) and nxt - g[i][0] < case["C"] - 1.01 and not took:
                V.append(("grace", "signal %d followed %d after %.3f ms" % (g[i + 1][1], g[i][1], nxt - g[i][0])))
        if not late:
            V += clean_up(r, [])
        return V

    def check_options(self, case, r):
        ex = [l for l in r.ex.split(b"\n") if l.startswith(b"exec ")]
        if not ex:
            return [("options", "solver was not started: exit %d, %r" % (r.code, r.err))]
        got = ex[0].decode("utf-8", "replace").split(" ")[3:]
        order, rest, w = case["order"], case["rest"], WORLDS[case["world"]]
        want = ["/simwork/bin/fz"]
        if case["conf"].get("needsStdlibDir"):
            want += ["--stdlib-dir", "/simlib"]
        tail = ["m.mzn", "d.dzn"] if case["world"] == "mzn" else []
        full = " ".join(want + order + tail).split(" ")
        bag = sorted(full + " ".join(rest).split(" ") if rest else full)
        g = list(got)
        if case["world"] == "passthrough":
            if not g[-1].startswith("/simwork/tmp/"):
                return [("options", "the model is not the last argument: %s" % got)]
            g.pop()
        V = []
        if sorted(g) != bag:
            V.append(("options", "solver was called with %s, meant for it were %s and %s" % (got, full, rest)))
        it = iter(g)
        if not all(any(x == y for y in it) for x in full):
            V.append(("options", "order changed: called with %s, given were %s" % (got, full)))
        return V


class NLFam:
    def __init__(self, name, model, n, ints, out, opt):
        self.name, self.model, self.n, self.ints, self.out, self.opt = name, model, n, ints, out, opt
        self.reported = {"A": (5, 6), "B": (4,), "C": (2, 9)}[name]
        self.world = World("nl", {"supportsFzn": False, "inputType": "NL", "tags": ["float", "nl"]}, data=False, model=model, out=["x\n"], sol="")


def fl(v):
    return "%.1f" % v if v == int(v) else repr(float(v))


rnd = lambda v: int(v + 0.5) if v >= 0 else -int(-v + 0.5)
NLFAMS = [
    NLFam("A", 'var 1..9: x; var 0..99: y; array[1..3] of var 0.0..10.0: f; constraint x + y >= 2; constraint f[1] + f[2] * f[3] >= 1.0; solve minimize x + y; output ["x=\\(x) y=\\(y) f=\\(f)\\n"];\n', 7, (4, 5, 6),
          lambda v: "x=%d y=%d f=[%s]\n" % (rnd(v[5]), rnd(v[6]), ", ".join(fl(v[i]) for i in (2, 0, 1))), True),
    NLFam("B", 'var 0.0..9.0: a; var 0.0..9.0: b; var -20..20: k; constraint a*b >= 2.0; constraint a + k >= 1; solve satisfy; output ["a=\\(a) b=\\(b) k=\\(k)\\n"];\n', 5, (3, 4),
          lambda v: "a=%s b=%s k=%d\n" % (fl(v[0]), fl(v[1]), rnd(v[4])), False),
    NLFam("C", 'var -50..50: p; var 0..7: q; array[1..2,1..2] of var -9.0..9.0: m; constraint p*p + q <= 60; constraint m[1,1]*m[2,2] = 4.0; constraint m[1,2] + m[2,1] <= q; solve maximize p + q; output ["p=\\(p) q=\\(q) m=\\(m)\\n"];\n', 10, (2, 3, 7, 8, 9),
          lambda v: "p=%d q=%d m=[%s]\n" % (rnd(v[2]), rnd(v[9]), ", ".join(fl(v[i]) for i in (0, 4, 5, 1))), True),
]


def stoi(t):
    """Leading integer of a line, as the reader takes it."""
    v = int(re.match(r"\s*([-+]?\d+)|", t).group(1) or "x")
    if abs(v) >= 1 << 31:
        raise ValueError
    return v


def ref_sol(b, n, ints):
    """Reference reader: ("bad",) or (code, values)."""
    bad = ("bad",)
    if not b.endswith(b"\n"):
        b = b[:b.rfind(b"\n") + 1]
    L = b.decode("latin-1").split("\n")[:-1]
    try:
        i = L.index("") + 1
        if L[i] == "Options":
            i += 2 + max(0, stoi(L[i + 1]))
        nd, nv = max(0, stoi(L[i + 1])), max(0, stoi(L[i + 3]))
        i += 4 + nd
        v = [float(x) for x in L[i:i + nv]]
        if len(v) != nv or "1e999" in L[i:i + nv]:
            return bad
        m = re.fullmatch(r"objno \d (-?\d+)", L[i + nv])
        if not m:
            return bad
        code = int(m.group(1))
        if 0 <= code < 100 and (nv != n or any(x != x or abs(x) == float("inf") or k in ints and abs(x) >= 9.2e18 for k, x in enumerate(v))):
            return bad
        if 0 <= code < 100 and any(abs(x) >= 9.2e18 for x in v):
            return ("either",)      # an introduced variable, not reported: whether the driver knows its type is its own business
        return (code, v)
    except (ValueError, IndexError):
        return bad


class P16(SystemCheck):
    id = "P16"
    quick_units, thorough_units = 48, 1500
    quick_cap = 32
    rule = "A case is one result file of a non-linear solver (complete, cut at one byte, altered, missing or unreadable), with one way the solver ends; every byte position of the generated files is enumerated. It is non-trivial if the solver ran."

    def gen(self, rng, fam, code=None):
        """A complete result file."""
        v = []
        for i in range(fam.n):
            if i in fam.ints:
                x = rng.randint(-9, 50)
                v.append(x + rng.choice([0, 0, 0, -1e-7, 1e-7, -0.001, 0.25, -0.25]))
            else:
                v.append(rng.choice([rng.randint(-40, 40) / 4.0, float(rng.randint(0, 9)), 0.1 * rng.randint(1, 99), rng.uniform(0, 10), 1e-5, 123456.789]))
        if code is None:
            code = rng.choice([0, 0, 0, 2, 99, 100, 200, 299, 300, 400, 500, 599, 600, -1])
        L = [rng.choice(["sim 1.0: optimal solution", "sim 1.0: done\n5 iterations", " objno 0 0", "Options", "sim; feasible, objective 3"]), ""]
        if rng.random() < 0.8:
            k = rng.choice([3, 3, 3, 0, 5, 9])
            L += ["Options", str(k)] + [str(rng.randint(0, 3)) for _ in range(k)]
        nd = rng.choice([0, 0, 4])
        L += ["4", str(nd), str(fam.n), str(fam.n)] + [repr(rng.uniform(-3, 3)) for _ in range(nd)]
        fmt = rng.choice([repr, repr, lambda x: "%.17g" % x, lambda x: "%.16e" % x])
        L += [fmt(x) for x in v] + ["objno 0 %d" % code]
        if rng.random() < 0.2:
            L += ["suffix 0 2 8 0 0", "sstatus", "0 1", "1 3"]
        return "\n".join(L) + "\n"

    def unit(self, rng, index, tier):
        fam = NLFAMS[index % len(NLFAMS)]
        args = rng.choice([[], [], ["--json-stream"], ["--keepfile"], ["--keepfile"], ["--solver-time-limit", "100000"]])
        stale = None
        if "--keepfile" in args and rng.random() < 0.7:
            stale = self.gen(rng, fam, 0)
        base = {"fam": index % len(NLFAMS), "args": args, "stale": stale, "world": "nl", "data": "", "inject": []}

        def case(sol, how, end=None, **k):
            c = dict(base, sol=sol, how=how, seed=rng.randint(1, 1 << 30), end=end or ["exit", 0], inject=gen_schedule(rng) if rng.random() < 0.3 else [])
            if rng.random() < 0.5:
                c["data"] = rng.choice(["chatter\n", "x = 1;\n----------\n==========\n", "no end", "=====UNSATISFIABLE=====\n", "a\nb\nc\n" * 300])
            c.update(k)
            return c
        for _ in range(2):
            s = self.gen(rng, fam, rng.choice([0, 0, None]))
            yield case(s, "whole")
            for k in range(len(s)):
                if tier != "quick" or rng.random() < 0.35 or len(s) - k < 14:
                    yield case(s[:k], "cut")
            L = s.split("\n")[:-1]
            for _ in range(12):
                M = list(L)
                i = rng.randrange(len(M))
                k = rng.random()
                if k < 0.35:
                    del M[i]
                elif k < 0.5:
                    M.insert(i, M[i])
                elif k < 0.8:
                    M[i] = rng.choice(["", "nan", "inf", "-inf", "abc", "1e999", "-1", "99999999999999999999", "2147483647", "0", "objno 0", "objno 0 x", "Options"])
                else:
                    j = rng.randrange(len(M))
                    M[i], M[j] = M[j], M[i]
                yield case("\n".join(M) + "\n", "altered")
        for _ in range(6):
            yield case(self.gen(rng, fam), "whole")
        for e in (["exit", 1], ["exit", 255], ["die", 9], ["die", 11], ["die", 6]):
            s = self.gen(rng, fam, 0)
            yield case(rng.choice([s, s, None, s[:len(s) // 2]]), "failed", e)
        yield case(None, "missing")
        for f in ("openr .sol 1 0 EACCES", "openr .sol 1 0 EMFILE", "openr .sol 1 0 EIO", "readf .sol 1 0 EIO", "readf .sol 1 0 EISDIR", "readf .sol 2 0 EIO", "readf .sol 1 0 short 1", "readf .sol 1 0 short 7", "readf .sol 1 2 EINTR"):
            c = case(self.gen(rng, fam, 0), "unreadable")
            c["inject"] = c["inject"] + ["fault " + f]
            yield c

    def script(self, case):
        L = ["plan 0", "start 20000 50000"]
        if case["data"]:
            L.append("a out 1000 " + hx(case["data"]))
        if case["sol"] is not None:
            L.append("a sol 1000 " + hx(case["sol"].encode("latin-1")) if case["sol"] else "a sol 1000")
        L.append("a %s 1000 %d" % tuple(case["end"]))
        return L

    def execs(self, case):
        f = {"m.sol": case["stale"].encode("latin-1")} if case["stale"] else None
        return [(NLFAMS[case["fam"]].world.prefix("fork", case["args"], f), self.base(case) + self.script(case) + case["inject"])]

    def reduce(self, case):
        for i in range(len(case["inject"])):
            yield dict(case, inject=case["inject"][:i] + case["inject"][i + 1:])
        if case["data"]:
            yield dict(case, data="")

    def nontrivial(self, case, rs):
        return bool(rs[0].exl("exec"))

    def judge(self, case, rs):
        r = rs[0]
        if r.kind != "EXIT":
            return [("end", "driver ended with %s %d" % (r.kind, r.code))]
        fam = NLFAMS[case["fam"]]
        V = [v for v in clean_up(r, [])]
        ref = ref_sol((case["sol"] or "").encode("latin-1"), fam.n, fam.reported) if case["sol"] is not None else ("bad",)
        fired = [k for k in r.fired() if k.startswith(("openr", "readf")) and not k.endswith(("short", "EINTR"))]
        if case["end"] != ["exit", 0] or fired:
            ref = ("bad",)
        if ref == ("either",):
            return V
        js = "--json-stream" in case["args"]
        out = r.out.decode("utf-8", "replace")
        if js:
            msgs = []
            for l in out.split("\n"):
                if l:
                    try:
                        msgs.append(json.loads(l))
                    except ValueError:
                        V.append(("json", "not JSON: %r" % l))
            sols = [m["output"].get("default", m["output"].get("dzn")) for m in msgs if m["type"] == "solution"]
            stat = [m["status"] for m in msgs if m["type"] == "status"]
        else:
            p = out.split("----------\n")
            sols, stat = p[:-1], [x for x in p[-1].split("\n") if x]
        what = "result file %r, solver ended with %s, faults %s" % (case["sol"], case["end"], fired)
        if ref == ("bad",):
            if sols:
                V.append(("invented", "%s: solution printed: %r" % (what, sols)))
            if any(x not in ("=====ERROR=====", "=====UNKNOWN=====", "ERROR", "UNKNOWN") for x in stat):
                V.append(("status", "%s: status %s" % (what, stat)))
            if r.code == 0 and "UNKNOWN" not in "".join(stat):
                V.append(("exitcode", "%s: exit code 0, output %r %r" % (what, r.out, r.err)))
        else:
            code, v = ref
            solved = 0 <= code < 100
            want = "UNSATISFIABLE" if 200 <= code < 300 else "UNBOUNDED" if 300 <= code < 400 else "ERROR" if 500 <= code < 600 else "UNKNOWN" if not solved else None
            if solved:
                w = fam.out(v)
                if len(sols) != 1 or not self.same(sols[0], w):
                    V.append(("solution", "%s: printed %r instead of %r" % (what, sols, w)))
                want = ("OPTIMAL_SOLUTION" if js else "==========") if fam.opt else None
            elif sols:
                V.append(("invented", "%s: solution printed: %r" % (what, sols)))
            if want and want not in "".join(stat) or not want and [x for x in stat if x not in ("SATISFIED",)]:
                V.append(("status", "%s: status %s instead of %s" % (what, stat, want)))
            if (r.code == 0) != (want != "ERROR"):
                V.append(("exitcode", "%s: exit code %d" % (what, r.code)))
        return V

    NUM = re.compile(r"-?\d+\.\d*(?:[eE][-+]?\d+)?")

    def same(self, got, want):
        """Equal text; floating point numbers to the precision the driver prints."""
        if got == want:
            return True
        a, b = self.NUM.findall(got), self.NUM.findall(want)
        a = a or re.findall(r"-?\d+\.?\d*(?:[eE][-+]?\d+)?", got)
        g = re.sub(r"-?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+[eE][-+]?\d+", "#", got)
        w = re.sub(r"-?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+[eE][-+]?\d+", "#", want)
        a = re.findall(r"-?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+[eE][-+]?\d+", got)
        b = re.findall(r"-?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+[eE][-+]?\d+", want)
        return g == w and len(a) == len(b) and all(abs(float(x) - float(y)) <= 1e-12 * max(1, abs(float(y))) for x, y in zip(a, b))
