"""P01, P02, P03, P08: the solution stream of an external solver."""
import json, re
from engine import Check
from simlib import Prefix, MS, S, hx
import workloads as W
from workloads import FAMS, Ref, prefix, delivery, base_lines, stream, errtext, compare_text, compare_json, parse_json_stream

COMMENTS = ["% hello", "%", "%% two  ", "  % indented", "\t% tab", "% ---------- no separator", "% ==========", "% é ✓ 😀", "% \"quoted\" \\ back\\n", "% long " + "0123456789" * 150, "%%%mzn-progress 12.5", "% x = 3;"]
CTRL = ["% bell \x07", "% esc \x1b[1m bold", "% del \x7f", "% vt \x0b ff \x0c", "% cr \r middle", "% \x01\x02\x03\x1f"]
STATS = ["nodes=3", "failures=0", "solveTime=0.25", 'method="branch"', "nSolutions=2", "flags=true", "propagations=123456"]


def gen_records(rng, fam, opts, ctrl=False, nmax=6, final=None):
    recs, pool = [["raw", "junk %d" % i] for i in range(opts.get("ignore", 0))], []
    used = set()
    n = rng.choice([0, 1, 1, 2, 3, nmax])

    def noise(p=0.4):
        while rng.random() < p:
            k = rng.random()
            if k < 0.55:
                recs.append(["comment", rng.choice(COMMENTS + (CTRL if ctrl else []))])
            elif k < 0.75:
                for s in rng.sample(STATS, rng.randint(1, 3)):
                    if s not in used:
                        used.add(s)
                        recs.append(["stat", s])
                if rng.random() < 0.6:
                    used.clear()
                    recs.append(["statend"])
            else:
                recs.append(["blank"])
    for _ in range(n):
        noise()
        if pool and rng.random() < 0.3:
            v = rng.choice(pool)
        else:
            v = fam.sol(rng)
            pool.append(v)
        recs.append(["sol", v])
        used.clear()
    noise()
    if final is None:
        final = rng.choice([None, None, "==========", "==========", "==========", "=====UNSATISFIABLE=====", "=====UNKNOWN=====", "=====UNBOUNDED=====", "=====UNSATorUNBOUNDED=====", "=====ERROR====="])
        if n and final and final != "==========" and rng.random() < 0.8:
            final = rng.choice([None, "==========", "=====UNKNOWN====="])
    if final:
        recs.append(["status", final])
        used.clear()
        noise(0.3)
    return recs


def gen_opts(rng, json_p=0.35, files=True):
    o, a = {}, []
    if rng.random() < json_p:
        o["json"] = True
        a.append("--json-stream")
    if rng.random() < 0.2:
        o["comments"] = False
        a.append("--no-output-comments")
    if rng.random() < 0.2 and not o.get("json"):
        o["sep"] = rng.choice(["", "--", "<<é>>"])
        a += ["--soln-sep", o["sep"]]
    if rng.random() < 0.2 and not o.get("json"):
        o["comma"] = rng.choice([",", "%%"])
        a += ["--soln-comma", o["comma"]]
    if rng.random() < 0.25:
        o["unique"] = False
        a.append("--non-unique")
    if rng.random() < 0.2:
        o["canonical"] = True
        a.append("--canonicalize")
    if rng.random() < 0.12:
        o["ignore"] = rng.randint(1, 3)
        a += ["--ignore-lines", str(o["ignore"])]
    if rng.random() < 0.15:
        o["time"] = True
        a.append("--output-time")
    if rng.random() < 0.15:
        a.append("--no-flush-output")
    if rng.random() < 0.1 and not o.get("json"):
        o["msgs"] = {"OPT": "DONE", "UNKNOWN": "", "UNSAT": "NONE!"}
        a += ["--search-complete-msg", "DONE", "--unknown-msg", "", "--unsat-msg", "NONE!"]
    if files and rng.random() < 0.12:
        o["file"] = "out.txt"
        a += ["-o", "/simwork/out.txt"]
    if files and rng.random() < 0.12:
        o["raw"] = "raw.txt"
        a += ["--output-raw", "/simwork/raw.txt"]
    if files and o.get("canonical") and rng.random() < 0.5:
        o["noncanon"] = "nc.txt"
        a += ["--output-non-canonical", "/simwork/nc.txt"]
    return o, a


def gen_cuts(rng, data):
    n = len(data)
    if n < 2:
        return []
    k = rng.random()
    if k < 0.2:
        return sorted(set(rng.randint(1, n - 1) for _ in range(rng.randint(1, 4))))
    if k < 0.4:        # every byte of a window
        a = rng.randint(1, n - 1)
        return list(range(a, min(n, a + 60)))
    if k < 0.6:        # around line ends and markers
        pts = []
        i = data.find(b"\n")
        while i >= 0:
            pts += [i, i + 1]
            i = data.find(b"\n", i + 1)
        for m in (b"----------", b"==========", b"=====", b"\r\n", b"%%%mzn"):
            i = data.find(m)
            while i >= 0:
                pts.append(i + rng.randint(0, len(m)))
                i = data.find(m, i + 1)
        pts = [p for p in pts if 0 < p < n]
        rng.shuffle(pts)
        return sorted(set(pts[:rng.randint(1, 40)]))
    if k < 0.7:        # near the driver's read size
        return [p for p in (998, 999, 1000, 1001, 1998, 1999, 2997) if p < n and rng.random() < 0.6]
    if k < 0.8 and n < 600:
        return list(range(1, n))
    step = rng.choice([2, 3, 7, 13, 64, 100, 333, 999])
    return list(range(step, n, step))[:400]


DELAYS = [[0], [1000], [200000], [0, 0, 5000000], [1000, 1000000, 0, 30 * MS], [2 * S, 10], [50 * MS]]


def gen_inject(rng, kinds=("short", "eintr", "stall")):
    L = []
    if "short" in kinds and rng.random() < 0.35:
        a = rng.randint(1, 12)
        L.append("fault read - %d %d short %d" % (a, a + rng.randint(0, 30), rng.choice([1, 1, 2, 5, 100, 998])))
    if "eintr" in kinds and rng.random() < 0.35:
        a = rng.randint(1, 10)
        L.append("fault select - %d %d EINTR" % (a, a + rng.randint(0, 2)))
    if "eintr" in kinds and rng.random() < 0.2:
        a = rng.randint(1, 10)
        L.append("fault read - %d %d EINTR" % (a, a + rng.randint(0, 1)))
    if "eintr" in kinds and rng.random() < 0.1:
        L.append("fault waitpid - 1 1 EINTR")
    if "stall" in kinds and rng.random() < 0.35:
        L.append("stall op %d %d" % (rng.randint(1, 300), rng.choice([1 * MS, 100 * MS, 5 * S])))
    return L


def gen_errs(rng, n):
    if rng.random() < 0.5:
        return []
    r = []
    for _ in range(rng.randint(1, 4)):
        r.append([rng.randint(0, n), rng.choice(["warning: something\n", "partial ", "é✓ error text\n", "x" * 1500 + "\n", "% not a comment\n", "----------\n"]), rng.choice([0, 1000, 2 * MS])])
    return sorted(r, key=lambda e: e[0])


def outputs(case, r):
    """The primary output stream of a run (standard output or the -o file)."""
    o = case["opts"]
    if o.get("file"):
        return r.files.get(o["file"], b"")
    return r.out


def check_stream(case, r, ref=None, want=None, end=None, data=None):
    """Compares one run with the reference; -> list of (class, message)."""
    o = case["opts"]
    fam = FAMS[case["fam"]]
    ref = ref or Ref(fam, o, case["records"] + case.get("tail", []))
    data = stream(case) + (W.tail(case) if case.get("end", [0, 0, 0])[2:3] == ["script"] else b"") if data is None else data
    want = want or ref.run(data, end or case.get("end", ["exit", 0]))
    V = []
    e = end or case.get("end", ["exit", 0])
    if e[0] == "int":
        if (r.kind, r.code) != ("SIGNAL", e[1]) and not (want["bad"] and (r.kind, r.code) == ("EXIT", 1)):
            V.append(("end", "driver ended with %s %d instead of dying from signal %d" % (r.kind, r.code, e[1])))
            return V
    elif r.kind != "EXIT":
        V.append(("end", "driver ended with %s %d instead of exiting" % (r.kind, r.code)))
        return V
    elif r.code != want["code"]:
        V.append(("exitcode", "exit code %d, expected %d" % (r.code, want["code"])))
    out = outputs(case, r)
    if o.get("file") and r.out:
        V.append(("stray-output", "output to a file was requested but standard output has %r" % r.out[:200]))
    if o.get("json"):
        msgs, e = parse_json_stream(out)
        if e:
            V.append(("json", e))
        else:
            d = compare_json(ref, want["events"], msgs)
            if d:
                V.append(("output", d))
    else:
        d = compare_text(ref, want["events"], out)
        if d:
            V.append(("output", d))
    if o.get("time") and not o.get("json"):
        ns = sum(1 for e in want["events"] if e[0] == "status") + (len(set(json.dumps(e[1]) for e in want["events"] if e[0] == "sol")) if o.get("canonical") else sum(1 for e in want["events"] if e[0] == "sol"))
        nt = len(W.TIME.findall(out))
        if not o.get("canonical") and nt != ns:
            V.append(("time-lines", "%d time lines, expected %d" % (nt, ns)))
    if o.get("noncanon") and not o.get("json"):
        got = {k: v for k, v in r.files.items()}.get(o["noncanon"], b"")
        d = compare_text(ref, want["nc"], got)
        if d:
            V.append(("noncanon", "non-canonical copy: " + d))
    if o.get("raw"):
        got = r.files.get(o["raw"], b"")
        if got != (data if data.endswith(b"\n") or not data else data + b"\n"):
            V.append(("raw", "raw copy of the stream differs: %d bytes, expected %d" % (len(got), len(data))))
    if not want["bad"]:
        e = errtext(case)
        if r.err != e:
            V.append(("stderr", "error output differs: expected %r, got %r" % (e[:300], r.err[:300])))
    return V


def gen_end(rng, c, kinds=("exit", "exit", "fail", "die", "limit", "int")):
    """Chooses how the solver of case c ends; delivery times must stay well below the limit of 5 s."""
    fam = FAMS[c["fam"]]
    k = rng.choice(kinds)
    dt = rng.choice([0, 1000, 20 * MS, 3 * S])
    if k == "exit":
        c["end"] = ["exit", 0, dt]
    elif k == "fail":
        c["end"] = ["exit", rng.choice([1, 2, 7, 77, 127, 255]), dt]
    elif k == "die":
        c["end"] = ["die", rng.choice([11, 6, 9, 15, 2, 13, 8]), dt]
    else:
        react = rng.choice(["default", "ignore", "ignore1", "script", "script"])
        sg = rng.choice([2, 15]) if k == "int" else 15
        c["end"] = [k, sg, react, rng.choice([0, 1000, 30 * MS, 400 * MS]), rng.choice([0, 0, 3])]
        c["delays"] = rng.choice([[0], [1000], [200000]])
        c["inject"] = [x for x in c["inject"] if not x.startswith("stall")]
        c["opcost"] = [1000, 1000]
        c.pop("closeout", None)
        c.pop("closeerr", None)
        if react == "script":
            pool = [r[1] for r in c["records"] if r[0] == "sol"]
            c["tail"] = [["sol", fam.sol(rng) if rng.random() < 0.7 or not pool else rng.choice(pool)] for _ in range(rng.randint(0, 2))]
            if rng.random() < 0.4 and not any(r[0] == "status" for r in c["records"]):
                c["tail"].append(["status", "=========="])
            elif rng.random() < 0.3:
                c["tail"].append(["part", fam.sol(rng)])
        if k == "int":
            n = len(c.get("cuts", [])) + 1
            c["int_at"] = 100 * MS + 2 * (n + 1) * c["delays"][0] + sum(e[2] for e in c.get("errs", []))
    return c


def limit_args(c):
    if c["end"][0] == "limit":
        c["args"] = c["args"] + ["--solver-time-limit", "5000"]
    return c


class StreamCheck(Check):
    memo = True

    def execs(self, case):
        o = case["opts"]
        # files opened before the snapshot would share their offset between runs
        p = prefix(case, "join" if o.get("file") or o.get("raw") or o.get("noncanon") else "fork")
        canon = {"records": case["records"], "fam": case["fam"], "eol": case.get("eol"), "cut": case.get("cut"), "end": case.get("end", ["exit", 0]), "errs": [[0, dec_err(case)]] if case.get("errs") else []}
        r = [(p, base_lines(case) + delivery(case))]
        if case.get("compare"):
            r.append((p, ["seed 1"] + delivery(canon)))
        return r

    def nontrivial(self, case, rs):
        return rs[0].ops > 40

    def valid(self, case):
        """Lines dropped by --ignore-lines are junk, and no others; statistics keys do not repeat within a block."""
        n = case["opts"].get("ignore", 0)
        if sum(1 for r in case["records"] if r[0] == "raw") != n or any(r[0] != "raw" for r in case["records"][:n]):
            return False
        used = set()
        for r in case["records"]:
            if r[0] == "stat":
                if r[1] in used:
                    return False
                used.add(r[1])
            elif r[0] in ("statend", "sol", "status"):
                used.clear()
        return True


def dec_err(case):
    return "".join(e[1] for e in case["errs"])


def strip_time(b):
    return re.sub(rb'"time": \d+', b'"time": 0', W.TIME.sub(b"% time elapsed: 0\n", b))


class P01(StreamCheck):
    id = "P01"
    quick_units, thorough_units = 64, 2000
    quick_cap = 40
    rule = "A case is one solver stream delivered under one schedule; it is non-trivial if the driver performed more than 40 operations after the solver was started."

    def unit(self, rng, index, tier):
        fam = rng.choice(list(FAMS.values()))
        if rng.random() < 0.12:
            yield from self.stdin_unit(rng)
            return
        opts, args = gen_opts(rng)
        for _ in range(6):
            recs = gen_records(rng, fam, opts)
            base = {"fam": fam.name, "opts": opts, "args": args, "records": recs, "eol": rng.choice([None, None, None, "crlf"]), "compare": 1}
            data = stream(base)
            if rng.random() < 0.2 and len(data) > 2:
                base["cut"] = len(data) - 1 if rng.random() < 0.4 else rng.randint(1, len(data))
                data = stream(base)
            base["end"] = rng.choice([["exit", 0], ["exit", 0], ["exit", 0], ["exit", 3], ["die", 11]])
            for _ in range(8):
                c = dict(base)
                c["seed"] = rng.randint(1, 1 << 30)
                c["cuts"] = gen_cuts(rng, data)
                c["delays"] = rng.choice(DELAYS)
                c["errs"] = gen_errs(rng, len(data))
                c["opcost"] = rng.choice([[1000, 1000], [200, 20000], [10000, 500000]])
                c["inject"] = gen_inject(rng)
                c["end"] = base["end"] + [rng.choice([0, 1000, 20 * MS, 3 * S])]
                if rng.random() < 0.25:
                    c["closeout"] = rng.choice([1, 1000, 20 * MS])
                if rng.random() < 0.25:
                    c["closeerr"] = rng.choice([1, 1000, 20 * MS])
                yield c

    def stdin_unit(self, rng):
        name = rng.choice(["ints", "uni", "big"])
        fam = FAMS[name]
        opts, args = gen_opts(rng, files=False, json_p=0)
        for _ in range(6):
            recs = gen_records(rng, fam, opts)
            for _ in range(4):
                c = {"fam": name, "opts": opts, "args": args, "records": recs, "stdin": 1, "eol": rng.choice([None, None, "crlf"]), "seed": rng.randint(1, 1 << 30), "inject": []}
                if rng.random() < 0.5:
                    c["inject"] = ["fault stdin - 1 0 short %d" % rng.choice([1, 2, 7, 100])]
                if rng.random() < 0.4:
                    c["inject"].append("entropy %d" % (2 * rng.randint(0, 1 << 20) + 1))
                if rng.random() < 0.3:
                    c["cut"] = rng.randint(1, max(1, len(stream(c))))
                yield c

    def execs(self, case):
        if not case.get("stdin"):
            return StreamCheck.execs(self, case)
        p = Prefix(case["args"] + ["--ozn-file", "/simwork/m.ozn"], {"m.ozn": OZN[case["fam"]], "home/": None}, {}, snap="start")
        return [(p, base_lines(case) + ["stdin " + hx(stream(case))]), (p, ["seed 1", "stdin " + hx(stream(case))])]

    def judge(self, case, rs):
        if case.get("stdin"):
            want = Ref(FAMS[case["fam"]], case["opts"], case["records"]).run(stream(case), ["none"])
            V = check_stream(case, rs[0], want=want)
        else:
            V = check_stream(case, rs[0])
        if len(rs) > 1 and not V:
            a, b = rs[0], rs[1]
            if strip_time(outputs(case, a)) != strip_time(outputs(case, b)):
                V.append(("delivery", "output differs from that of the same bytes delivered at once"))
            if a.code != b.code or a.kind != b.kind:
                V.append(("delivery-exit", "exit differs from that of the same bytes delivered at once: %s %d, %s %d" % (a.kind, a.code, b.kind, b.code)))
        return V


class P02(StreamCheck):
    id = "P02"
    quick_units, thorough_units = 72, 2500
    quick_cap = 38
    rule = "A case is one solver stream, cut at one byte position or left whole, ended in one way; it is non-trivial if the stream contains a solution or part of one."

    def unit(self, rng, index, tier):
        names = list(FAMS)
        fam = FAMS[names[index % len(names)]]
        opts, args = gen_opts(rng)
        nr = 2 if fam.name == "big" else 3
        if fam.name in ("ints", "dzn", "derived", "uni"):       # long runs: repeats far apart
            n = rng.choice([300, 800, 1500])
            pool = [fam.sol(rng) for _ in range(n)]
            vs = list(pool)
            for _ in range(n // 3):
                vs.insert(rng.randint(0, len(vs)), rng.choice(pool))
            c = {"fam": fam.name, "opts": {k: v for k, v in opts.items() if k != "ignore"}, "records": [["sol", v] for v in vs] + [["status", "=========="]], "eol": None, "seed": rng.randint(1, 1 << 30), "delays": [0], "errs": [], "opcost": [1000, 1000], "inject": []}
            c["args"] = [x for i, x in enumerate(args) if x != "--ignore-lines" and (i == 0 or args[i - 1] != "--ignore-lines")]
            d = len(stream(c))
            c["cuts"] = sorted(rng.randint(1, d - 1) for _ in range(5))
            gen_end(rng, c, ("exit",))
            yield limit_args(c)
        for rno in range(nr):
            recs = gen_records(rng, fam, opts, nmax=5)
            if not any(r[0] == "sol" for r in recs):
                recs.insert(opts.get("ignore", 0), ["sol", fam.sol(rng)])
            base = {"fam": fam.name, "opts": opts, "args": args, "records": recs, "eol": rng.choice([None, None, None, "crlf"])}
            n = len(stream(base))
            if rno == 0:      # end at every byte of a window, of the whole stream if it is short
                w = 120 if tier == "quick" else 700
                lo = rng.randint(0, max(0, n - w))
                pts = list(range(lo, min(n, lo + w) + 1))
                pts = pts[:60] + rng.sample(pts[60:], min(len(pts[60:]), 40)) if tier == "quick" else pts
            else:
                pts = [rng.randint(0, n) for _ in range(12)] + [None] * 10
            for cut in pts:
                c = dict(base)
                if cut is not None:
                    c["cut"] = cut
                c["seed"] = rng.randint(1, 1 << 30)
                data = stream(c)
                c["cuts"] = [] if rng.random() < 0.5 else gen_cuts(rng, data)
                c["delays"] = rng.choice(DELAYS)
                c["errs"] = gen_errs(rng, len(data)) if rng.random() < 0.3 else []
                c["opcost"] = [1000, 1000]
                c["inject"] = gen_inject(rng) if rng.random() < 0.5 else []
                if rng.random() < 0.15:
                    c["closeout"] = rng.choice([1, 1000, 20 * MS])
                gen_end(rng, c, ("exit", "fail", "die") if cut is not None and rng.random() < 0.8 else ("exit", "fail", "die", "limit", "int"))
                if cut is not None:
                    c.pop("tail", None)
                yield limit_args(c)

    def execs(self, case):
        return StreamCheck.execs(self, case)

    def nontrivial(self, case, rs):
        return any(r[0] == "sol" for r in case["records"])

    def judge(self, case, rs):
        return check_stream(case, rs[0])


NOISE = ["==========x", " ==========", "========== ", "=====UNSAT=====", "-----------", "=====UNKNOWN====", "=====", "UNSATISFIABLE", "x = 3", "=====unsatisfiable=====", "---------- ----------"]
START_FAULTS = ["fault exec - 1 1 ENOENT", "fault exec - 1 1 EACCES", "fault exec - 1 1 ENOMEM", "fault exec - 1 1 ENOEXEC", "fault exec - 1 1 E2BIG", "fault exec - 1 1 ETXTBSY",
                "fault exec - 1 1 EIO", "fault setpgid - 1 1 EPERM", "fault setpgid - 1 1 EACCES"]


def statuses(case, out):
    """The final statuses a user sees."""
    o = case["opts"]
    if o.get("json"):
        return [m.get("status") for m in parse_json_stream(out)[0] if m["type"] == "status"]
    ref = Ref(FAMS[case["fam"]], o, [])
    known = {ref.status_text(k): k for k in ("OPT", "UNSAT", "UNBND", "UNSATorUNBND", "UNKNOWN", "ERROR")}
    return [known[l] for l in W.dec(out).split("\n") if l in known and l]


class P03(StreamCheck):
    id = "P03"
    quick_units, thorough_units = 72, 2500
    quick_cap = 36
    rule = "A case is one solver life (start failure, stream, end by exit code, signal or stop request); it is non-trivial if the driver had to conclude a status or an exit code itself."

    def unit(self, rng, index, tier):
        names = list(FAMS)
        fam = FAMS[names[index % len(names)]]
        opts, args = gen_opts(rng)
        for k in ("time", "file"):
            opts.pop(k, None)
        args = [a for a in args if a != "--output-time"]
        if "-o" in args:
            i = args.index("-o")
            args = args[:i] + args[i + 2:]
        for rno in range(10):
            recs = gen_records(rng, fam, opts, nmax=3)
            for _ in range(rng.choice([0, 0, 1, 2])):
                recs.insert(rng.randint(opts.get("ignore", 0), len(recs)), ["raw", rng.choice(NOISE)] if opts.get("ignore", 0) == 0 else ["comment", "% " + rng.choice(NOISE)])
            base = {"fam": fam.name, "opts": opts, "args": args, "records": recs, "eol": rng.choice([None, None, None, "crlf"])}
            n = len(stream(base))
            for _ in range(11):
                c = dict(base)
                c["seed"] = rng.randint(1, 1 << 30)
                c["opcost"] = [1000, 1000]
                c["inject"] = gen_inject(rng) if rng.random() < 0.3 else []
                if rng.random() < 0.35:
                    c["cut"] = rng.randint(0, n)
                data = stream(c)
                c["cuts"] = [] if rng.random() < 0.6 else gen_cuts(rng, data)
                c["delays"] = rng.choice(DELAYS)
                c["errs"] = gen_errs(rng, len(data)) if rng.random() < 0.3 else []
                if rng.random() < 0.3:
                    c["closeout"] = rng.choice([1, 1000, 20 * MS, 2 * S])
                if rng.random() < 0.2:
                    c["closeerr"] = rng.choice([1, 1000, 20 * MS])
                if rng.random() < 0.18:
                    c["nostart"] = rng.choice(START_FAULTS)
                    c["records"], c["cuts"], c["errs"] = recs[:opts.get("ignore", 0)], [], []
                    c["cut"] = 0
                    c["inject"] = []
                    c["end"] = ["exit", 1, 0]
                    c.pop("closeout", None)
                    c.pop("closeerr", None)
                else:
                    gen_end(rng, c, ("exit", "exit", "fail", "fail", "die", "die", "limit", "int"))
                    if c["end"][0] == "fail" or c["end"][0] == "exit" and c["end"][1]:
                        c["end"][1] = rng.randint(1, 255)
                    elif c["end"][0] == "die":
                        c["end"][1] = rng.choice([1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 24, 25, 31])
                    if "cut" in c:
                        c.pop("tail", None)
                yield limit_args(c)

    def execs(self, case):
        r = StreamCheck.execs(self, case)
        if case.get("nostart"):
            r = [(p, l + [case["nostart"]]) for p, l in r]
        return r

    def valid(self, case):
        if case.get("nostart"):
            return True
        return all(r[0] == "raw" for r in case["records"][:case["opts"].get("ignore", 0)]) and len(case["records"]) >= case["opts"].get("ignore", 0)

    def nontrivial(self, case, rs):
        return bool(case.get("nostart")) or case["end"] != ["exit", 0] or not any(r[0] == "status" for r in case["records"])

    def judge(self, case, rs):
        r = rs[0]
        data = b"" if case.get("nostart") else None
        ref = Ref(FAMS[case["fam"]], case["opts"], case["records"] + case.get("tail", []))
        if data is None:
            data = stream(case) + (W.tail(case) if case["end"][2:3] == ["script"] else b"")
        want = ref.run(data, case["end"])
        V = []
        if case["end"][0] == "int":
            if (r.kind, r.code) != ("SIGNAL", case["end"][1]) and not (want["bad"] and (r.kind, r.code) == ("EXIT", 1)):
                return [("end", "driver ended with %s %d instead of dying from signal %d" % (r.kind, r.code, case["end"][1]))]
        elif r.kind != "EXIT":
            return [("end", "driver ended with %s %d instead of exiting" % (r.kind, r.code))]
        elif r.code != want["code"]:
            V.append(("exitcode", "exit code %d, expected %d" % (r.code, want["code"])))
        if case["opts"].get("json"):
            ws = [s for t, s in ref.render_json(want["events"]) if t == "status"]
        else:
            ws = [e[1] for e in want["events"] if e[0] == "status" and ref.status_text(e[1])]
        gs = statuses(case, outputs(case, r))
        if gs != ws:
            V.append(("status", "statuses printed: %s, expected %s" % (gs, ws)))
        if case.get("nostart") and not r.err.strip():
            V.append(("silent", "the solver could not be started, but no error message was printed"))
        return V


BADSTATS = ["nodes", "nodes=", "a={1,2}", "b=1..3", "c=foo", "d=\"open", "g=0.", "h=[1,2]", "i=-2.5", "include \"nope.mzn\"", "x = 3 y", "j=\"\\", "k=(|1:2|)", "l=<>", "m=x[1]"]
GOOD = "var 1..9: x; var 0..99: y; solve satisfy; output [\"x=\\(x) y=\\(y)\\n\"];\n"
ERRMODELS = {
    "syntax": "var 1..3: x; constraint x > ; solve satisfy;\n",
    "lexer": "var 1..3: x; constraint x > \"unterminated \n; solve satisfy;\n",
    "type": "var 1..3: x = \"a\"; int: y = true + {1}; solve satisfy;\n",
    "include": "include \"nope.mzn\"; solve satisfy;\n",
    "cycle": "include \"m.mzn\"; solve satisfy;\n",
    "assert": "int: n = 2; var 1..n: x; constraint assert(n > 3, \"bad \\\"n\\\" é \\x1b\\n tab\\t \\x01\"); solve satisfy;\n",
    "unsat": "var 1..3: x; constraint x > 5; solve satisfy;\n",
    "undefined": "array[1..3] of int: a=[1,2,3]; var 1..3: x; constraint x = a[7]; solve satisfy;\n",
    "div": "int: q = 1 div 0; var 1..q: x; solve satisfy;\n",
    "trace": "var 1..3: x; constraint trace(\"hello\\n\", x>0); constraint trace_stdout(\"st\\x1b \\\"q\\\"\\n\", x > 1); var 1..2: y; constraint y=trace_exp(x); output::(\"my \\\"sec\\\"\") [\"q\\(x)\"]; output [\"z\\x02\\n\"]; solve satisfy;\n",
    "nodata": "int: n; enum E; var 1..n: x; var E: e; solve satisfy;\n",
    "nosolve": "var 1..3: x;\n",
    "twosolve": "var 1..3: x; solve satisfy; solve maximize x;\n",
    "abort": "constraint abort(\"stop\\nhere \\x07\"); solve satisfy;\n",
    "empty": "",
    "nul": "var 1..3: x; \0 solve satisfy;\n",
    "latin": b"var 1..3: x; % \xe9\nconstraint x > \"\xe9\"; solve satisfy;\n",
    "warn": "var 1..3: x; var 1..3: y; constraint x = 2 -> 1 div (y-y) > 0; constraint [1,2,3][x+y] > 0; solve maximize x; output [\"a\\x1fb\\(x)\"];\n",
}
ERRARGS = [[], ["-s"], ["--compiler-statistics"], ["-v"], ["--output-time"], ["-s", "--output-time"], ["--output-mode", "json"], ["-O2"], ["--verbose-compilation"], ["-c"], ["--no-output-comments"],
           ["--solver", "nope"], ["--bad-option"], ["-d", "nope.dzn"], ["nope.mzn"], ["-D", "n="], ["-D", "n=2.5;"], ["--param-file", "nope.mpc"], ["--time-limit", "x"], ["--time-limit", "1"], ["-D", "n=4; E={A,B};"],
           ["--cmdline-json-data", "{\"n\": [1,}"], ["-I", "/nope"], ["--stdlib-dir", "/nope"], ["--globals-dir", "nope"], ["-d", "bad.dzn"], ["-d", "bad.json"], ["--solver", "broken"], ["-o", "/simwork/nodir/out.txt"], ["--werror"], ["-Werror"], ["--dump-core-on-abort"]]
ERRFAULTS = ["fault fork - 1 1 EAGAIN", "fault pipe - %d %d EMFILE", "fault select - %d %d EBADF", "fault openw fzn 1 0 EACCES", "fault writef fzn 1 0 ENOSPC", "fault openr m.mzn 1 0 EACCES", "fault openr stdlib.mzn 1 0 EIO",
             "fault readf m.mzn 1 0 EIO", "fault opendir - 1 0 EACCES", "fault mkstemps - 1 0 ENOSPC", "fault mkdtemp - 1 0 ENOSPC", "fault exec - 1 1 ENOENT", "fault read - 1 1 EIO", "fault waitpid - 1 1 ECHILD"]


class P08(StreamCheck):
    id = "P08"
    quick_units, thorough_units = 80, 2500
    quick_cap = 40
    rule = "A case is one run in JSON-stream mode (one solver life, or one failing invocation); it is non-trivial if it printed at least one message."

    def unit(self, rng, index, tier):
        if index % 4 == 3:
            yield from self.err_unit(rng, tier)
            return
        names = list(FAMS)
        fam = FAMS[names[rng.randrange(len(names))]]
        opts, args = gen_opts(rng, json_p=1)
        for rno in range(9):
            recs = gen_records(rng, fam, opts, ctrl=True, nmax=4)
            base = opts.get("ignore", 0)
            for bs in rng.sample(BADSTATS, rng.choice([0, 1, 2])):
                at = rng.randint(base, len(recs))
                recs[at:at] = [["raw", "%%%mzn-stat: " + bs]] if not base else [["comment", "% stat"]]
            b = {"fam": fam.name, "opts": opts, "args": args, "records": recs, "eol": rng.choice([None, None, None, "crlf"])}
            n = len(stream(b))
            for k in range(8):
                c = dict(b)
                c["seed"] = rng.randint(1, 1 << 30)
                c["opcost"] = [1000, 1000]
                c["inject"] = gen_inject(rng) if rng.random() < 0.4 else []
                if rng.random() < 0.5:
                    c["cut"] = rng.randint(0, n)
                data = stream(c)
                c["cuts"] = [] if rng.random() < 0.4 else gen_cuts(rng, data)
                c["delays"] = rng.choice(DELAYS)
                c["errs"] = gen_errs(rng, len(data)) if rng.random() < 0.4 else []
                if rng.random() < 0.1:
                    c["sysfault"] = rng.choice(ERRFAULTS[:3] + ERRFAULTS[11:]).replace("%d %d", "%d %d" % ((rng.randint(1, 3),) * 2))
                gen_end(rng, c, ("exit", "exit", "fail", "die", "limit", "int"))
                if "cut" in c:
                    c.pop("tail", None)
                if k == 0 and not c.get("sysfault"):
                    c["text"] = 1
                yield limit_args(c)

    def err_unit(self, rng, tier):
        for _ in range(16 if tier == "quick" else 60):
            f = rng.choice(ERRFAULTS).replace("%d %d", "%d %d" % ((rng.randint(1, 4),) * 2)) if rng.random() < 0.4 else None
            m = rng.choice(list(ERRMODELS) + ["good"] * (8 if f else 4))
            a = rng.choice(ERRARGS) if rng.random() < 0.75 else []
            yield {"errmode": m, "args": a, "inject": [f] if f else [], "seed": rng.randint(1, 1 << 30), "opts": {}, "records": []}

    def execs(self, case):
        if "errmode" in case:
            m = ERRMODELS.get(case["errmode"], GOOD)
            files = {"bin/fz": "#!/bin/sh\n", "solvers/fz.msc": W.conf(), "solvers/broken.msc": "{ \"id\": \"broken\", \"name\": \"br\u0001ken\", ", "m.mzn": m, "home/": None,
                     "bad.dzn": "x = 1;\ny = \n", "bad.json": "{\"n\": [1,, }"}
            p = Prefix(["--json-stream"] + ([] if "--solver" in case["args"] else ["--solver", "org.sim.fz"]) + case["args"] + ["m.mzn"], files, {"MZN_SOLVER_PATH": "/simwork/solvers"}, snap="start")
            return [(p, base_lines(case) + ["plan 0", "start 1000 1000", "a out 1000 " + hx("x = 1;\ny = 2;\n----------\n"), "a exit 1000 0"])]
        r = StreamCheck.execs(self, case)
        if case.get("sysfault"):
            r = [(r[0][0], r[0][1] + [case["sysfault"]])]
        if case.get("text"):
            c = dict(case)
            c["opts"] = {k: v for k, v in case["opts"].items() if k != "json"}
            c["args"] = [a for a in case["args"] if a != "--json-stream"]
            r += StreamCheck.execs(self, c)[:1]
        return r

    def valid(self, case):
        return "errmode" in case or all(r[0] == "raw" for r in case["records"][:case["opts"].get("ignore", 0)]) and len(case["records"]) >= case["opts"].get("ignore", 0)

    def nontrivial(self, case, rs):
        return rs[0].out != b""

    def probe(self, case, rs):
        if "errmode" in case:
            return ["err-run"] + ["type:" + m["type"] for m in parse_json_stream(rs[0].out)[0]]
        return ["end:" + case["end"][0]]

    def judge(self, case, rs):
        r = rs[0]
        if "errmode" in case or case.get("sysfault"):
            V = []
            if r.kind not in ("EXIT",) and not ("end" in case and case["end"][0] == "int" and r.kind == "SIGNAL"):
                V.append(("end", "driver ended with %s %d" % (r.kind, r.code)))
            out = outputs(case, r)
            msgs, e = parse_json_stream(out)
            if e:
                V.append(("json", e))
            elif r.kind == "EXIT" and r.code != 0 and not any(m["type"] in ("error", "status") for m in msgs) and not r.err.strip():
                V.append(("no-error", "exit code %d without any error message" % r.code))
            return V
        V = [(c, m) for c, m in check_stream(case, r) if c in ("end", "json", "output", "stray-output")]
        if len(rs) > 1 and not V:
            c = dict(case)
            c["opts"] = {k: v for k, v in case["opts"].items() if k != "json"}
            V = [("text-" + k, "plain text run of the same stream: " + m) for k, m in check_stream(c, rs[1]) if k in ("end", "output")]
        return V


OZN = {"ints": 'output ["x=\\(x) y=\\(y)\\n"];\nint: x;\nint: y;\n', "uni": None, "big": 'output ["a=\\(a)\\n", "sum \\(sum(a))\\n"];\narray [1..700] of int: a;\n'}
OZN["uni"] = FAMS["uni"].model.replace("var 1..9: x; var 0..99: y; solve satisfy;", "int: x; int: y;")
