"""P04, P05, P06, P07: supervision of an external solver: time limits, interrupts, clean-up, failing system calls."""
import json
from engine import Check
from simlib import MS, S, hx
import workloads as W
from workloads import FAMS, Ref, prefix, base_lines, stream, rec_bytes
from stream_checks import StreamCheck, check_stream, gen_records, gen_opts, gen_cuts, gen_inject, gen_errs, outputs, statuses



def no_ignore(opts, args):
    """--ignore-lines counts lines; what a handler writes first would be dropped instead."""
    if "ignore" in opts:
        del opts["ignore"]
        i = args.index("--ignore-lines")
        args = args[:i] + args[i + 2:]
    return opts, args


CONF_T = dict(stdFlags=["-a", "-n", "-s", "-i", "-r", "-v", "-t"])


def tail_bytes(case, sg):
    o = case.get("on", {}).get(str(sg))
    if not o or o[0] != "script":
        return b""
    fam = FAMS[case["fam"]]
    return b"".join(rec_bytes(fam, r, case.get("eol")) for r in o[2])


def life_lines(case):
    """Scenario lines of a solver's whole life.
    case: records, cuts, delays, lead, errs, closeout, closeerr, helper [duration, own group], loop delay,
    end ["exit", code, dt] | ["die", sig, dt] | ["run"], on {sig: ["ignore"] | ["default"] | ["script", delay, records, exit code or None]}"""
    data = stream(case)
    n = len(data)
    cuts = sorted(set(c for c in case.get("cuts", []) if 0 < c < n))
    pos = [0] + cuts + [n]
    dl = case.get("delays") or [1000]
    errs = sorted(case.get("errs", []), key=lambda e: e[0])
    L = ["plan 0", "start %d %d" % tuple(case.get("start", [20000, 50000]))]
    acts = []
    if case.get("helper"):
        acts.append("a helper 1000 %d %d" % tuple(case["helper"]))
    lead = case.get("lead", 0)
    ei = 0
    for i in range(len(pos) - 1):
        while ei < len(errs) and errs[ei][0] <= pos[i]:
            acts.append("a err %d %s" % (errs[ei][2], hx(errs[ei][1])))
            ei += 1
        if pos[i + 1] > pos[i]:
            acts.append("a out %d %s" % (dl[i % len(dl)] + lead, hx(data[pos[i]:pos[i + 1]])))
            lead = 0
    for e in errs[ei:]:
        acts.append("a err %d %s" % (e[2], hx(e[1])))
    if case.get("closeout"):
        acts.append("a closeout %d" % case["closeout"])
    if case.get("closeerr"):
        acts.append("a closeerr %d" % case["closeerr"])
    if case.get("loop"):
        acts.append("a loop %d 0" % case["loop"])
    e = case.get("end", ["run"])
    if e[0] in ("exit", "die"):
        acts.append("a %s %d %d" % (e[0], e[2] + lead, e[1]))
    L += acts
    for sg, o in case.get("on", {}).items():
        L.append("on %s %s" % (sg, o[0]))
        if o[0] == "script":
            t = tail_bytes(case, sg)
            if t:
                L.append("s %s out %d %s" % (sg, o[1], hx(t)))
            if o[3] is not None:
                L.append("s %s exit %d %d" % (sg, o[1], o[3]))
    return L


class Life:
    """What happened to the first solver of a run, from the simulator's records."""

    def __init__(self, case, r):
        self.case, self.r = case, r
        self.sent = [(int(l[1]) / MS, l[2], int(l[3]), int(l[4]), l[5]) for l in r.exl("sent") if l[3] != "1000"]
        raised = set(l[1] for l in r.exl("sent") if l[3] == "1000")       # by the driver on itself
        self.handled = [(int(l[1]) / MS, int(l[3]), int(l[4])) for l in r.exl("handled")]
        self.drv = [(int(l[1]) / MS, int(l[2]), l[3]) for l in r.exl("drvsig") if l[1] not in raised]
        self.stalls = [(int(l[2]) / MS, int(l[3]) / MS) for l in r.exl("fired") if l[1] == "stall"]      # end, length
        self.inwait = [int(l[1]) / MS for l in r.exl("stalled-in-wait")]
        self.stall = sum(x[1] for x in self.stalls)
        e = r.exl("procend")
        self.ended = int(e[0][1]) / MS if e else None
        self.status = int(e[0][3]) if e else None
        pc = r.exl("pc")
        self.n = int(e[0][4]) if e else (int(pc[0][5]) if pc else 0)
        self.reaped = [(int(l[1]) / MS, int(l[2]), int(l[3])) for l in r.exl("reaped")]
        self.finish = r.sim_ns / MS

    def late(self, due):
        """How long the driver may at most have been unable to act on something due at the given time."""
        return max([0] + [e - due if not any(0 <= w - e < 5 for w in self.inwait) else n for e, n in self.stalls])

    def data(self):
        """The bytes the solver actually wrote to its standard output."""
        c = self.case
        main = stream(c)
        if c.get("loop") and main:
            main = main * (self.n // len(main) + 1)
        out, prev, src = b"", 0, main
        for _, sg, n in self.handled:
            out += src[:n - prev]
            prev, src = n, tail_bytes(c, sg)
        return out + src[:self.n - prev]

    def natural(self):
        """How the solver ended, if it ended by itself: ["exit", code] or ["die", sig]."""
        if self.status is None:
            return None
        return ["die", self.status & 127] if self.status & 127 else ["exit", self.status >> 8]


def life_ref(case, life):
    recs = list(case["records"])
    for o in case.get("on", {}).values():
        if o[0] == "script":
            recs += o[2]
    return Ref(FAMS[case["fam"]], case["opts"], recs)


def child_setup(r):
    """The solver must be able to receive the signals sent to it."""
    V = []
    for l in r.exl("child"):
        d = dict(zip(l[2::2], l[3::2]))
        if d["pgid"] != "1":
            V.append(("child-group", "the solver was started in the driver's process group"))
        if d["ignint"] != "0" or d["ignterm"] != "0" or d["blkint"] != "0" or d["blkterm"] != "0":
            V.append(("child-signals", "the solver was started with interrupts ignored or blocked: %s" % " ".join(l)))
    return V


def gen_life(rng, fam, opts, T, relation, tails=True, C=1000):
    """A solver life around the time limit of T ms."""
    recs = gen_records(rng, fam, opts, nmax=4)
    c = {"fam": fam.name, "opts": opts, "records": recs, "eol": rng.choice([None, None, None, "crlf"]), "seed": rng.randint(1, 1 << 30), "opcost": rng.choice([[1000, 1000], [200, 5000]])}
    c["on"] = {}
    scripted = tails and rng.random() < 0.5
    if scripted:       # written between whole records only, so that a handler's output starts at a record
        pos, p = [], 0
        for r in recs:
            p += len(rec_bytes(fam, r, c["eol"]))
            pos.append(p)
        c["cuts"] = pos
    else:
        data = stream(c)
        if rng.random() < 0.3 and len(data) > 2:
            c["cut"] = rng.randint(1, len(data))
            data = stream(c)
        c["cuts"] = gen_cuts(rng, data)[:60]
    parts = False          # what a second handler writes must start at a record
    for sg in (2, 15):
        k = rng.choice(["default", "ignore", "script", "script"][:2 if parts else 4]) if scripted else rng.choice(["default", "default", "ignore"])
        if k == "script":
            tl = [["sol", fam.sol(rng)] for _ in range(rng.choice([0, 1, 1, 2]))]
            if rng.random() < 0.3 and not any(r[0] == "status" for r in recs):
                tl.append(["status", rng.choice(["==========", "=====UNKNOWN====="])] if tl else ["status", "=====UNKNOWN====="])
            elif rng.random() < 0.2 and not any(o[0] == "script" for o in c["on"].values()):
                tl.append(["part", fam.sol(rng)])
                parts = True
            c["on"][str(sg)] = ["script", rng.choice([0, 1000, 30 * MS, int(C * 0.4 * MS), int(C * 0.9 * MS), int(C * 1.1 * MS) + 5 * MS, int(2.5 * C * MS)]), tl, rng.choice([0, 0, 0, 3, None])]
        elif k != "default":
            c["on"][str(sg)] = [k]
    if rng.random() < 0.3:
        c["errs"] = gen_errs(rng, len(stream(c)))
    n = len(c["cuts"]) + 1
    Tn = int(T * MS)
    if relation == "before":
        total = int(Tn * rng.choice([0.1, 0.5, 0.9]))
        c["delays"] = [max(0, total // (n + 2) - 2000)]
        c["errs"] = [[e[0], e[1], 0] for e in c.get("errs", [])]
        c["end"] = [rng.choice(["exit", "exit", "die"]), 0, total // (n + 2)]
        c["end"][1] = rng.choice([0, 0, 0, 1, 5]) if c["end"][0] == "exit" else rng.choice([9, 11, 15])
    elif relation == "race":
        c["delays"] = [0]
        c["lead"] = 0
        c["errs"] = []
        c["end"] = ["exit", rng.choice([0, 0, 4]), max(0, Tn + rng.choice([-2000000, -1000000, -200000, -60000, -20000, 0, 20000, 60000, 1000000]))]
    else:
        c["end"] = ["run"]
        k = rng.random()
        if k < 0.4:
            c["delays"] = [int(Tn / (n + 1) * rng.choice([0.1, 0.5, 0.9, 1.0, 1.3, 2.0]))]
        else:
            c["delays"] = rng.choice([[0], [1000], [10 * MS], [S]])
        if k > 0.9:
            c["lead"] = Tn + rng.choice([-1000, 0, 1000, 100 * MS])
        if rng.random() < 0.25 and "cut" not in c and fam.name != "big" and not any(r[0] in ("status", "stat", "raw", "part") for r in recs) and stream(c).endswith(b"\n") and not opts.get("ignore"):
            c["loop"] = max(rng.choice([MS, 10 * MS, 100 * MS]), Tn // 60)
        if rng.random() < 0.15:
            c["closeout"] = rng.choice([1000, Tn // 2, Tn])
            if rng.random() < 0.5:
                c["closeerr"] = rng.choice([1000, Tn // 3])
        elif rng.random() < 0.1:
            c["closeerr"] = rng.choice([1000, Tn // 3])
        if rng.random() < 0.15:
            c["helper"] = [rng.choice([0, Tn // 2, 2 * Tn + 3 * S]), rng.randint(0, 1)]
    c["inject"] = []
    if rng.random() < 0.3:
        c["inject"] += [x for x in gen_inject(rng) if not x.startswith("stall")]
    if rng.random() < 0.15:
        c["inject"].append("stall op %d %d" % (rng.randint(10, 80), rng.choice([MS, Tn // 2, Tn, Tn + S])))
    if rng.random() < 0.25:
        c["inject"].append("jump op %d %d" % (rng.randint(10, 120), rng.choice([-3600 * S, 3600 * S, -Tn, Tn, 40 * 365 * 86400 * S])))
    if rng.random() < 0.15:
        c["start"] = rng.choice([[0, 1000], [5 * MS, 30 * MS], [2 * Tn, 2 * Tn + MS]])
    return c


class P04(StreamCheck):
    id = "P04"
    quick_units, thorough_units = 96, 3000
    quick_cap = 40
    cache_size = 4
    rule = "A case is one solver life under a time limit; it is non-trivial if the limit expired or the solver ended within 10 % of it."

    def unit(self, rng, index, tier):
        fam = FAMS[rng.choice(list(FAMS))]
        opts, args = no_ignore(*gen_opts(rng, files=False))
        C = rng.choice([1000, 1000, 1000, 100, 250, 3000, 30])
        a = list(args) + ([] if C == 1000 else ["--cleanup-time-limit", str(C)])
        sigint = rng.random() < 0.3
        if sigint:
            a.append("--fzn-sigint")
        supt = rng.random() < 0.3
        if index % 4 == 3:
            yield from self.overall(rng, fam, opts, a, C, sigint, supt, tier)
            return
        for _ in range(3):
            T = rng.choice([1000, 5000, 50, 137, 7, 60000, 3600000, 1, 2500])
            for _ in range(34):
                rel = rng.choice(["before", "race", "past", "past", "past"])
                c = gen_life(rng, fam, opts, T + (C if supt else 0), rel, C=C)
                c.update(args=a + ["--solver-time-limit", str(T)], T=T, C=C, sigint=sigint, supt=supt)
                yield c

    def overall(self, rng, fam, opts, a, C, sigint, supt, tier):
        if fam.name == "big":
            fam = FAMS["ints"]
        for _ in range(4 if tier == "quick" else 12):
            T = rng.choice([1000, 5000, 30000])
            for _ in range(3):
                rel = rng.choice(["race", "past", "past"])
                c = gen_life(rng, fam, opts, T, rel, C=C)
                c["inject"] = [x for x in c["inject"] if not x.startswith("stall")]
                c.pop("helper", None)
                c.pop("closeout", None)
                frac = rng.choice([0.02, 0.2, 0.5, 0.8])
                c.update(args=a + ["--time-limit", str(T)], T=T, C=C, sigint=sigint, supt=supt, overall=1, alloccost=int(T * frac * MS / 640000) + 1)
                if rng.random() < 0.35:
                    st = rng.choice([500, T, 2 * T])
                    c["args"] += ["--solver-time-limit", str(st)]
                    c["ST"] = st
                yield c

    def execs(self, case):
        conf = CONF_T if case["supt"] else None
        L = base_lines(case) + life_lines(case)
        if case.get("overall"):
            L.append("alloccost %d" % case["alloccost"])
        return [(prefix(case, "start" if case.get("overall") else "fork", conf), L)]

    def valid(self, case):
        if any(o[0] == "script" for o in case.get("on", {}).values()):
            pos, p = set(), 0
            for r in case["records"]:
                p += len(rec_bytes(FAMS[case["fam"]], r, case["eol"]))
                pos.add(p)
            if any(c not in pos for c in case["cuts"]):
                return False
        return StreamCheck.valid(self, case)

    def nontrivial(self, case, rs):
        l = Life(case, rs[0])
        return bool(l.sent) or case["end"][0] != "run" and case["end"][2] > 0.8 * case["T"] * MS

    def probe(self, case, rs):
        l = Life(case, rs[0])
        p = ["signals:%d" % len(l.sent)]
        for x in ("helper", "closeout", "loop", "overall", "supt", "sigint", "ST"):
            if case.get(x):
                p.append(x)
        if l.handled:
            p.append("handler-ran")
        return p

    def judge(self, case, rs):
        r = rs[0]
        if r.kind not in ("EXIT",):
            return [("end", "driver ended with %s %d" % (r.kind, r.code))]
        l = Life(case, r)
        T, C = case["T"], case["C"]
        V = child_setup(r)
        fork_t = 0.0
        if case.get("overall"):
            e = r.exl("exec")
            if not e:       # the limit expired during compilation
                return V
            ac = case["alloccost"]
            slack = 25 + 40000 * ac / MS
            start = None
        else:
            ac = 100
            slack = 25
        nlines = l.n / 10.0
        slack += l.stall + r.ops * case["opcost"][1] / MS + (nlines * 3 + 2000 * nlines / 8) * ac / MS
        first = T + (C if case["supt"] else 0)
        if case.get("ST"):       # also limited relative to the start of the solver: only the bounds that hold either way
            lo, hi = min(T, case["ST"]) + (C if case["supt"] else 0), first + slack
        elif case.get("overall"):
            lo, hi = first, first + slack
        else:
            lo, hi = first, first + slack - l.stall + l.late(first)
        order = ([2] if case["sigint"] else []) + [15, 9]
        own = [s for s in l.sent if s[4] in ("own", "nogroup")]
        groups = []
        for s in own:                      # killpg and its fallback kill are one request
            if groups and s[3] == groups[-1][1] and groups[-1][2] == "nogroup" and s[1] == "pid":
                groups[-1][2] = "own"
                continue
            groups.append([s[0], s[3], s[4]])
        if groups:
            if groups[0][0] < lo - 1.01:
                V.append(("early", "solver signalled after %.3f ms, limit %d ms" % (groups[0][0], lo)))
            if l.ended is not None and l.ended < groups[0][0] and not case.get("helper") and l.ended < groups[0][0] - slack:
                V.append(("needless", "solver ended after %.3f ms but was signalled after %.3f ms" % (l.ended, groups[0][0])))
            if [g[1] for g in groups] != order[:len(groups)]:
                V.append(("escalation", "signals sent: %s, expected a prefix of %s" % ([g[1] for g in groups], order)))
            for i in range(len(groups) - 1):
                d = groups[i + 1][0] - groups[i][0]
                if d < C - 1.01 - l.stall:
                    V.append(("grace", "signal %d followed signal %d after %.3f ms, grace period %d ms" % (groups[i + 1][1], groups[i][1], d, C)))
                if d > C + slack and (l.ended is None or l.ended > groups[i + 1][0] - 0.5):
                    V.append(("slow", "signal %d followed signal %d after %.3f ms, grace period %d ms" % (groups[i + 1][1], groups[i][1], d, C)))
        dead = l.ended if l.ended is not None else l.finish
        if dead > hi and (not groups or groups[0][0] > hi):
            V.append(("late", "limit %d ms, but the first signal was sent %s and the solver ended after %.3f ms" % (first, "never" if not groups else "after %.3f ms" % groups[0][0], dead)))
        if l.finish > T + 4 * C + slack and l.finish > hi + 2 * C:
            V.append(("overrun", "driver ended after %.3f ms, limit %d ms, grace period %d ms" % (l.finish, T, C)))
        if V:
            return V
        # everything received is printed
        ref = life_ref(case, l)
        data = l.data()
        sig_first = groups and (l.ended is None or groups[0][0] <= l.ended)
        ends = []
        if groups:
            ends.append(["limit"])
        if not sig_first and l.natural():
            ends.append(l.natural())
        if not ends:
            return [("no-end", "the solver neither ended nor was stopped")]
        res = None
        for e in ends:
            v = check_stream(dict(case, errs=[]), r, ref=ref, want=ref.run(data, e), end=e, data=data)
            v = [x for x in v if x[0] not in ("stderr",)]
            if not v:
                res = []
                break
            res = res or v
        return V + res


def requests(l):
    """Signals the driver sent to the solver, killpg and its fallback counted once: [time, signal, ok]."""
    g = []
    for s in l.sent:
        if s[4] not in ("own", "nogroup"):
            continue
        if g and s[3] == g[-1][1] and g[-1][2] == "nogroup" and s[1] == "pid":
            g[-1][2] = "own"
            continue
        g.append([s[0], s[3], s[4]])
    return g


def clean_up(r, V):
    """What must hold at the end of every run, however it ended."""
    for l in r.exl("proc"):
        if l[2] == "solver" and l[3] != "dead":
            V.append(("solver-left", "the solver is still running after the end of the driver: %s" % " ".join(l)))
        elif l[2] == "solver" and "reaped" not in l:
            V.append(("zombie", "the solver was not collected: %s" % " ".join(l)))
    for l in r.exl("left"):
        V.append(("temp-left", "temporary file left behind: %s" % " ".join(l[1:])))
    for l in r.exl("sent"):
        if l[5] in ("foreign", "gone"):
            V.append(("foreign-signal", "signal sent to a process that is not the solver: %s" % " ".join(l)))
    for w, t in (("unlinked-while-running", "temporary file removed while the solver runs"), ("unlink-outside", "file removed outside the temporary directory"),
                 ("unlink-in-child", "file removed by the child process"), ("childcrash", "the child process crashed")):
        for l in r.exl(w):
            V.append((w, "%s: %s" % (t, " ".join(l[1:]))))
    return V


class P05(StreamCheck):
    id = "P05"
    quick_units, thorough_units = 96, 3000
    quick_cap = 30
    cache_size = 4
    rule = "A case is one solver life during which the driver receives one or more interrupt or termination signals; it is non-trivial if the driver handled a signal while supervising the solver."

    def unit(self, rng, index, tier):
        fam = FAMS[rng.choice(list(FAMS))]
        opts, args = no_ignore(*gen_opts(rng, files=False))
        C = rng.choice([1000, 1000, 1000, 100, 250, 3000, 30])
        a = list(args) + ([] if C == 1000 else ["--cleanup-time-limit", str(C)])
        sigint = rng.random() < 0.3
        if sigint:
            a.append("--fzn-sigint")
        for _ in range(2):
            T = rng.choice([0, 0, 100, 5000])
            for _ in range(48):
                X = rng.choice([1000, 5000, 50, 137, 7, 60000, 1, 2500])
                c = gen_life(rng, fam, opts, X, rng.choice(["before", "race", "past", "past", "past", "past"]), C=C)
                c.update(args=a + (["--solver-time-limit", str(T)] if T else []), T=T, C=C)
                sigs, t = [], X * MS
                k = rng.random()
                for i in range(rng.choice([1, 1, 2, 3, 5])):
                    sg = rng.choice([2, 15])
                    if k < 0.3:
                        sigs.append("sig %d op %d" % (sg, rng.choice([rng.randint(1, 25), rng.randint(1, 25), rng.randint(20, 120)])))
                    elif k < 0.4:
                        sigs.append("sig %d at %d" % (sg, rng.randint(0, 300000)))
                    else:
                        sigs.append("sig %d at %d" % (sg, max(0, t)))
                        t += rng.choice([0, 1000, 100000, int(C * 0.5 * MS), int(C * MS), int(C * MS) + 1000, int(2 * C * MS), 10 * S])
                if all(" op " in x for x in sigs):      # the operation may not be reached while the solver is silent
                    sigs.append("sig 15 at %d" % (X * MS + 30 * S))
                    if c.get("loop"):
                        c["loop"] = max(c["loop"], (X * MS + 30 * S) // 60)
                c["sigs"] = sigs
                yield c

    def execs(self, case):
        return [(prefix(case, "fork"), base_lines(case) + case["sigs"] + life_lines(case))]

    valid = P04.valid

    def reduce(self, case):
        n = len(case["sigs"])
        for i in range(n):
            if n > 1 and any(" at " in x for x in case["sigs"][:i] + case["sigs"][i + 1:]):
                c = json.loads(json.dumps(case))
                del c["sigs"][i]
                yield c
        yield from StreamCheck.reduce(self, case)

    def nontrivial(self, case, rs):
        return any(k == "handler" for _, _, k in Life(case, rs[0]).drv)

    def probe(self, case, rs):
        l = Life(case, rs[0])
        return ["signals:%d" % len(l.sent), "delivered:" + "/".join(sorted(set(k for _, _, k in l.drv)))] + (["handler-ran"] if l.handled else []) + [x for x in ("helper", "closeout", "loop") if case.get(x)]

    def judge(self, case, rs):
        r = rs[0]
        l = Life(case, r)
        V = child_setup(r)
        C, T = case["C"], case["T"]
        took = sorted(set((t, s) for t, s, k in l.drv if k in ("handler", "pending")))
        dead = [(t, s) for t, s, k in l.drv if k == "default"]
        if r.kind not in ("EXIT", "SIGNAL"):
            return [("end", "driver ended with %s %d" % (r.kind, r.code))]
        slack = 25 + l.stall + r.ops * case["opcost"][1] / MS + (l.n / 10.0 * 3 + 2000 * l.n / 80.0) * 100 / MS
        first = {}
        for t, s in took:
            first.setdefault(s, t)
        g = requests(l)
        alive = lambda t: l.ended is None or l.ended > t + 0.01
        for s, t in first.items():
            if alive(t + slack) and not any(t - 0.01 <= q[0] <= t + slack and (q[1] == s or q[1] == 15 and 15 in first and first[15] <= t + slack or q[1] == 9) for q in g):
                V.append(("not-forwarded", "signal %d received after %.3f ms was not forwarded to the solver; requests: %s" % (s, t, g)))
        t0 = min(first.values()) if first else None
        if g and (t0 is None or g[0][0] < t0 - 0.01) and not (T and g[0][0] >= T - 1.01):
            V.append(("needless", "the solver was signalled after %.3f ms without any reason" % g[0][0]))
        for i in range(len(g)):
            nxt = g[i + 1][0] if i + 1 < len(g) else None
            gap = (nxt if nxt is not None else (l.ended if l.ended is not None else l.finish)) - g[i][0]
            if gap > C + slack and alive(g[i][0] + C + slack):
                V.append(("slow", "nothing followed signal %d for %.3f ms, grace period %d ms" % (g[i][1], gap, C)))
            if nxt is not None and gap < C - 1.01 - l.stall and not any(g[i][0] - l.stall - 25 <= t <= nxt + 0.01 for s, t in first.items() if s == g[i + 1][1]):
                V.append(("grace", "signal %d followed signal %d after %.3f ms, grace period %d ms" % (g[i + 1][1], g[i][1], gap, C)))
        if first:
            bound = max(first.values()) + 3 * C + 2 * slack
            if l.finish > bound:
                V.append(("overrun", "driver ended after %.3f ms; last interrupt after %.3f ms, grace period %d ms" % (l.finish, max(first.values()), C)))
        if V:
            return V
        clean = not dead
        ref = life_ref(case, l)
        data = l.data()
        if first and not dead:
            sgs = list(first)
            want = ref.run(data, ["int", sgs[0]])
            best = None
            for s in sgs:
                v = check_stream(dict(case, errs=[]), r, ref=ref, want=want, end=["int", s], data=data)
                v = [x for x in v if x[0] != "stderr"]
                best = v if best is None or len(v) < len(best) else best
            V += best
        elif not dead:          # every signal came after the end of the driver
            ends = ([["limit"]] if g else []) + ([l.natural()] if l.natural() and not (g and g[0][0] < l.ended) else [])
            best = None
            for e in ends:
                v = [x for x in check_stream(dict(case, errs=[]), r, ref=ref, want=ref.run(data, e), end=e, data=data) if x[0] != "stderr"]
                best = v if best is None or len(v) < len(best) else best
            V += best or []
        else:
            # a signal outside of the supervision of the solver ends the driver at once
            if r.kind != "SIGNAL":
                V.append(("end", "driver ended with %s %d" % (r.kind, r.code)))
            if l.ended is None and r.exl("exec"):
                V.append(("solver-left", "the driver died from signal %d while the solver was running" % r.code))
            ev = ref.run(data, ["exit", 0])["events"]
            if not case["opts"].get("json") and ref.fam.section != "json" and "--no-flush-output" not in case["args"] and not case["opts"].get("canonical"):
                out = W.TIME.sub(b"", r.out)
                if not W.dec(out).startswith(ref.render([e for e in ev if e[0] != "status"])) and not ref.render(ev).startswith(W.dec(out)):
                    V.append(("output", "output of the interrupted run is neither complete nor a prefix: %r" % r.out[-300:]))
        if clean:
            clean_up(r, V)
        return V
