"""P06, P07: clean-up after every kind of ending; failing system calls."""
import json, re
from engine import Check
from simlib import Prefix, MS, S, hx
import workloads as W
from worlds import WORLDS, SOL
from process_checks import clean_up, Life

SYSCALLS = [("pipe", ["EMFILE", "ENFILE"], 3), ("fork", ["EAGAIN", "ENOMEM"], 1), ("exec", ["ENOENT", "EACCES", "ENOMEM", "E2BIG", "ETXTBSY"], 1), ("dup2", ["EBADF", "EMFILE", "EINTR"], 3),
            ("setpgid", ["EPERM", "EACCES"], 1), ("waitpid", ["ECHILD", "EINVAL", "EINTR"], 3), ("select", ["EBADF", "EINVAL", "ENOMEM", "EINTR"], 6), ("read", ["EIO", "EINVAL", "EBADF", "EINTR", "EAGAIN"], 6),
            ("mkstemps", ["ENOSPC", "EACCES", "EMFILE"], 2), ("mkdtemp", ["ENOSPC", "EACCES"], 1), ("unlink", ["EACCES", "EBUSY"], 1), ("killpg", ["EPERM", "ESRCH"], 1), ("thread", ["EAGAIN"], 1)]
TRANSIENT = ("EINTR", "EAGAIN")
GARBAGE = [["x = ;\n----------\n"], ["x = 3;\ny = 4\n----------\n"], ["y = {1..;\n", "----------\n"], ["no solution at all\n----------\n"], ["x = 3; z = 5;\n----------\n"], ["x = \"str\";\ny = 1;\n----------\n"], ["\xff\xfe(\n----------\n"], [SOL % (3, 4), "x = 1..;\n----------\n", SOL % (5, 6)]]


def gen_schedule(rng):
    L = []
    if rng.random() < 0.5:
        L.append("opcost %d %d" % tuple(rng.choice([(200, 5000), (1000, 1000), (10000, 300000)])))
    if rng.random() < 0.3:
        a = rng.randint(1, 8)
        L.append("fault read - %d %d short %d" % (a, a + rng.randint(0, 6), rng.choice([1, 2, 5, 20])))
    return L


class SystemCheck(Check):
    memo = True
    cache_size = 5

    def base(self, case):
        return ["seed %d" % case.get("seed", 1)]

    def execs(self, case):
        w = WORLDS[case["world"]]
        p = w.prefix(case.get("snap", "fork"), case.get("args", []))
        r = [(p, self.base(case) + case["script"] + case["inject"])]
        if case.get("compare"):
            r.append((p, ["seed 1"] + w.script()))
        return r

    def reduce(self, case):
        for key in ("inject", "script"):
            L = case[key]
            for i in range(len(L)):
                if L[i].startswith(("plan", "start", "a exit", "a die")) or key == "inject" and case.get("compare") and L[i] == case.get("what"):
                    continue
                if key == "script" and case.get("compare"):
                    continue
                c = json.loads(json.dumps(case))
                del c[key][i]
                yield c

    def probe(self, case, rs):
        p = ["world:" + case["world"], "how:" + case["how"]]
        p += ["fired:" + k for k in rs[0].fired()]
        return p


class P06(SystemCheck):
    id = "P06"
    quick_units, thorough_units = 66, 2500
    quick_cap = 34
    rule = "A case is one run of the driver with a solver that ends in one particular way (normally, by a crash, stopped by a limit, interrupted, after a failing system call, failing allocation or an exception while its output is processed); it is non-trivial if a solver process was started or a temporary file created."

    def unit(self, rng, index, tier):
        names = list(WORLDS)
        name = names[index % len(names)]
        w = WORLDS[name]
        limit = index // len(names) % 2
        C = rng.choice([1000, 30, 250])
        T = rng.choice([1000, 50, 5000])
        args = (["--solver-time-limit", str(T)] if limit else []) + ([] if C == 1000 or name == "nl" else ["--cleanup-time-limit", str(C)])
        if name == "nl":
            C = 1000
        for k in range(70):
            c = {"world": name, "args": args, "seed": rng.randint(1, 1 << 30), "inject": gen_schedule(rng), "T": T if limit else 0, "C": C}
            how = rng.choice(["exit", "fail", "die", "sig", "sig", "fault", "fault", "fault", "garbage", "alloc", "stay" if limit and name not in ("interactive", "nl") else "sig", "write"])
            script = w.script(dt=rng.choice([0, 1000, 2 * MS]), start=rng.choice([(20000, 50000), (0, 1000), (5 * MS, 30 * MS)]))
            if how == "fail":
                script[-1] = "a exit 1000 %d" % rng.choice([1, 3, 127])
            elif how == "die":
                script[-1] = "a die 1000 %d" % rng.choice([6, 9, 11, 15])
            elif how in ("stay", "sig"):
                if how == "stay" or rng.random() < 0.6:
                    script = script[:-1]
                    if rng.random() < 0.3:
                        script.insert(2, "a helper 0 %d %d" % (rng.choice([0, 10 * S]), rng.randint(0, 1)))
                    if rng.random() < 0.2:
                        script.append("a closeout 1000")
                    for s in (2, 15):
                        if rng.random() < 0.5:
                            script.append("on %d %s" % (s, rng.choice(["ignore", "default"])))
                        elif rng.random() < 0.4:
                            script += ["on %d script" % s, "s %d out %d %s" % (s, rng.choice([0, 1000, C * MS // 2]), hx("bye\n")), "s %d exit 0 %d" % (s, rng.choice([0, 0, 2]))]
                if how == "sig":
                    for _ in range(rng.choice([1, 1, 2, 3])):
                        c["inject"].append("sig %d op %d" % (rng.choice([2, 15]), rng.choice([rng.randint(2, 30), rng.randint(2, 60)])))
                    if name == "interactive":          # the terminal interrupts both
                        script = w.script()
                    c["inject"].append("sig 15 at %d" % (T * MS + 60 * S))
            elif how == "fault":
                call, errs, n = rng.choice(SYSCALLS)
                a = rng.randint(1, n)
                c["inject"].append("fault %s - %d %d %s" % (call, a, rng.choice([a, a, 0]) if call not in ("select", "waitpid", "read") else a, rng.choice(errs)))
                if call == "killpg":
                    if name in ("interactive", "nl") or not limit:
                        c["inject"].append("sig 15 op %d" % rng.randint(10, 40))
                    script = script[:-1] if name != "interactive" else script
                    c["inject"].append("sig 15 at %d" % (T * MS + 60 * S))
                if call in ("mkstemps", "mkdtemp", "pipe", "thread"):
                    c["snap"] = "join" if call != "thread" else "start"
            elif how == "garbage":
                g = [x.encode("latin-1") for x in rng.choice(GARBAGE)]
                script = ["plan 0", "start 1000 2000"] + ["a out %d %s" % (rng.choice([0, 1000, 2 * MS]), hx(x)) for x in g]
                if w.name == "interactive":
                    script.insert(2, "a out 0 " + hx("%%%mzn-sol-begin\n"))
                if w.sol is not None and rng.random() < 0.7:
                    script.insert(2, "a sol 0 " + hx(rng.choice(["", "x\n", w.sol[:rng.randint(0, len(w.sol))], w.sol.replace("3.5", "zzz")])))
                if rng.random() < 0.4:
                    script.append("a out %d %s" % (rng.choice([0, 1000]), hx("x = 1;\n" * 50000)))
                script.append("a exit %d %d" % (rng.choice([1000, 500 * MS]), rng.choice([0, 0, 1])))
            elif how == "alloc":
                c["inject"].append("allocfail %d 1" % rng.randint(1, 2500))
            elif how == "write":
                c["snap"] = "join"
                c["inject"].append("quota tmp/ %d %s" % (rng.choice([0, 1, 100, 200, 294, 4096]), rng.choice(["ENOSPC", "EIO", "EDQUOT"])))
            c["how"] = how
            c["script"] = script
            yield c

    def nontrivial(self, case, rs):
        r = rs[0]
        return bool(r.exl("exec")) or bool(r.exl("proc")) or r.kind != "EXIT"

    def judge(self, case, rs):
        r = rs[0]
        l = Life(case, r)
        if case["how"] != "alloc" and r.kind not in ("EXIT", "SIGNAL"):
            return [("end", "driver ended with %s %d" % (r.kind, r.code))]
        if case["how"] == "alloc" and (r.kind != "EXIT" or r.code == 2):
            return []              # abnormal termination without memory (2: the scanner generated by flex gives up)
        if any(k == "default" for _, _, k in l.drv):
            return [x for x in clean_up(r, []) if x[0] in ("foreign-signal", "unlink-outside", "unlink-in-child", "unlinked-while-running")]
        V = clean_up(r, [])
        if case["how"] == "fault" and any(x.startswith("fault unlink") for x in case["inject"]):
            V = [v for v in V if v[0] != "temp-left"]
        if any(x.startswith("fault waitpid") and not x.endswith("EINTR") for x in case["inject"]):
            V = [v for v in V if v[0] != "zombie"]       # the one call that can collect it fails
        if not any(x.startswith(("quota", "allocfail", "fault mk")) for x in case["inject"]):
            seen = {}
            for m in r.exl("model"):       # model when pid path present|missing size hash
                if m[3].endswith(".sol"):
                    continue
                if m[4] != "present":
                    V.append(("model-missing", "input of the solver is missing while it runs: %s" % " ".join(m)))
                elif seen.setdefault(m[3], m[5:]) != m[5:]:
                    V.append(("model-changed", "input of the solver changed while it runs: %s" % " ".join(m)))
        return V


STATUS = re.compile(rb"^(=====[A-Za-z]+=====|==========)\n", re.M)
ERRKEYS = ('"type": "error"', "=====ERROR=====", '"status": "ERROR"')


def shown(w, r):
    """What the run showed of the solver's results."""
    return (r.files.get("out.txt") or b"") if w.name == "file" else r.out


def is_prefix(w, got, base):
    """Whether got shows a correct part of base: nothing invented, altered or reordered."""
    if w.name == "json":
        g = [l for l in got.split(b"\n") if l and b'"type": "status"' not in l and b'"type": "error"' not in l and b'"type": "warning"' not in l]
        return g == base.split(b"\n")[:len(g)]
    if w.name == "canon":
        got = re.sub(rb"(?m)^%.*\n", b"", got)
        b = re.sub(rb"(?m)^%.*\n", b"", base).split(b"----------\n")
        return all(x in b for x in STATUS.sub(b"", got).split(b"----------\n")[:-1])
    g = re.sub(rb"(=====UNKNOWN=====|=====ERROR=====)\n$", b"", got)
    if base.startswith(g):
        return True
    return g.endswith(b"\n") and base.startswith(g[:-1])      # unterminated last line ended


def pieces(w, rng):
    """The world's script with its output split anew."""
    L = w.script(dt=rng.choice([0, 1000, 300000]))
    r = []
    for l in L:
        f = l.split(" ")
        if f[0] == "a" and f[1] == "out" and rng.random() < 0.7:
            b = f[3]
            n = len(b) // 2
            c = sorted(set([0, n] + [rng.randint(0, n) for _ in range(rng.choice([1, 2, 4]))]))
            for i in range(len(c) - 1):
                r.append("a out %s %s" % (rng.choice(["0", "1000", "1000000"]), b[2 * c[i]:2 * c[i + 1]]))
        else:
            r.append(l)
    if rng.random() < 0.3:
        i = rng.randint(2, len(r) - 1)
        r.insert(i, rng.choice(["a closeerr 1000"]))
    return r


class P07(SystemCheck):
    id = "P07"
    level = "fault_enumeration"
    quick_units, thorough_units = 44, 1500
    quick_cap = 34
    rule = "A case is one run in which a system call used for talking to the solver fails at one position (all calls, error codes and positions are enumerated per input format), or several do, compared with the fault-free run; it is non-trivial if a fault fired."
    level_note = "Every listed system call, error code and position is enumerated for each input format and a seeded choice of solver behaviours; combinations of faults, signals and limits are sampled."

    def unit(self, rng, index, tier):
        names = list(WORLDS)
        name = names[index % len(names)]
        w = WORLDS[name]
        variant = index // len(names)
        limit = variant % 2 and name != "nl"
        args = ["--solver-time-limit", "100000"] if limit else []
        sched = gen_schedule(rng) if variant else []
        script = pieces(w, rng)
        base = {"world": name, "args": args, "seed": rng.randint(1, 1 << 30), "script": script, "compare": True}
        for call, errs, n in SYSCALLS:
            if call in ("killpg",):
                continue
            early = call in ("mkstemps", "mkdtemp", "pipe", "thread")
            if early and call == "thread" and variant:
                continue
            for e in errs:
                for pos in range(1, n + 1 + (6 if call in ("select", "read") else 0)):
                    if early and rng.random() < 0.6 or rng.random() < 0.35:
                        continue
                    last = pos if call not in TRANSIENT or rng.random() < 0.5 else pos + rng.randint(1, 5)
                    if e in ("EINTR", "EAGAIN") and call in ("select", "read", "waitpid") and rng.random() < 0.5:
                        last = pos + rng.randint(1, 4)
                    f = "fault %s - %d %d %s" % (call, pos, last, e)
                    yield dict(base, inject=sched + [f], how="one", snap="start" if call == "thread" else "join" if early else "fork")
        for k in range(25):
            L = []
            for _ in range(rng.choice([2, 2, 3, 5])):
                call, errs, n = rng.choice([s for s in SYSCALLS if s[0] not in ("mkstemps", "mkdtemp", "pipe", "thread")] + [("kill", ["EPERM", "ESRCH"], 2)])
                a = rng.randint(1, n)
                L.append("fault %s - %d %d %s" % (call, a, a + rng.choice([0, 0, 1, 3]), rng.choice(errs)))
            yield dict(base, inject=sched + L, how="many", seed=rng.randint(1, 1 << 30))
        for k in range(12):                # the calls that stop a solver fail
            if name in ("nl", "interactive"):
                break
            T, C = rng.choice([(50, 30), (1000, 1000), (300, 100)])
            sc = [l for l in script if not l.startswith("a exit")]
            for s in (2, 15):
                if rng.random() < 0.4:
                    sc.append("on %d %s" % (s, rng.choice(["ignore", "default"])))
            if rng.random() < 0.4 and name != "checker":
                sc.append("a loop 1000000 0")
            L = ["fault killpg - %d %d %s" % (rng.choice([(1, 1), (1, 3), (2, 2), (2, 3), (3, 3)]) + (rng.choice(["EPERM", "ESRCH"]),))]
            if rng.random() < 0.4:
                L.append("fault %s" % rng.choice(["read - 3 3 EIO", "select - 2 2 EBADF", "waitpid - 1 1 EINTR", "read - 2 4 EINTR"]))
            if rng.random() < 0.4:
                L.append("sig %d at %d" % (rng.choice([2, 15]), rng.randint(0, T * MS)))
            yield dict(base, args=["--solver-time-limit", str(T), "--cleanup-time-limit", str(C)], script=sc, inject=sched + L, how="stop", T=T, C=C, compare=False, seed=rng.randint(1, 1 << 30))

    def execs(self, case):
        w = WORLDS[case["world"]]
        p = w.prefix(case["snap"] if "snap" in case else "fork", case["args"])
        r = [(p, self.base(case) + case["script"] + case["inject"])]
        if case.get("compare"):
            r.append((p, ["seed 1"] + case["script"]))
        return r

    def nontrivial(self, case, rs):
        return any(not k.endswith(":short") for k in rs[0].fired())

    def reduce(self, case):
        L = case["inject"]
        for i in range(len(L)):
            if len(L) > 1:
                yield dict(case, inject=L[:i] + L[i + 1:])
        L = case["script"]
        for i in range(2, len(L)):
            if not L[i].startswith("a exit"):
                yield dict(case, script=L[:i] + L[i + 1:])

    def judge(self, case, rs):
        r = rs[0]
        w = WORLDS[case["world"]]
        if r.kind not in ("EXIT", "SIGNAL"):
            return [("end", "driver ended with %s %d" % (r.kind, r.code))]
        fired = [k for k in r.fired() if not k.endswith(":short")]
        V = []
        perm = [k for k in fired if ":" in k and not (k.split(":")[1] in TRANSIENT and k.split(":")[0] in ("read", "select", "waitpid")) and k.split(":")[0] not in ("unlink", "kill", "killpg")]
        if case.get("compare"):
            b = rs[1]
            if b.kind != "EXIT":
                return [("baseline", "%s %d" % (b.kind, b.code))]
            same = shown(w, r) == shown(w, b) and r.code == b.code and r.kind == b.kind
            if not perm:
                if not same or r.err != b.err and not case["how"] == "many":
                    V.append(("transient", "faults %s changed the result: %r %r exit %s %d, without: %r %r exit %d" % (fired, shown(w, r), r.err, r.kind, r.code, shown(w, b), b.err, b.code)))
            elif not same:
                if r.kind == "EXIT" and r.code == 0:
                    V.append(("hidden", "faults %s: exit code 0 but output differs: %r instead of %r" % (fired, shown(w, r), shown(w, b))))
                if not is_prefix(w, shown(w, r), shown(w, b)):
                    V.append(("wrong", "faults %s: output %r is no prefix of %r" % (fired, shown(w, r), shown(w, b))))
                t = (r.out + r.err + shown(w, r)).decode("latin-1")
                if r.code != 0 and not any(k in t for k in ERRKEYS) and not r.err.replace(b.err, b"").strip():
                    V.append(("no-message", "faults %s: failure without message: %r %r" % (fired, r.out, r.err)))
            if w.name == "json":
                for l in r.out.decode("utf-8", "replace").split("\n"):
                    if l:
                        try:
                            json.loads(l)
                        except ValueError:
                            V.append(("json", "not JSON: %r" % l[:300]))
        else:
            l = Life(case, r)
            lim = (case["T"] + 4 * case["C"]) * MS + l.stall * MS + 50 * MS
            op = [int(x.split()[2]) for x in case["inject"] if x.startswith("opcost")]
            lim += r.ops * (op[-1] if op else 20000) + r.steps * 120       # the driver's own work, a checker's compilation above all
            if r.sim_ns > lim and not perm:
                V.append(("overrun", "run took %d ms with limit %d and grace period %d, faults %s" % (r.sim_ns // MS, case["T"], case["C"], fired)))
        if not any(k == "default" for _, _, k in Life(case, r).drv):
            V += [v for v in clean_up(r, []) if not (v[0] == "temp-left" and any(k.startswith("unlink") for k in fired)) and not (v[0] == "zombie" and any(k.startswith("waitpid") and k not in ("waitpid:EINTR",) for k in fired))
                  and not (any(k.startswith("kill:") for k in fired))]
        return V
