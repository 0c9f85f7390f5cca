"""Solver workloads: models with their solver-side text and the text a user must see, and a reference model of the driver's output processing.

The reference model is written from the documentation of the solution stream, not from the driver's code: it sees the whole byte stream at once."""
import json, re
from simlib import Prefix, hx, MS, S

SEP = "----------"
DONE = "=========="
STATUS = {"==========": "OPT", "=====UNSATISFIABLE=====": "UNSAT", "=====UNBOUNDED=====": "UNBND", "=====UNSATorUNBOUNDED=====": "UNSATorUNBND",
          "=====UNKNOWN=====": "UNKNOWN", "=====ERROR=====": "ERROR"}


def conf(**k):
    d = {"id": "org.sim.fz", "name": "simfz", "version": "1.0.0", "executable": "/simwork/bin/fz", "mznlib": "", "tags": ["cp", "int"],
         "stdFlags": ["-a", "-n", "-s", "-i", "-r", "-v"], "supportsMzn": False, "supportsFzn": True, "needsSolns2Out": True}
    d.update(k)
    return json.dumps(d, indent=1)


def lst(v):
    return "[" + ", ".join(str(x) for x in v) + "]"


class Fam:
    name, model, args, opt, section = "", "", [], False, "default"
    files = {}

    def sol(self, rng):
        raise NotImplementedError

    def text(self, v):
        raise NotImplementedError

    def show(self, v):
        raise NotImplementedError

    def json(self, v):          # the "output" object of a JSON message
        s = self.show(v)
        return {"dzn": s} if self.section == "dzn" else {"default": s, "raw": s}


class Ints(Fam):
    name = "ints"
    model = 'var 1..9: x; var 0..99: y; solve satisfy; output ["x=\\(x) y=\\(y)\\n"];\n'

    def sol(self, rng):
        return [rng.randint(1, 9), rng.randint(0, 99)]

    def text(self, v):
        return "x = %d;\ny = %d;\n" % tuple(v)

    def show(self, v):
        return "x=%d y=%d\n" % tuple(v)


class Opt(Ints):
    name = "opt"
    opt = True
    model = 'var 1..99: x; var 0..99: y; constraint x + y >= 1; solve minimize x; output ["x=\\(x) y=\\(y)\\n", "cost \\(x * 10)\\n"];\n'

    def show(self, v):
        return "x=%d y=%d\ncost %d\n" % (v[0], v[1], v[0] * 10)

    def sol(self, rng):
        return [rng.randint(1, 99), rng.randint(0, 99)]


SETS = [[1, 3], [1, 4], [2, 5], [1, 3, 5], [2, 4], [1, 5]]

MANY = """var 1..9: x; array[1..4] of var 0..99: a; var bool: b; var float: f; var set of 1..5: s; enum E = {A, B, C}; var E: e;
array[1..2,1..2] of var 0..9: mm; array[E] of var bool: eb; solve satisfy;
"""


class Dzn(Fam):
    name, model, section = "dzn", MANY, "dzn"

    def sol(self, rng):
        return [rng.randint(1, 9), [rng.randint(0, 99) for _ in range(4)], rng.randint(0, 1), rng.randint(0, 40) / 4.0, rng.choice(SETS), rng.randint(1, 3),
                [rng.randint(0, 9) for _ in range(4)], [rng.randint(0, 1) for _ in range(3)]]

    def text(self, v):
        x, a, b, f, s, e, m, eb = v
        return "x = %d;\na = array1d(1..4,[%s]);\nb = %s;\nf = %r;\ns = {%s};\ne = %d;\nmm = array2d(1..2,1..2,[%s]);\neb = array1d(1..3,[%s]);\n" % (
            x, ",".join(map(str, a)), "true" if b else "false", f, ",".join(map(str, s)), e, ",".join(map(str, m)), ",".join("true" if i else "false" for i in eb))

    def show(self, v):
        x, a, b, f, s, e, m, eb = v
        ebs = ", ".join("%s: %s" % (n, "true" if i else "false") for n, i in zip("ABC", eb))
        return "x = %d;\na = %s;\nb = %s;\nf = %r;\ns = %s;\ne = %s;\nmm = \n[| %d, %d\n | %d, %d\n |];\neb = [%s];\n" % (
            x, lst(a), "true" if b else "false", f, "{" + ",".join(map(str, s)) + "}", "ABC"[e - 1], m[0], m[1], m[2], m[3], ebs)


class Json(Dzn):
    name, section, args = "json", "json", ["--output-mode", "json"]

    def obj(self, v):
        x, a, b, f, s, e, m, eb = v
        return {"x": x, "a": a, "b": bool(b), "f": f, "s": {"set": s}, "e": {"e": "ABC"[e - 1]}, "mm": [m[:2], m[2:]], "eb": [bool(i) for i in eb]}

    def show(self, v):
        return None               # compared as JSON

    def json(self, v):
        return {"json": self.obj(v)}


class Uni(Fam):
    name = "uni"
    model = 'var 1..9: x; var 0..99: y; solve satisfy; output ["é✓ \\"\\(x)\\" \\\\ tab\\t\\(y)\\n", "% not a comment \\(x)\\n", "----------x\\n", "😀 {\\(y)} "];\n'

    def sol(self, rng):
        return [rng.randint(1, 9), rng.randint(0, 99)]

    def text(self, v):
        return "x = %d;\ny = %d;\n" % tuple(v)

    def show(self, v):
        return self.raw(v) + "\n"

    def raw(self, v):
        return 'é✓ "%d" \\ tab\t%d\n%% not a comment %d\n----------x\n😀 {%d} ' % (v[0], v[1], v[0], v[1])

    def json(self, v):
        return {"default": self.raw(v), "raw": self.raw(v)}


class Big(Fam):
    name = "big"
    n = 700
    model = 'array[1..700] of var 0..9999: a; solve satisfy; output ["a=\\(a)\\n", "sum \\(sum(a))\\n"];\n'

    def sol(self, rng):
        return [rng.randint(0, 1 << 30)]

    def vals(self, v):
        x, r = v[0], []
        for _ in range(self.n):
            x = (x * 1103515245 + 12345) & 0x7fffffff
            r.append((x >> 8) % 10000)
        return r

    def text(self, v):
        return "a = array1d(1..%d,%s);\n" % (self.n, lst(self.vals(v)).replace(" ", ""))

    def show(self, v):
        r = self.vals(v)
        return "a=%s\nsum %d\n" % (lst(r), sum(r))


class Derived(Fam):
    name = "derived"
    model = """array[1..3] of var -9..9: a; var bool: p; var set of 1..6: s;
var int: t = sum(a); any: w = [a[i] * i | i in 1..3];
solve satisfy;
output [ "t=\\(t) w=\\(w)\\n", if fix(p) then "yes" else "no" endif, "\\n", join("/", [ show(i) | i in fix(s) ]), "\\n", show_int(5, a[1]), "|", show2d([| a[1], a[2] | a[3], a[1] |]), "\\n" ];
"""

    def sol(self, rng):
        return [[rng.randint(-9, 9) for _ in range(3)], rng.randint(0, 1), sorted(rng.sample(range(1, 7), rng.randint(0, 6)))]

    def text(self, v):
        a, p, s = v
        return "a = array1d(1..3,[%s]);\np = %s;\ns = {%s};\nt = %d;\n" % (",".join(map(str, a)), "true" if p else "false", ",".join(map(str, s)), sum(a))

    def show(self, v):
        a, p, s = v
        w0, w1 = max(len(str(a[0])), len(str(a[2]))), max(len(str(a[1])), len(str(a[0])))
        return "t=%d w=%s\n%s\n%s\n%5d|[| %s, %s\n | %s, %s\n |]\n" % (sum(a), lst([a[i] * (i + 1) for i in range(3)]), "yes" if p else "no", "/".join(map(str, s)), a[0], str(a[0]).rjust(w0), str(a[1]).rjust(w1), str(a[2]).rjust(w0), str(a[0]).rjust(w1))


class Empty(Fam):
    name = "empty"
    model = 'var 1..9: x; solve satisfy; output [];\n'

    def sol(self, rng):
        return []

    def text(self, v):
        return ""

    def show(self, v):
        return ""

    def json(self, v):
        return {"default": "", "raw": ""}


class NoVars(Fam):
    """Output that mentions no solver variable at all."""
    name = "novars"
    model = 'int: k = 7; var 1..9: x; solve satisfy; output ["k=\\(k)\\n"];\n'

    def sol(self, rng):
        return []

    def text(self, v):
        return ""

    def show(self, v):
        return "k=7\n"


MORE = {}       # families that only the checks defining them choose from


class Table(dict):
    def __missing__(self, k):
        return MORE[k]


FAMS = Table((f.name, f()) for f in (Ints, Opt, Dzn, Json, Uni, Big, Derived, Empty, NoVars))


# ------------------------------------------------------------------ the solver's byte stream
def rec_bytes(fam, r, eol):
    k = r[0]
    if k == "sol":
        t = fam.text(r[1]) + SEP + "\n"
    elif k == "part":                     # a solution without its separator
        t = fam.text(r[1])
    elif k in ("comment", "raw"):
        t = r[1] + "\n"
    elif k == "stat":
        t = "%%%mzn-stat: " + r[1] + "\n"
    elif k == "statend":
        t = "%%%mzn-stat-end\n"
    elif k == "blank":
        t = "\n"
    elif k == "status":
        t = r[1] + "\n"
    else:
        raise ValueError(k)
    b = t.encode("utf-8", "surrogateescape")
    return b.replace(b"\n", b"\r\n") if eol == "crlf" else b


def stream(case):
    fam = FAMS[case["fam"]]
    b = b"".join(rec_bytes(fam, r, case.get("eol")) for r in case["records"])
    if case.get("cut") is not None:
        b = b[:case["cut"]]
    return b


def tail(case):
    """What a solver that handles the stop request still writes."""
    fam = FAMS[case["fam"]]
    b = b"".join(rec_bytes(fam, r, case.get("eol")) for r in case.get("tail", []))
    if case.get("tailcut") is not None:
        b = b[:case["tailcut"]]
    return b


# ------------------------------------------------------------------ reference model
class Zero:
    randint = staticmethod(lambda a, b: a)
    choice = staticmethod(lambda l: l[0])
    sample = staticmethod(lambda l, n: list(l)[:n])


ZERO = Zero()


class Ref:
    """What the driver must print for a stream, given the whole stream."""
    cores = None            # names of FlatZinc variables -> what stands for them in a core

    def __init__(self, fam, opts, records, checker=None):
        self.fam, self.o, self.checker = fam, opts, checker
        self.book = {}
        for r in records:
            if r[0] in ("sol", "part"):
                self.book[self.norm(fam.text(r[1]).split("\n"))] = r[1]
        if fam.text(fam.sol(ZERO)) == "":
            self.book[()] = []

    @staticmethod
    def norm(lines):
        return tuple(l for l in lines if l.strip() and not l.lstrip().startswith("%"))

    def run(self, data, end):
        """-> dict(events, status, code, bad)."""
        o, ev, nc = self.o, [], []          # nc: what the non-canonical copy receives
        lines = data.split(b"\n")
        lines = lines[:-1] + ([lines[-1]] if lines[-1] != b"" else [])
        pend, stats, status, printed = [], [], None, False
        seen, canon, nsol, bad, sat = set(), {}, 0, False, False
        skip = o.get("ignore", 0)

        def flush():
            if stats:
                if o.get("json"):
                    ev.append(["statistics", list(stats)])
                stats.clear()

        def final():
            # in a JSON stream, the text compared is the one inside the message
            for i, (k, v) in enumerate(sorted(canon.items(), key=(lambda x: json.dumps(x[0], ensure_ascii=False)) if o.get("json") else None)):
                if i and o.get("comma"):
                    ev.append(["comma"])
                ev.append(["sol", v, "canon"])
        for raw in lines:
            l = raw[:-1] if raw.endswith(b"\r") else raw
            l = l.decode("utf-8", "surrogateescape")
            if skip > 0:
                skip -= 1
                continue
            if l == SEP:
                flush()
                key = self.norm(pend)
                pend = []
                if key not in self.book:
                    bad = True
                    break
                v = self.book[key]
                sat = True
                status = "SAT"
                sk = json.dumps(v) if self.fam.show(v) is None else self.fam.show(v)
                fresh = sk not in seen
                if o.get("unique", True) or o.get("canonical"):
                    seen.add(sk)
                else:
                    fresh = True
                if fresh:
                    nsol += 1
                    if self.checker:
                        ev.append(["check", v])
                    if o.get("canonical"):
                        canon[sk] = v
                        nc.append(["sol", v])
                    else:
                        if o.get("comma") and nsol > 1:
                            ev.append(["comma"])
                        ev.append(["sol", v, "direct"])
            elif l in STATUS:
                flush()
                if o.get("canonical"):
                    final()
                status = STATUS[l]
                printed = True
                ev.append(["status", status])
            else:
                pend.append(l)
                if o.get("comments", True) and l.lstrip(" \t\r\n\v\f").startswith("%"):
                    if self.cores is not None and l.startswith("%%%mzn-core: "):
                        ev.append(["core", self.core(l[13:])])
                        nc.append(ev[-1])
                        continue
                    if o.get("json") and l.startswith("%%%mzn-stat: "):
                        stats.append(l[13:])
                    elif o.get("json") and l == "%%%mzn-stat-end":
                        ev.append(["statistics", list(stats)])
                        stats.clear()
                    else:
                        ev.append(["comment", l])
                        nc.append(["comment", l])
        failed = bad or end[0] == "die" or (end[0] == "exit" and end[1] != 0)
        if not printed:
            if o.get("canonical"):
                final()
            if end[0] == "none":       # a stream on standard input: nobody ends, nothing is concluded
                pass
            elif bad or end[0] == "int":
                ev.append(["status", "UNKNOWN"])
            elif failed:
                ev.append(["status", "ERROR"])
            elif not sat:
                ev.append(["status", "UNKNOWN"])
        if stats:
            ev.append(["statistics", list(stats)])
        code = 1 if failed or (status == "ERROR" and end[0] != "none") else 0
        return {"events": ev, "code": code, "bad": bad, "nsol": nsol, "nc": nc}

    def status_text(self, st):
        o = self.o
        d = {"OPT": "==========", "UNSAT": "=====UNSATISFIABLE=====", "UNBND": "=====UNBOUNDED=====", "UNSATorUNBND": "=====UNSATorUNBOUNDED=====", "UNKNOWN": "=====UNKNOWN=====", "ERROR": "=====ERROR====="}
        return o.get("msgs", {}).get(st, d[st])

    def render(self, ev):
        """Plain text."""
        o, t = self.o, []
        for e in ev:
            if e[0] == "sol":
                s = self.fam.show(e[1])
                if s is None:
                    d = dict(self.fam.obj(e[1]))
                    if self.checker:        # --output-mode json: the report is a field of the solution
                        d["_checker"] = self.checker.show(e[1])
                    s = "\0" + json.dumps(d, sort_keys=True) + "\0\n"
                t.append(s)
                sep = o.get("sep", SEP)
                if sep:
                    t.append(sep + "\n")
            elif e[0] == "check" and self.fam.section != "json":
                c = self.checker.report(e[1])
                if c:
                    t.append("% Solution checker report:\n" + "".join("% " + l + "\n" for l in c))
            elif e[0] == "comma":
                t.append(o["comma"] + "\n")
            elif e[0] == "comment":
                t.append(e[1] + "\n")
            elif e[0] == "core":
                t.append("%%%mzn-core: [" + ", ".join(e[1]) + "]\n")
            elif e[0] == "status":
                m = self.status_text(e[1])
                if m:
                    t.append(m + "\n")
        return "".join(t)

    def render_json(self, ev):
        r = []
        lab = {"OPT": "OPTIMAL_SOLUTION" if self.fam.opt else "ALL_SOLUTIONS", "UNSAT": "UNSATISFIABLE", "UNBND": "UNBOUNDED", "UNSATorUNBND": "UNSAT_OR_UNBOUNDED", "UNKNOWN": "UNKNOWN", "ERROR": "ERROR"}
        for e in ev:
            if e[0] == "sol":
                r.append(("solution", self.fam.json(e[1])))
            elif e[0] == "check":
                r.append(("checker", self.checker.messages(e[1])))
            elif e[0] == "comment":
                r.append(("comment", re.sub("[\udc80-\udcff]", "\ufffd", e[1]) + "\n"))
            elif e[0] == "core":
                r.append(("core", {"type": "core", "core": e[1]}))
            elif e[0] == "statistics":
                d = {}
                for s in e[1]:
                    try:         # a line cut off in the middle is not a statistic
                        k, v = s.split("=", 1)
                        d[k.strip()] = json.loads(v)
                    except ValueError:
                        pass
                r.append(("statistics", d))
            elif e[0] == "status":
                r.append(("status", lab[e[1]]))
        return r


TIME = re.compile(rb"^% time elapsed: [^\n]*\n", re.M)


def jsonify_text(out):
    """Solutions of --output-mode json inside plain text, in a canonical spelling."""
    return re.sub(r"^\{\n(?:.*\n)*?\}\n", lambda m: "\0" + json.dumps(json.loads(m.group(0)), sort_keys=True) + "\0\n", out, flags=re.M)


def dec(b):
    return b.decode("utf-8", "surrogateescape")


def compare_text(ref, ev, out):
    want = ref.render(ev)
    got = dec(out)
    if ref.fam.section == "json":
        try:
            got = jsonify_text(got)
        except ValueError as e:
            return "output is not valid JSON: %s" % e
    if ref.cores is not None:
        got = ref.respell(got)
    if ref.o.get("time"):
        got = re.sub(r"^% time elapsed: [^\n]*\n", "", got, flags=re.M)
    if want == got:
        return None
    i = 0
    while i < min(len(want), len(got)) and want[i] == got[i]:
        i += 1
    return "output differs at character %d: expected ...%r, got ...%r (lengths %d, %d)" % (i, want[max(0, i - 30):i + 60], got[max(0, i - 30):i + 60], len(want), len(got))


KNOWN_TYPES = {"solution", "status", "comment", "statistics", "error", "warning", "time", "checker", "core", "trace", "profiling", "paths", "interface", "statistic"}


def nodup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError("duplicate key %s" % k)
        d[k] = v
    return d


def parse_json_stream(out):
    """-> (list of messages, error or None).  Every line must be one JSON object of a known type."""
    msgs = []
    if out and not out.endswith(b"\n"):
        return msgs, "last line has no line end: %r" % out[-80:]
    for l in out.split(b"\n")[:-1]:
        try:
            m = json.loads(l.decode("utf-8"), object_pairs_hook=nodup)
        except UnicodeDecodeError as e:
            return msgs, "line is not valid UTF-8: %r" % l[:200]
        except ValueError as e:
            return msgs, "line is not valid JSON (%s): %r" % (e, l[:200])
        if not isinstance(m, dict):
            return msgs, "line is not an object: %r" % l[:200]
        if m.get("type") not in KNOWN_TYPES:
            return msgs, "unknown message type: %r" % l[:200]
        msgs.append(m)
    return msgs, None


CHECK_KEYS = {"solution": ("type", "output"), "status": ("type", "status"), "error": ("type", "what", "message")}


def compare_json(ref, ev, msgs):
    want = ref.render_json(ev)
    got = []
    for m in msgs:
        t = m["type"]
        if t == "solution":
            got.append(("solution", m.get("output")))
        elif t == "status":
            got.append(("status", m.get("status")))
        elif t == "comment":
            got.append(("comment", m.get("comment")))
        elif t == "statistics":
            got.append(("statistics", m.get("statistics")))
        elif t == "checker":
            got.append(("checker", [{k: x.get(k) for k in CHECK_KEYS.get(x["type"], x)} for x in m["messages"] if x["type"] not in ("warning", "time")]))
        elif t == "core" and ref.cores is not None:
            got.append((t, dict(m, core=[ref.spell(x) for x in m.get("core", [])])))
        elif t in ("time", "error", "warning"):
            continue
        else:
            got.append((t, m))
    if want == got:
        return None
    for i in range(max(len(want), len(got))):
        a = want[i] if i < len(want) else None
        b = got[i] if i < len(got) else None
        if a != b:
            return "message %d differs: expected %s, got %s" % (i, json.dumps(a)[:300], json.dumps(b)[:300])


# ------------------------------------------------------------------ building executions
def prefix(case, snap="fork", confk=None, extra_files=None):
    fam = FAMS[case["fam"]]
    files = {"bin/fz": "#!/bin/sh\n", "solvers/fz.msc": conf(**(confk or {})), "m.mzn": fam.model, "home/": None}
    files.update(fam.files)
    files.update(extra_files or {})
    return Prefix(["--solver", "org.sim.fz"] + fam.args + case.get("args", []) + ["m.mzn"], files, {"MZN_SOLVER_PATH": "/simwork/solvers"}, snap=snap)


def delivery(case, data=None):
    """Scenario lines of the solver actor: the stream cut at case["cuts"] with delays, error output, end."""
    data = stream(case) if data is None else data
    n = len(data)
    cuts = sorted(set(c for c in case.get("cuts", []) if 0 < c < n))
    pos = [0] + cuts + [n]
    dl = case.get("delays") or [1000]
    errs = sorted(case.get("errs", []), key=lambda e: e[0])
    L = ["plan 0", "start %d %d" % tuple(case.get("start", [20000, 50000]))]
    ei = 0

    def err_upto(p, last=False):
        nonlocal ei
        while ei < len(errs) and (errs[ei][0] <= p or last):
            L.append("a err %d %s" % (errs[ei][2] if len(errs[ei]) > 2 else 1000, hx(errs[ei][1])))
            ei += 1
    for i in range(len(pos) - 1):
        err_upto(pos[i])
        if pos[i + 1] > pos[i]:
            L.append("a out %d %s" % (dl[i % len(dl)], hx(data[pos[i]:pos[i + 1]])))
    late = case.get("closeout")
    if late:
        L.append("a closeout %d" % late)
    err_upto(n, True)
    if case.get("closeerr"):
        L.append("a closeerr %d" % case["closeerr"])
    e = case.get("end", ["exit", 0])
    if e[0] in ("exit", "die"):
        L.append("a %s %d %d" % (e[0], e[2] if len(e) > 2 else 1000, e[1]))
    else:                        # ["limit"|"int", signal, reaction, delay, exit code]: runs on until it is stopped
        for sg in (2, 15):
            if e[2] == "ignore" or (e[2] == "ignore1" and sg == e[1]):
                L.append("on %d ignore" % sg)
            elif e[2] == "script":
                L.append("on %d script" % sg)
                t = tail(case)
                if t:
                    L.append("s %d out %d %s" % (sg, e[3], hx(t)))
                L.append("s %d exit %d %d" % (sg, e[3], e[4]))
        if e[0] == "int":
            L.append("sig %d at %d" % (e[1], case["int_at"]))
    return L


def base_lines(case):
    L = ["seed %d" % case.get("seed", 1)]
    oc = case.get("opcost")
    if oc:
        L.append("opcost %d %d" % tuple(oc))
    return L + list(case.get("inject", []))


def errtext(case):
    return "".join(e[1] for e in sorted(case.get("errs", []), key=lambda e: e[0])).encode("utf-8", "surrogateescape")
