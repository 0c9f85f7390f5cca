"""P09: the results do not depend on when the garbage collector runs."""
import glob, json, os, re
from engine import Check
from simlib import Prefix, MS, S, hx, REPO, HERE
import workloads as W

GECODE = "org.minizinc.gecode_presolver"
MODELS = {}
for f in sorted(glob.glob(os.path.join(HERE, "models/*.mzn"))):
    MODELS[os.path.basename(f)[:-4]] = f
CORPUS = [e for e in json.load(open(os.path.join(HERE, "corpus.json"))) if os.path.exists(os.path.join(REPO, e[0]))]
POINTS = json.load(open(os.path.join(HERE, "models/points.json")))
SOLVABLE = {n for n in MODELS if ":solve" in POINTS.get(n, {})}
VARIANTS = {"": [], "O0": ["-O0"], "O2": ["-O2"], "twopass": ["--two-pass"], "keep": ["--keep-paths"], "linear": ["-G", "linear"], "json": ["--json-stream"]}


def read(p):
    with open(p, "rb") as f:
        return f.read()


def model_prefix(model, args, how, snap="start", lines=(), env=None):
    """model: @name (own model) or a path below the repository."""
    files = {"home/": None}
    if model.startswith("@"):
        name = model[1:]
        files["m.mzn"] = read(MODELS[name])
        inputs = ["m.mzn"]
        for ext in ("dzn", "json"):
            p = MODELS[name][:-3] + ext
            if os.path.exists(p) and not ("-json" not in args and ext == "json") and not ("-json" in args and ext == "dzn"):
                files["d." + ext] = read(p)
                inputs.append("d." + ext)
    else:
        inputs = [os.path.join(REPO, model)]
    args = [os.path.join(REPO, a) if a.startswith("tests/") else a for a in args if a != "-json"]
    if how == "compile":
        files.update({"bin/fz": "#!/bin/sh\n", "solvers/fz.msc": W.conf(stdFlags=[])})
        e = {"MZN_SOLVER_PATH": "/simwork/solvers"}
        a = ["--solver", "org.sim.fz", "-c", "--fzn", "/simwork/o.fzn", "--ozn", "/simwork/o.ozn"]
    elif how == "solve":
        e = {}
        a = ["--solver", GECODE, "-a", "--output-mode", "dzn", "--output-objective"]
    elif how == "print":
        e = {}
        a = ["--solver", GECODE, "-a"]
    e.update(env or {})
    return Prefix(a + inputs + args, files, e, snap=snap, lines=lines)


def solutions(out):
    """Blocks and final status of a text solution stream."""
    parts = re.split(rb"^-{10}$\n?", out, flags=re.M)
    tail = parts.pop()
    m = re.findall(rb"^=====\w*=====$", tail, flags=re.M)
    return parts, m, tail


DECL = re.compile(r"^(?:var\b[^:]*|array \[[^\]]*\] of [^:]*|bool|int|float|set of int)\s*:\s*([A-Za-z_]\w*)\s*(.*)$")
IDENT = re.compile(r"[A-Za-z_]\w*")


def fzn_shape(text):
    """(problem, names declared with their output annotation, kind of solve item) of a FlatZinc file."""
    names, outs, solve = set(), set(), None
    text = text.decode("utf-8", "replace")
    if not text.endswith("\n"):
        return "does not end with a line end", None, None
    if "\x00" in text or "\ufffd" in text or "\xd5" in text:
        return "contains foreign bytes", None, None
    used = []
    for l in text.split("\n"):
        if not l or l.startswith("predicate ") or l.startswith("%"):
            continue
        if not l.endswith(";"):
            return "incomplete line " + l[:200], None, None
        if l.startswith("constraint ") or l.startswith("solve "):
            if l.startswith("solve "):
                solve = re.sub(r"::.*(satisfy|minimize|maximize)", r"\1", l).split()[1]
            body = re.sub(r'"(?:[^"\\]|\\.)*"', '""', l)
            used += re.findall(r"X_INTRODUCED_\d+_", body)
            continue
        m = DECL.match(l)
        if not m:
            return "no FlatZinc item: " + l[:200], None, None
        if m.group(1) in names:
            return "declared twice: " + m.group(1), None, None
        names.add(m.group(1))
        a = re.findall(r"::\s*(output_\w+(?:\(\[[^)]*\]\))?)", l)
        if a:
            outs.add((m.group(1) if not m.group(1).startswith("X_INTRODUCED_") else "_", a[0]))
        elif "X_INTRODUCED_" not in m.group(1):
            outs.add((m.group(1), ""))
        used += re.findall(r"X_INTRODUCED_\d+_", m.group(2))
    for u in used:
        if u not in names:
            return "not declared: " + u, None, None
    return None, outs, solve


def amap(m):
    return m.group(1) + b", ".join(sorted(re.findall(rb'\("X_INTRODUCED_\d+_"(,"(?:[^"\\]|\\.)*"\))', m.group(2)))) + b"]"


def alpha(b):
    seen = {}
    b = re.sub(rb"(_mzn_assumption_map = \[)(.*)\](?=;)", amap, b)       # sorted by the generated names
    return re.sub(rb"X_INTRODUCED_\d+_", lambda m: seen.setdefault(m.group(0), b"X%d" % len(seen)), b)


def lineset(b):
    return sorted(set(re.sub(rb"X_INTRODUCED_\d+_", b"X_", b).split(b"\n")))


class P09(Check):
    id = "P09"
    quick_units, thorough_units = 400, 12000
    quick_cap, thorough_cap = 60, 1500
    memo = True
    cache_size = 3
    rule = "A case is one model compiled (and for most: solved by the linked Gecode, all solutions) with collections forced at a chosen set of the points where one may start; it is non-trivial if at least one collection was forced."
    stub = ["time (simulated)", "external solver for streams (scripted actor)"]
    assumptions = ["a collection may start exactly where GC::lock() takes the outermost lock", "reclaimed memory is overwritten, so that its use shows"] + Check.assumptions[1:]

    def windows(self, rng, model, args, how, gc, lo, n, width):
        """n windows of collections at every point, starting anywhere in [lo, gc)."""
        for _ in range(n):
            a = rng.randint(lo, max(lo, gc - 1))
            yield {"model": model, "args": args, "how": how, "mode": "every 1", "from": a, "skip": 0, "max": width}

    def unit(self, rng, index, tier):
        width = 160
        kind = index % 8
        if kind in (0, 1):          # the part all models share: reading and checking the library; covered in order
            n = 150
            a = ((index // 8) * 2 + kind) * n
            if a < 24000:
                yield {"model": "@l_queens", "args": [], "how": "compile", "mode": "every 1", "from": a, "skip": 0, "max": n}
                return
        if kind in (0, 1, 2, 3):    # own models: dense windows behind the library
            name = rng.choice([m for m in MODELS if m != "i_types"])
            v = rng.choice(["", "", "", "O0", "O2", "twopass", "keep", "linear", "json"])
            how = rng.choice(["compile", "solve", "print"])
            if name not in SOLVABLE or v in ("linear", "twopass", "O2"):
                how = "compile"
            if v == "json" and how != "compile":
                how = "print"
            args = VARIANTS[v] + (["-json"] if name == "f_data" and rng.random() < 0.5 else [])
            pts = POINTS.get(name, {})
            total = pts.get(("O2" if v == "twopass" else v if v in ("O2", "linear") else "") + ":" + how) or pts.get(":compile", 27000)
            if v in ("O2", "twopass"):          # the first pass, or the second one
                lo, hi = rng.choice([(22300, total // 2 + 800), (total // 2 + 22000, total)])
            else:
                lo, hi = (32300 if v == "linear" else 22300), total
            for a in sorted(rng.randint(min(lo, hi), hi) for _ in range(2)):
                for s in range(3):
                    yield {"model": "@" + name, "args": args, "how": how, "mode": "every 1", "from": max(lo, a - width), "skip": s * width, "max": (s + 1) * width}
            return
        e = CORPUS[rng.randrange(len(CORPUS))]
        how = rng.choice(["compile", "solve", "print"]) if e[4] else "compile"
        gc = e[5] if how != "compile" and e[5] else e[2]
        if kind in (4, 5, 6):       # the repository's own test models
            tail = max(1, gc - 22300)
            if kind == 4 and gc > 22300:
                k = max(1, tail // 150)
                for ph in sorted(rng.sample(range(k), min(k, 3))):
                    yield {"model": e[0], "args": e[1], "how": how, "mode": "every %d %d" % (k, ph), "from": 22300, "skip": 0, "max": 400}
                return
            a = rng.randint(min(22300, gc), gc)
            for s in range(3):
                yield {"model": e[0], "args": e[1], "how": how, "mode": "every 1", "from": a, "skip": s * width, "max": (s + 1) * width}
            return
        k = rng.choice([60, 100, 200, 400, 1000])       # thin, over everything
        yield {"model": e[0], "args": e[1], "how": how, "mode": rng.choice(["every %d %d" % (k, rng.randrange(k)), "prob %d" % max(1, 1000 // k)]), "from": 0, "skip": 0, "max": 1200}

    def execs(self, case):
        p0 = model_prefix(case["model"], case["args"], case["how"])
        p1 = model_prefix(case["model"], case["args"], case["how"], "gc %d" % case["from"] if case["from"] else "start")
        g = ["seed 1", "gc " + case["mode"], "gc skip %d" % case["skip"], "gc max %d" % case["max"], "cpu 60"]
        return [(p0, ["seed 1", "cpu 60"]), (p1, g)]

    def nontrivial(self, case, rs):
        return rs[1].gcruns > 0

    def probe(self, case, rs):
        P = ["how:" + case["how"], "model:" + ("own" if case["model"][0] == "@" else "corpus")]
        if rs[0].code:
            P.append("error")
        if case["how"] == "compile" and rs[0].files.get("o.fzn") != rs[1].files.get("o.fzn"):
            P.append("different but equivalent FlatZinc")
        return P

    def judge(self, case, rs):
        a, b = rs
        if a.kind != "EXIT":
            return []               # not a model for this check
        if b.kind != "EXIT":
            return [("crash", "with collections at %s of [%d, %d) from point %d on the driver ends with %s %d: %s" % (case["mode"], case["skip"], case["max"], case["from"], b.kind, b.code, b.err[-300:].decode("utf-8", "replace")))]
        V = []
        if a.code != b.code:
            return [("exit", "exit code %d instead of %d: %s" % (b.code, a.code, b.err[-500:].decode("utf-8", "replace")))]
        if lineset(a.err) != lineset(b.err):
            d = [x for x in lineset(b.err) if x not in lineset(a.err)][:4] + [b"missing:"] + [x for x in lineset(a.err) if x not in lineset(b.err)][:4]
            V.append(("messages", "messages differ: %r" % d))
        if case["how"] == "compile":
            if a.out != b.out:
                V.append(("stdout", "%r instead of %r" % (b.out[:300], a.out[:300])))
            if alpha(a.files.get("o.ozn") or b"") != alpha(b.files.get("o.ozn") or b""):
                V.append(("ozn", "output specification differs: %r instead of %r" % ((b.files.get("o.ozn") or b"")[:400], (a.files.get("o.ozn") or b"")[:400])))
            fa, fb = a.files.get("o.fzn"), b.files.get("o.fzn")
            if (fa is None) != (fb is None):
                V.append(("fzn", "FlatZinc file %s" % ("missing" if fb is None else "written")))
            elif fa is not None and fa != fb:
                ea, na, sa = fzn_shape(fa)
                eb, nb, sb = fzn_shape(fb)
                if ea is None:
                    if eb:
                        V.append(("fzn", "FlatZinc malformed: " + eb))
                    elif na != nb:
                        V.append(("fzn", "variables of the model: %r instead of %r" % (sorted(nb - na)[:5], sorted(na - nb)[:5])))
                    elif sa != sb:
                        V.append(("fzn", "solve item %s instead of %s" % (sb, sa)))
        elif a.out != b.out:
            pa, sa, ta = solutions(a.out)
            pb, sb, tb = solutions(b.out)
            if sa != sb:
                V.append(("status", "final status %r instead of %r" % (sb, sa)))
            elif b"_objective" in a.out or (case["how"] == "print" and self.optimises(case)):
                oa = re.findall(rb"_objective = ([^;]*);", pa[-1]) if pa else None
                ob = re.findall(rb"_objective = ([^;]*);", pb[-1]) if pb else None
                if oa != ob or bool(pa) != bool(pb):
                    V.append(("objective", "optimum %r instead of %r" % (ob, oa)))
            elif sorted(pa) != sorted(pb):
                sA, sB = set(pa), set(pb)
                V.append(("solutions", "solutions differ: additional %r missing %r (%d instead of %d)" % (sorted(sB - sA)[:3], sorted(sA - sB)[:3], len(pb), len(pa))))
        return V

    def optimises(self, case):
        m = case["model"]
        t = read(MODELS[m[1:]] if m[0] == "@" else os.path.join(REPO, m))
        return re.search(rb"\b(minimize|maximize)\b", t) is not None

    def reduce(self, case):
        lo, hi = case["skip"], case["max"]
        if hi - lo > 1:
            mid = (lo + hi) // 2
            for x, y in ((mid, hi), (lo, mid), (lo + 1, hi), (lo, hi - 1)):
                yield dict(case, skip=x, max=y)
        if case["how"] != "compile" and case["model"] != "":
            yield dict(case, how="compile")
