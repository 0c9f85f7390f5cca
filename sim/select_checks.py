"""P19: solver selection does not depend on directory order or on broken configurations."""
import json, re
from engine import Check
from simlib import Prefix, MS, S, hx
import workloads as W

DIRS = ["solvers/", "more/", "home/.minizinc/solvers/"]
IDS = ["org.a.one", "org.b.one", "com.x.two", "org.Sim.Three", "solo", "org.a.fast", "org.gecode.gecode", "org.minizinc.mip.coin-bc"]
NAMES = ["one", "Two", "Alpha", "three", "THREE", "Solver X", "Gecode"]
TAGS = ["cp", "int", "mip", "fast", "lcg", "default", "api", "one", "LCG", "Api"]
VERS = ["1.0.0", "1.0.0", "2.0.0", "1.0.0-beta", "<unknown>"]
MODEL = "var 1..3: x; solve satisfy;\n"
BAD = ["", "{", "}", "null", "[]", "{}", "\x00\x01\x02", "id = \"z\";", "id = ;", "constraint true;", "include \"nowhere.mzn\";", "{\"id\": 5, \"name\": \"n\", \"version\": \"1\"}",
       "{\"id\": \"org.bad\", \"name\": \"bad\"}", "{\"id\": \"org.bad\", \"version\": \"1\", \"name\": [1]}", "{\"id\": \"org.bad\", \"version\": \"1\", \"name\": \"bad\", \"colour\": \"red\"}",
       "{\"id\": \"org.bad\", \"version\": \"1\", \"name\": \"bad\", \"tags\": \"cp\"}", "{\"id\": \"org.bad\", \"version\": \"1\", \"name\": \"bad\", \"tags\": [1, 2]}",
       "{\"id\": \"org.bad\", \"version\": \"1\", \"name\": \"bad\", \"extraFlags\": [[\"-x\"]]}", "{\"id\": \"org.bad\", \"version\": \"1\", \"name\": \"bad\", \"extraFlags\": [[\"-x\", 5]]}",
       "{\"id\": \"org.bad\", \"version\": \"1\", \"name\": \"bad\", \"extraFlags\": 7}", "{\"id\": \"org.bad\", \"version\": \"1\", \"name\": \"bad\", \"inputType\": \"SMT\"}",
       "{\"id\": \"org.bad\", \"version\": \"1\", \"name\": \"bad\", \"supportsMzn\": \"yes\"}", "{\"id\": \"org.bad\", \"version\": \"1\", \"name\": \"bad\", \"mznlibVersion\": \"3\"}",
       "{\"id\": \"org.bad\", \"version\": \"1\", \"name\": \"bad\", \"stdFlags\": {\"a\": 1}}", "{\"id\": \"org.bad\", \"version\": \"1\", \"name\": \"bad\", \"executable\": {}}",
       "{\"id\": \"org.bad\", \"version\": \"1\", \"name\": \"bad\",, }", "id = \"org.bad\"; version = \"1\"; name = \"bad\"; stdFlags = 5;", "id = \"org.bad\"; version = 1; name = \"bad\";",
       "id = \"org.bad\"; id = \"org.bad2\"; name = bad;", "\"id\": \"org.bad\"", "{\"id\": \"org.b\\u00zzd\", \"version\": \"1\"}", "int: id = 5;", "var 1..3: id;", "output [\"x\"];", "solve satisfy;", "\xff\xfe{"]
BROKEN_MZN = 'version = "1.0.0"; id = "org.whole"; name = "whole"; executable = "/simwork/bin/whole"; tags = ["cp", "fast", "one"]; stdFlags = ["-a"]; supportsFzn = true; mznlib = "";\n'


class P19(Check):
    id = "P19"
    quick_units, thorough_units = 120, 5000
    quick_cap, thorough_cap = 40, 1000
    memo = True
    cache_size = 4
    rule = "A case is one request (solver by name, tag, version or default, or the list of solvers) with a set of solver configurations, run again with directories listed in another order, or with one more configuration or preference file that is malformed or whose reading fails; non-trivial if the order of a directory with two or more configurations differed, or the broken file was there."
    assumptions = ["two runs with the same files differ only in the order in which readdir returns the entries, in the addresses of heap objects, and in the injected faults"] + Check.assumptions

    def world(self, rng):
        files, n, rich = {}, rng.randint(2, 8), rng.choice([0, 3])
        names = rng.sample(["a%02d" % i for i in range(40)] + ["B%d" % i for i in range(10)] + ["z-last", "_first", "10", "9"], n)
        ids = rng.sample(IDS, rng.randint(2, 4)) if rng.random() < 0.7 else IDS
        for i, nm in enumerate(names):
            d = rng.choice(DIRS[:1] if rng.random() < 0.5 else DIRS)
            k = {"id": rng.choice(ids), "name": rng.choice(NAMES), "version": rng.choice(VERS), "executable": "/simwork/bin/e%d" % i, "tags": rng.sample(TAGS, rng.randint(rich, 4)), "stdFlags": rng.choice([[], ["-a"]])}
            if rng.random() < 0.1:
                k["tags"] = k["tags"] + ["__internal__"]
            if rng.random() < 0.2:
                k["extraFlags"] = [["--opt%d" % i, "an option", "int:1:9", str(i % 9 + 1)]]
            if rng.random() < 0.1:
                k["executable"] = "no-such-executable-%d" % i
            if rng.random() < 0.15:     # the other syntax
                files[d + nm + ".msc"] = "".join("%s = %s;\n" % (a, json.dumps(b)) for a, b in json.loads(W.conf(**k)).items() if a != "extraFlags")
            else:
                files[d + nm + ".msc"] = W.conf(**k)
        if rng.random() < 0.3:
            files["solvers/readme.txt"] = "no configuration\n"
            files["solvers/.msc"] = "x"
        if rng.random() < 0.6:
            td = [[t, rng.choice(ids)] for t in rng.sample(["", "", "cp", "fast", "int", "one", "mip", "LCG"] if not rich else TAGS, rng.randint(1, 3 - rich // 3))]
            p = {"tagDefaults": td}
            if rng.random() < 0.4:
                p["solverDefaults"] = [[rng.choice(ids), "-a", ""]]
            files["home/.minizinc/Preferences.json"] = json.dumps(p)
        return files

    def shared(self, rng, files):
        """two or three tags that several configurations carry together, in any order"""
        C = [[t for t in c["tags"] if t in TAGS] for c in self.configs(files)]
        P = [(s, t) for s in TAGS for t in TAGS if s != t and sum(s in c and t in c for c in C) > 1]
        if not P or rng.random() < 0.3:
            return None
        p = list(rng.choice(P))
        X = [t for t in TAGS if t not in p and sum(all(x in c for x in p + [t]) for c in C) > 1]
        if X and rng.random() < 0.4:
            p.insert(rng.randint(0, 2), rng.choice(X))
        return p

    def requests(self, rng, n, files):
        R = [["--solvers"], ["--solvers-json"], ["--solvers-json"]]
        for _ in range(n):
            m = rng.random()
            t = rng.choice([x.lower() for x in NAMES] + TAGS + IDS + [i.split(".")[-1] for i in IDS] + ["ONE", "whole"])
            if m < 0.35:
                R.append(["--solver", t])
            elif m < 0.55:
                R.append(["--solver", t + "@" + rng.choice(VERS + ["3.1"])])
            elif m < 0.75:
                R.append(["--solver", ",".join(self.shared(rng, files) or rng.sample(TAGS + ["one", "two@2.0.0"], rng.randint(2, 3)))])
            elif m < 0.85:
                R.append([])
            else:
                R.append(["--help", t])
        return R

    def unit(self, rng, index, tier):
        w = self.world(rng)
        for q in rng.sample(self.requests(rng, 6, w), 4):
            order = rng.randint(1, 10 ** 6)
            c = {"files": w, "q": q, "order": order, "layout": rng.randint(1, 999)}
            yield c
            m = rng.random()
            d = rng.choice(DIRS)
            nm = d + rng.choice(["a00x", "a20x", "zz", "0", "broken"]) + "y.msc"
            whole = rng.choice([W.conf(id=rng.choice(IDS), name=rng.choice(NAMES), executable="/simwork/bin/whole", tags=["cp", "fast", "one"], version=rng.choice(VERS)), BROKEN_MZN])
            if m < 0.35:
                yield dict(c, bad=nm, text=rng.choice(BAD))
            elif m < 0.6:
                yield dict(c, bad=nm, text=whole, cut=rng.randint(0, whole.index("ole\"") if whole is BROKEN_MZN else len(whole) - 1))
            elif m < 0.8:
                f = rng.choice(["fault openr %s %d 0 EACCES", "fault openr %s %d 0 EMFILE", "fault readf %s %d 0 EIO", "fault readf %s %d 0 short 5", "fault readf %s %d 0 eof", "fault stat %s %d 0 ENOENT"])
                yield dict(c, bad=nm, text=whole, fault=f % (nm.rsplit("/", 1)[1], rng.choice([1, 1, 2])))
            elif m < 0.9:
                yield dict(c, fault="fault opendir /simwork/%s 1 0 %s" % (d.rstrip("/"), rng.choice(["EACCES", "EMFILE", "ENOENT"])), nodir=d)
            elif "home/.minizinc/Preferences.json" in w:
                yield dict(c, prefs=True, fault=rng.choice(["fault openr minizinc/Preferences 1 0 EACCES", "fault readf minizinc/Preferences 1 0 EIO", "fault openr minizinc/Preferences 1 0 EIO", "fault readf minizinc/Preferences 1 0 short 7"]))

    def prefix(self, case, files):
        f = {"home/": None, "m.mzn": MODEL, "solvers/": None, "more/": None}
        for i in range(12):
            f["bin/e%d" % i] = "#!/bin/sh\n"
        f["bin/whole"] = "#!/bin/sh\n"
        f.update({k: v.encode("latin-1") if isinstance(v, str) and "\xff" in v else v for k, v in files.items()})
        q = case["q"]
        return Prefix(q + (["m.mzn"] if not q or q[0] == "--solver" else []), f, {"MZN_SOLVER_PATH": "/simwork/solvers:/simwork/more"}, snap="start")

    def execs(self, case):
        L = ["seed 1", "cpu 60", "start 100 100", "plan 0", "a out 100 " + hx(b"x = 1;\n----------\n"), "a exit 0 0"]
        M = L + ["layout %d" % case["layout"], "dirorder %d" % case["order"]]
        w = case["files"]
        if case.get("bad"):
            w = dict(w, **{case["bad"].rsplit("/", 1)[0] + "/": None})
        p = self.prefix(case, w)
        if not (case.get("bad") or case.get("fault")):
            return [(p, L), (p, M)]
        if case.get("prefs"):
            without = self.prefix(case, {k: v for k, v in w.items() if "Preferences" not in k})
            return [(p, L), (p, M + [case["fault"]]), (without, L)]
        if case.get("nodir"):
            without = self.prefix(case, dict({k: v for k, v in w.items() if not (k.startswith(case["nodir"]) and k.endswith(".msc"))}, **({case["nodir"]: None} if any(k.startswith(case["nodir"]) for k in w) else {})))
            return [(p, L), (p, M + [case["fault"]]), (without, L)]
        text = case["text"] if case.get("cut") is None else case["text"][:case["cut"]]
        b = self.prefix(case, dict(w, **{case["bad"]: text}))
        if case.get("fault"):
            return [(p, L), (b, M + [case["fault"]]), (b, L)]
        return [(p, L), (b, M)]

    def nontrivial(self, case, rs):
        if case.get("fault"):
            return bool(rs[1].fired())
        if case.get("bad"):
            return True
        return any(sum(k.startswith(d) and k.endswith(".msc") for k in case["files"]) > 1 for d in DIRS)

    def fingerprint(self, case, rs):
        return rs[1].key()

    def result(self, r):
        ex = [e[1:] if e and e[0] == "ok" else e for e in ([str(x) for x in e if not str(x).isdigit()] for e in r.exl("exec"))]
        out = re.sub(rb"/simwork/tmp/[^ \n\"]*", b"TMP", r.out)
        ex = [[re.sub(r"/simwork/tmp/\S*", "TMP", a) for a in e] for e in ex]
        return r.kind, r.code, out, ex

    def probe(self, case, rs):
        k = "order" if not (case.get("bad") or case.get("fault")) else "prefs" if case.get("prefs") else "directory" if case.get("nodir") else "read fault" if case.get("fault") else "cut" if case.get("cut") is not None else "malformed"
        a = rs[0]
        return [k, "q:" + (case["q"][0] if case["q"] else "default"), "selected" if a.exl("exec") else "code %d" % a.code, "warned" if rs[1].err.count(b"Warning") > a.err.count(b"Warning") else "no warning"]

    def judge(self, case, rs):
        b = rs[1]
        if b.kind != "EXIT":
            return [("end", "the driver ended with %s %d: %r" % (b.kind, b.code, b.err[-300:]))]
        v = self.selection(case, b)
        if v:
            return v
        want = [self.result(r) for r in [rs[0]] + rs[2:]]
        got = self.result(b)
        broken = bool(case.get("bad") or case.get("fault"))
        same = [r for r, w in zip([rs[0]] + rs[2:], want) if w == got]
        if same:
            lost = min(([l for l in set(r.err.split(b"\n")) if l and l not in b.err.split(b"\n")] for r in same), key=len)
            if lost and not case.get("nodir"):
                return [("messages", "messages missing: %r" % lost[:3])]
            return []
        # a broken configuration may also be reported as an error
        if case.get("prefs") and b.code != 0 and b.err.strip():
            return []
        a = want[0]
        what = "exit code %d instead of %d: %r" % (got[1], a[1], b.err[-300:]) if got[1] != a[1] else "started %s instead of %s" % (got[3], a[3]) if got[3] != a[3] else "output differs: %s" % self.first(a[2], got[2])
        return [("broken" if broken else "order", ("with a broken configuration, " if broken else "with directories listed in another order, ") + what)]

    # the documented rule, over the configurations of the case
    def configs(self, files):
        out = []
        for f, t in files.items():
            if f.endswith(".msc") and len(f.rsplit("/", 1)[1]) > 5:
                try:
                    out.append(json.loads(t) if t.startswith("{") else {a: json.loads(b) for a, b in (l.rstrip(";").split(" = ", 1) for l in t.splitlines())})
                except ValueError:
                    pass
        return out

    def selection(self, case, r):
        """the solver that was started answers to every part of the request, and is the default one if there is one"""
        q, runs = case["q"], r.exl("exec")
        if q and q[0] != "--solver" or case.get("bad") or case.get("fault"):
            return []
        C = self.configs(case["files"])
        defaults = {"": "org.gecode.gecode"}
        prefs = json.loads(case["files"].get("home/.minizinc/Preferences.json", "{}"))
        defaults.update({t.lower(): i for t, i in prefs.get("tagDefaults", [])})
        parts = [x.split("@") + [""] for x in q[1].lower().split(",")] if q else [[defaults[""].lower(), ""]]

        def carries(c, tag):
            i = c["id"].lower()
            return tag in [t.lower() for t in c["tags"] if t != "default"] + [i, i.split(".")[-1], c["name"].lower()] or tag == "default" and c["id"] == defaults[""]
        fits = [c for c in C if all(carries(c, t) and (n == 0 or not v or c["version"] == v) for n, (t, v) in enumerate((p[0], p[1]) for p in parts))]
        v = parts[0][1]
        exact = [c for c in C if carries(c, parts[0][0]) and c["version"] == v] if v else []
        if not runs:
            if b"no solver with tag" in r.err and fits and (not exact or any(c in exact for c in fits)):
                return [("selection", "%r selects nothing, but solver %s answers to it" % (q, fits[0]["executable"]))]
            return []
        exe = [str(x) for x in runs[0]]
        exe = exe[1:] if exe[0] == "ok" else exe
        c = [c for c in C if c["executable"] in exe]
        if not c:
            return []
        c = c[0]
        ok = [x for x in fits if not exact or x in exact]
        if c not in ok:
            return [("selection", "%r selects %s (%s %s %s %s), which does not answer to it" % (q, c["executable"], c["id"], c["name"], c["version"], c["tags"]))]
        D = [defaults[p[0]] for p in parts if p[0] in defaults]
        if c["id"] not in D and any(x["id"] in D for x in ok):
            return [("selection", "%r selects %s (%s) and not the default %s" % (q, c["executable"], c["id"], D))]
        opts = [o for i, o, _ in prefs.get("solverDefaults", []) if i == c["id"]]
        if "-a" in opts and "-a" in c["stdFlags"] and "-a" not in exe:
            return [("selection", "the default options of %s are not passed on" % c["id"])]
        return []

    def first(self, x, y):
        X, Y = x.split(b"\n"), y.split(b"\n")
        for i, (p, q) in enumerate(zip(X, Y)):
            if p != q:
                return "line %d: %r instead of %r" % (i + 1, q[:200], p[:200])
        return "%d lines instead of %d" % (len(Y), len(X))

    def reduce(self, case):
        for f in sorted(case["files"]):
            if len(case["files"]) > 1:
                yield dict(case, files={k: v for k, v in case["files"].items() if k != f})
