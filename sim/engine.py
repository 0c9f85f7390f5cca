"""Seeded search over simulated executions: units, workers, determinism gate, minimisation, replay files, evidence."""
import json, multiprocessing as mp, os, random, re, subprocess, sys, time, traceback, hashlib
import simlib
from simlib import Cache, Prefix, execute, VERIF, SimError

WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
REPLAYS = os.path.join(VERIF, "replays")


class Check:
    id = "P00"
    title = ""
    rule = ""
    quick_units, thorough_units = 16, 160
    quick_cap, thorough_cap = 75, 1500        # seconds of wall clock after which no new unit is started
    real = ["driver option handling", "parser", "type checker", "flattener", "optimiser", "garbage collector", "solution processing (Solns2Out)",
            "process control (Process<>)", "temporary files", "libstdc++ streams"]
    stub = ["operating system processes, pipes, signals, clocks and threads (simulated)", "external solver (scripted actor)",
            "file faults (injected in front of the real file system, scratch directory only)"]
    assumptions = ["the simulated libc behaves as POSIX specifies for the calls the driver makes",
                   "a clean batch is evidence from a sample of schedules and faults, not a proof"]
    cache_size = 6

    def units(self, tier):
        return self.quick_units if tier == "quick" else self.thorough_units

    def unit(self, rng, index, tier):
        """Yields cases (JSON-able dictionaries)."""
        raise NotImplementedError

    def execs(self, case):
        """The executions of a case: list of (Prefix, scenario lines)."""
        raise NotImplementedError

    def judge(self, case, rs):
        """List of (class, message) violations."""
        raise NotImplementedError

    def nontrivial(self, case, rs):
        return True

    def valid(self, case):
        """Whether a reduced case is still one the oracle covers."""
        return True

    def reduce(self, case):
        """Simpler variants of a case, most drastic first."""
        return generic_reduce(case)


def generic_reduce(case):
    for key in ("inject", "cuts", "errs", "records"):
        L = case.get(key) or []
        n = len(L)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                if n:
                    c = json.loads(json.dumps(case))
                    c[key] = L[:i] + L[i + size:]
                    if key == "records" and "cuts" in c:
                        c["cuts"] = [x for x in c["cuts"]]
                    yield c
            if size == 1:
                break
            size = max(1, size // 2)
    for key, val in (("opcost", [1000, 1000]), ("delays", None)):
        if case.get(key) not in (None, val):
            c = json.loads(json.dumps(case))
            c[key] = val
            yield c


def run_case(check, cache, case, memo=None):
    rs = []
    for prefix, lines in check.execs(case):
        if callable(lines):         # depends on the executions before
            lines = lines(rs)
        if memo is not None:
            k = prefix.key() + hashlib.sha256("\n".join(lines).encode()).hexdigest()
            if k in memo:
                rs.append(memo[k])
                continue
        r = execute(cache, prefix, lines)
        if memo is not None and len(memo) < 400:
            memo[k] = r
        rs.append(r)
    return rs


def sim_problem(rs):
    for r in rs:
        if r.kind == "SIMERR":
            return "simulator error code %d: %s" % (r.code, r.ex[-300:])
    return None


class Stats(dict):
    def add(self, k, n=1):
        self[k] = self.get(k, 0) + n


def worker(check, tier, seed, nunits, deadline, counter, q):
    cache = Cache(check.cache_size)
    st = {"cases": 0, "runs": 0, "sim_ns": 0, "ops": 0, "gcruns": 0, "units": 0, "nontrivial": 0}
    fired, il, kinds, probes = Stats(), set(), Stats(), Stats()
    viol, samples, err = {}, [], None
    nondet = []
    try:
        while True:
            with counter.get_lock():
                u = counter.value
                if u >= nunits or time.time() > deadline or len(viol) >= 3:
                    break
                counter.value = u + 1
            rng = random.Random("%s/%s/%d" % (check.id, seed, u))
            first = True
            memo = {}
            for case in check.unit(rng, u, tier):
                if time.time() > deadline + 30:
                    break
                rs = run_case(check, cache, case, memo if getattr(check, "memo", False) else None)
                p = sim_problem(rs)
                if p:
                    raise SimError(p + " case=" + json.dumps(case)[:2000])
                if first or st["cases"] % 40 == 0:
                    # determinism gate: the same seed twice must give the same execution
                    rs2 = run_case(check, cache, case)
                    if [r.key() for r in rs] != [r.key() for r in rs2]:
                        nondet.append(case)
                    first = False
                st["cases"] += 1
                for r in rs:
                    st["runs"] += 1
                    st["sim_ns"] += r.sim_ns
                    st["ops"] += r.ops
                    st["gcruns"] += r.gcruns
                    kinds.add(r.kind)
                    for k, n in r.fired().items():
                        fired.add(k, n)
                    il.add(r.ilhash)
                if hasattr(check, "fingerprint"):
                    il.add(check.fingerprint(case, rs))
                if hasattr(check, "probe"):
                    for k in check.probe(case, rs):
                        probes.add(k)
                if check.nontrivial(case, rs):
                    st["nontrivial"] += 1
                for cls, msg in check.judge(case, rs):
                    if cls not in viol:
                        viol[cls] = (case, msg, u)
                    probes.add("violation:" + cls)
                if len(samples) < 1 and st["cases"] % 7 == 3:
                    samples.append({"unit": u, "case": shorten(case), "result": [{"kind": r.kind, "code": r.code, "simulated_ms": r.sim_ns / 1e6, "operations": r.ops, "log_hash": r.loghash} for r in rs][:4]})
            st["units"] += 1
    except Exception as e:
        err = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    cache.close()
    q.put((st, dict(fired), il, dict(kinds), dict(probes), viol, samples, err, nondet))


def shorten(o, n=300):
    if isinstance(o, str):
        return o if len(o) <= n else o[:n] + "...(%d)" % len(o)
    if isinstance(o, list):
        return [shorten(x, n) for x in o[:30]]
    if isinstance(o, dict):
        return {k: shorten(v, n) for k, v in o.items()}
    return o


def judge_classes(check, case, rs):
    if sim_problem(rs):
        return {}
    return dict(reversed([(c, m) for c, m in check.judge(case, rs)]))


def minimise(check, case, cls, budget):
    cache = Cache(check.cache_size)
    end = time.time() + budget
    tried = 0
    try:
        progress = True
        while progress and time.time() < end:
            progress = False
            for c in check.reduce(case):
                if time.time() > end:
                    break
                if not check.valid(c):
                    continue
                tried += 1
                try:
                    if cls in judge_classes(check, c, run_case(check, cache, c)):
                        case = c
                        progress = True
                        break
                except Exception:
                    continue
    finally:
        cache.close()
    return case, tried


def write_replay(check, seed, unit, case, cls, msg, rs, tried):
    os.makedirs(REPLAYS, exist_ok=True)
    name = "%s-%s.json" % (check.id, re.sub(r"[^A-Za-z0-9]+", "-", cls))
    path = os.path.join(REPLAYS, name)
    ex = check.execs(case)
    j = {"property": check.id, "class": cls, "message": msg, "seed": seed, "unit": unit, "case": case, "reductions_tried": tried,
         "keys": [r.key() for r in rs],
         "executions": [{"prefix": p.to_json(), "scenario": l(rs) if callable(l) else l, "end": "%s %d" % (r.kind, r.code), "stdout": r.out.decode("utf-8", "replace")[:3000],
                         "stderr": r.err.decode("utf-8", "replace")[:3000], "trace": r.log.decode("utf-8", "replace")[-6000:].split("\n")} for (p, l), r in zip(ex, rs)]}
    with open(path, "w") as f:
        json.dump(j, f, indent=1)
    return path


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def matches(f, check_id, cls, msg):
    return f["property"] == check_id and f.get("class") == cls and re.search(f.get("match", ""), msg or "") is not None


def main(checks, argv):
    check = checks[argv[0]]()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    print("seed %d tier %s property %s" % (seed, tier, check.id), flush=True)
    if not os.environ.get("SIM_NOBUILD"):
        r = subprocess.run([sys.executable, os.path.join(simlib.HERE, "build.py")])
        if r.returncode:
            print("ERROR: build failed")
            return 3
    tb = time.time()
    findings = [f for f in known_findings() if f["property"] == check.id]
    for f in findings:
        if f.get("replay"):
            j = json.load(open(os.path.join(VERIF, f["replay"])))
            cache = Cache(4)
            try:
                c = judge_classes(check, j["case"], run_case(check, cache, j["case"]))
            finally:
                cache.close()
            if f["class"] in c and matches(f, check.id, f["class"], c[f["class"]]):
                print("KNOWN-FINDING: property=%s %s" % (check.id, f["what"]), flush=True)
    nunits = check.units(tier)
    cap = check.quick_cap if tier == "quick" else check.thorough_cap
    deadline = time.time() + cap
    counter = mp.Value("i", 0)
    q = mp.Queue()
    nw = min(WORKERS, nunits)
    ps = [mp.Process(target=worker, args=(check, tier, seed, nunits, deadline, counter, q)) for _ in range(nw)]
    for p in ps:
        p.start()
    res = []
    for _ in range(nw):
        while True:
            try:
                res.append(q.get(timeout=10))
                break
            except Exception:
                if not any(p.is_alive() for p in ps):
                    try:
                        res.append(q.get(timeout=2))
                        break
                    except Exception:
                        print("ERROR: a worker died")
                        return 2
    for p in ps:
        p.join()
    te = time.time()
    st = Stats()
    fired, kinds, probes = Stats(), Stats(), Stats()
    il, samples, errs, nondet, viol = set(), [], [], [], {}
    for s, f, i, k, pr, v, sa, e, nd in res:
        for a, b in s.items():
            st.add(a, b)
        for a, b in f.items():
            fired.add(a, b)
        for a, b in k.items():
            kinds.add(a, b)
        for a, b in pr.items():
            probes.add(a, b)
        il |= i
        samples += sa
        if e:
            errs.append(e)
        nondet += nd
        for cls, x in v.items():
            if cls not in viol or x[2] < viol[cls][2]:
                viol[cls] = x
    code = 0
    reported = []
    suppressed = 0
    if nondet:
        print("ERROR: %d executions did not repeat; first: %s" % (len(nondet), json.dumps(nondet[0])[:3000]))
        code = 2
    if errs:
        print("ERROR: " + errs[0])
        code = 2
    mbudget = 40 if tier == "quick" else 240
    for cls, (case, msg, u) in sorted(viol.items(), key=lambda x: x[1][2]):
        kf = [f for f in findings if matches(f, check.id, cls, msg)]
        if kf:
            suppressed += 1
            continue
        if len(reported) >= 3:
            break
        # gate: twice in fresh processes with identical executions and the same violation
        keys = []
        ok = True
        for _ in range(2):
            cache = Cache(check.cache_size)
            try:
                rs = run_case(check, cache, case)
                keys.append([r.key() for r in rs])
                ok = ok and cls in judge_classes(check, case, rs)
            finally:
                cache.close()
        if not ok or keys[0] != keys[1]:
            print("ERROR: violation %s does not replay (%s): %s" % (cls, msg, json.dumps(case)[:2000]))
            code = 2
            continue
        small, tried = minimise(check, case, cls, mbudget)
        mbudget = 15
        cache = Cache(check.cache_size)
        try:
            rs = run_case(check, cache, small)
        finally:
            cache.close()
        m2 = judge_classes(check, small, rs).get(cls, msg)
        if [f for f in findings if matches(f, check.id, cls, m2)] and m2 != msg:
            small, m2 = case, msg       # do not let minimisation slide into a listed finding
            cache = Cache(check.cache_size)
            try:
                rs = run_case(check, cache, small)
            finally:
                cache.close()
        path = write_replay(check, seed, u, small, cls, m2, rs, tried)
        r = subprocess.run([sys.executable, os.path.join(simlib.HERE, "replay.py"), path], stdout=subprocess.PIPE, text=True)
        if r.returncode != 1:
            print("ERROR: replay file %s does not reproduce:\n%s" % (path, r.stdout[-1500:]))
            code = 2
            continue
        print("  %s: %s" % (cls, m2[:1500]))
        print("VIOLATION property=%s replay=%s" % (check.id, os.path.relpath(path, VERIF)), flush=True)
        reported.append({"class": cls, "message": m2[:600], "replay": os.path.relpath(path, VERIF)})
    if reported:
        code = 1          # a reproduced violation decides, whatever else went wrong
    wall = time.time() - t0
    run_s = max(te - tb, 0.001)
    cov = {
        "evaluations": st["runs"], "distinct_nontrivial": min(st["nontrivial"], len(il)) if st["runs"] else 0,
        "rule": check.rule + "  Counted: cases that are non-trivial by this rule, but no more than the number of distinct event sequences (hash of the event log without times).",
        "samples": samples[:4] or [{"note": "no sample"}],
        "cases": st["cases"], "units": st["units"], "units_planned": nunits, "base_seed": seed, "unit_seeds_per_hour": round(st["units"] * 3600 / run_s),
        "simulated_runs_per_hour": round(st["runs"] * 3600 / run_s),
        "simulated_time_s": round(st["sim_ns"] / 1e9, 3), "simulated_operations": st["ops"], "forced_collections": st["gcruns"],
        "distinct_interleavings": len(il), "interleaving_measure": "hash of the sequence of scheduler and system-call events, times removed",
        "faults_fired": dict(sorted(fired.items())), "run_ends": dict(sorted(kinds.items())), "probes": dict(sorted(probes.items())),
        "components_real": check.real, "components_stub": check.stub, "violations_reported": reported, "known_finding_classes_seen": suppressed,
        "build_s": round(tb - t0, 1), "explore_s": round(run_s, 1),
    }
    ev = {"property": check.id, "tier": tier, "seed": seed, "level": getattr(check, "level", "exploration"), "coverage": cov, "assumptions": check.assumptions,
          "wall_s": round(wall, 2), "violations": len(reported)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases, %d runs, %d distinct interleavings, %.0f simulated s, %d units, faults %s, ends %s, %.0f s" %
          (check.id, st["cases"], st["runs"], len(il), st["sim_ns"] / 1e9, st["units"], dict(fired), dict(kinds), wall))
    if "-v" in argv:
        print("probes", dict(sorted(probes.items())))
    if st["cases"] == 0 and code == 0:
        print("ERROR: nothing explored")
        code = 2
    return code
