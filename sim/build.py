#!/usr/bin/env python3
"""Build the simulator: the product's own sources (from /repo's working tree, guard MZN_SIMULATION on) linked with
the simulated libc.  Output: /verif/build/simzinc.  Nothing is written to /repo."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CM = os.path.join(BUILD, "cm")
FLAGS = "-O1 -g0 -DNDEBUG -DMZN_SIMULATION -U_FORTIFY_SOURCE"
SIMSRC = ["alloc.cc", "core.cc", "main.cc"]


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), p.stdout[-6000:]))
        sys.exit(3)
    return p.stdout


def digest(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def sources():
    r = []
    for base, dirs, files in os.walk(REPO):
        if base == REPO:
            dirs[:] = [d for d in dirs if d in ("lib", "include", "solvers", "cmake")]
            files = [f for f in files if f in ("minizinc.cpp", "CMakeLists.txt")]
        for f in files:
            r.append(os.path.join(base, f))
    return sorted(r)


def stale_guard():
    """ninja compares times; drop the build if a file changed content without getting a newer time."""
    rec = os.path.join(BUILD, "sources.json")
    cur = {p: digest(p) for p in sources()}
    if os.path.exists(rec):
        old = json.load(open(rec))
        t = old.pop("_time")
        for p, h in cur.items():
            if old.get(p) != h and os.stat(p).st_mtime <= t:
                shutil.rmtree(CM, ignore_errors=True)
                break
        if set(old) - set(cur):
            shutil.rmtree(CM, ignore_errors=True)
    elif os.path.exists(CM):
        shutil.rmtree(CM, ignore_errors=True)
    return rec, cur


def main():
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    rec, cur = stale_guard()
    tstart = time.time()
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++")
    if not os.path.exists(os.path.join(CM, "build.ninja")):
        sh(["cmake", "-S", REPO, "-B", CM, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
            "-DCMAKE_CXX_FLAGS_RELEASE=" + FLAGS, "-DCMAKE_C_FLAGS_RELEASE=" + FLAGS], env=env)
    # everything that can run beside the library build
    procs = []
    objs = []
    for s in SIMSRC:
        src = os.path.join(HERE, s)
        o = os.path.join(BUILD, s[:-3] + ".o")
        objs.append(o)
        deps = [src, os.path.join(HERE, "sim.hh"), os.path.abspath(__file__)]
        if not os.path.exists(o) or any(os.stat(d).st_mtime > os.stat(o).st_mtime for d in deps):
            fl = ["-O2", "-fno-builtin"] if s == "alloc.cc" else ["-O1"]
            procs.append(subprocess.Popen(["g++", "-std=gnu++17", *fl, "-U_FORTIFY_SOURCE", "-c", src, "-o", o]))
    sh(["ninja", "-C", CM, "mzn"], env=env)
    for p in procs:
        if p.wait():
            sys.stderr.write("BUILD FAILED: simulator\n")
            sys.exit(3)
    # the driver's own main, renamed
    pm = os.path.join(BUILD, "product_main.o")
    sh(["g++", "-std=gnu++11", *FLAGS.split(), "-Dmain=mzn_product_main", "-I" + REPO + "/include", "-I" + CM + "/include",
        "-c", REPO + "/minizinc.cpp", "-o", pm])
    libs = ""
    take = False
    for l in open(os.path.join(CM, "build.ninja")):
        if l.startswith("build minizinc: "):
            take = True
        if take and l.strip().startswith("LINK_LIBRARIES"):
            libs = l.split("=", 1)[1].split()
            break
    exe = os.path.join(BUILD, "simzinc")
    sh(["g++", "-no-pie", "-rdynamic", "-o", exe + ".tmp", *objs, pm] + [x if x.startswith(("/", "-")) else os.path.join(CM, x) for x in libs] + ["-ldl", "-lpthread"])
    os.replace(exe + ".tmp", exe)
    cur["_time"] = tstart
    json.dump(cur, open(rec, "w"))
    sys.stderr.write("build: %.1f s\n" % (time.time() - t0))


if __name__ == "__main__":
    main()
