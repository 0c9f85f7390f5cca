#!/usr/bin/env python3
"""Work with planted bugs, in throw-away copies mounted over /repo and /verif in a private mount namespace.
  plant.py verify ID...           builds, stable tests, demo (0 before, nonzero after)
  plant.py run ID [P01 P02 ...]   runs the checks (default: the one of meta.json) on the changed tree
  plant.py diff ID                stores the working-tree diff of /repo as patch.diff and restores the tree"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
T = "/tmp/plant"


def ns(i, script, patch=True):
    d = os.path.join(T, i + "-%d" % os.getpid())
    os.makedirs(d)
    try:
        for a, b in (("/repo", "repo"), (V + "/build", "build"), (os.path.join(S, i), "demo")):
            subprocess.run(["cp", "-a", a, os.path.join(d, b)], check=True)
        os.makedirs(d + "/evidence"); os.makedirs(d + "/replays")
        for x in ("patch.diff", "meta.json"):
            if os.path.exists(os.path.join(d, "demo", x)):
                shutil.move(os.path.join(d, "demo", x), d)
        pre = "set -e; mount --bind %s/repo /repo; mount --bind %s/build %s/build; mount --bind %s/evidence %s/evidence; mount --bind %s/replays %s/replays; export PLANT=%s\n" % (d, d, V, d, V, d, V, d)
        p = "cd /repo; git apply %s/patch.diff\n" % d if patch else ""
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", pre + p + "set +e\n" + script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return r.returncode, r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def verify(i):
    rc, out = ns(i, """
cd /repo; timeout 300 bash $PLANT/demo/demo.sh > $PLANT/d0 2>&1; a=$?
git apply $PLANT/patch.diff || { echo NOAPPLY; exit 9; }
bash /opt/vp/build.sh > $PLANT/b 2>&1 || { echo NOBUILD; tail -20 $PLANT/b; exit 9; }
cd /repo; timeout 300 bash $PLANT/demo/demo.sh > $PLANT/d1 2>&1; b=$?
echo DEMO $a $b; head -c 600 $PLANT/d0; echo ---; head -c 1500 $PLANT/d1; echo
[ -n "$NOTEST" ] || { bash /opt/vp/test.sh $PLANT/out.json > $PLANT/t 2>&1
python3 - $PLANT/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
print("LOST", sorted(set(b['stable'])-set(o['passed']))[:5])
P
}
""", patch=False)
    print("==", i); print(out[-4000:]); sys.stdout.flush()


def run(i, props):
    meta = json.load(open(os.path.join(S, i, "meta.json")))
    for p in props or [meta["property"]]:
        rc, out = ns(i, "cd %s; VERIF_TIER=quick VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 sim/check.py %s" % (V, p))
        v = [l for l in out.split("\n") if "VIOLATION" in l or "violation" in l.lower()]
        print("==", i, p, "exit", rc, "CAUGHT" if rc == 1 and v else "MISSED"); print("\n".join(v[:6]) if v else out[-1500:]); sys.stdout.flush()


c, a = sys.argv[1], sys.argv[2:]
if c == "verify":
    for i in a: verify(i)
elif c == "run":
    run(a[0], a[1:])
elif c == "runall":
    for i in a or sorted(os.listdir(S)): run(i, [])
elif c == "diff":
    d = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
    assert d
    os.makedirs(os.path.join(S, a[0]), exist_ok=True)
    open(os.path.join(S, a[0], "patch.diff"), "wb").write(d)
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
