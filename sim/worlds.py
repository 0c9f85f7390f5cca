"""Worlds: every way the driver can talk to a solver (input format, output handling), with a cooperative solver script for each."""
from simlib import Prefix, MS, S, hx
import workloads as W

SOL = "x = %d;\ny = %d;\n----------\n"
MODEL = 'include "globals.mzn"; int: n; array[1..n] of int: w; var 1..9: x; var 0..99: y; constraint :: "link" x + y >= 2 /\\ y <= sum(w); constraint all_different([x, y]); solve satisfy; output ["x=\\(x) y=\\(y)\\n"];\n'
DATA = "n = 3;\nw = [20, 30, 50];\n"
SOLVER_LIB = "% solver library\n"


class World:
    def __init__(self, name, conf, args=(), model=MODEL, out=None, acts=None, data=True, passthrough=False, files=None, sol=None, files_out=()):
        self.name, self.conf, self.args, self.model, self.data, self.passthrough = name, conf, list(args), model, data, passthrough
        self.out = out if out is not None else [SOL % (3, 4), "% comment\n" + SOL % (5, 6), "==========\n"]
        self.files = files or {}
        self.sol = sol
        self.files_out = list(files_out)

    def prefix(self, snap="fork", args=(), files=None, env=None, **k):
        if snap == "fork" and self.files_out:
            snap = "join"            # a file opened before the snapshot would share its offset between runs
        if snap == "join" and self.name == "mzn":
            snap = "start"           # nothing is compiled
        f = {"bin/fz": "#!/bin/sh\n", "solvers/fz.msc": W.conf(**self.conf), "m.mzn": self.model, "home/": None, "lib/sim/redefinitions.mzn": SOLVER_LIB}
        if self.data:
            f["d.dzn"] = DATA
        f.update(self.files)
        f.update(files or {})
        e = {"MZN_SOLVER_PATH": "/simwork/solvers"}
        e.update(env or {})
        return Prefix(["--solver", "org.sim.fz"] + self.args + list(args) + ["m.mzn"] + (["d.dzn"] if self.data else []), f, e, snap=snap, **k)

    def script(self, end="exit", dt=1000, err=True, start=(20000, 50000)):
        """The cooperative solver: writes its output, ends with code 0.  end: exit | run (stays)."""
        L = ["plan 0", "start %d %d" % tuple(start)]
        L.append("a look %d" % dt)
        if self.sol is not None:
            L.append("a sol %d %s" % (dt, hx(self.sol)))
        for i, o in enumerate(self.out):
            if err and i == 1:
                L.append("a err %d %s" % (dt, hx("note from the solver\n")))
            L.append("a out %d %s" % (dt, hx(o)))
        L.append("a look %d" % dt)
        if end == "exit":
            L.append("a exit %d 0" % dt)
        return L


NLMODEL = 'var 1..9: x; var 0..99: y; array[1..3] of var 0.0..10.0: f; constraint x + y >= 2; constraint f[1] + f[2] * f[3] >= 1.0; solve minimize x + y; output ["x=\\(x) y=\\(y) f=\\(f)\\n"];\n'
CHECKER = 'int: n; array[1..n] of int: w; int: x; int: y; output ["sum \\(x + y)\\n"];\n'


def sol_file(values, code=0, head="sim solver 1.0: done", opts=True):
    L = [head, ""] + (["Options", "3", "1", "1", "0"] if opts else []) + ["2", "0", str(len(values)), str(len(values))]
    L += [repr(float(v)) for v in values] + ["objno 0 %d" % code]
    return "\n".join(L) + "\n"


WORLDS = {w.name: w for w in (
    World("fzn", {}),
    World("json", {}, ["--json-stream"]),
    World("fznjson", {"inputType": "JSON"}),
    World("paths", {"needsPathsFile": True}),
    World("canon", {}, ["--canonicalize", "--no-flush-output"]),
    World("file", {}, ["-o", "/simwork/out.txt", "--fzn", "/simwork/o.fzn", "--ozn", "/simwork/o.ozn", "--output-raw", "/simwork/raw.txt"], files_out=["out.txt", "o.fzn", "o.ozn", "raw.txt"]),
    World("passthrough", {"needsSolns2Out": False}, passthrough=True, out=["x is 3\n", "free text\n----------\n", "last line without end"]),
    World("mzn", {"supportsMzn": True, "supportsFzn": False, "inputType": "MZN"}, passthrough=True, out=["x is 3\n", "free text\n----------\n", "last\n"]),
    World("nl", {"supportsFzn": False, "inputType": "NL", "tags": ["float", "nl"]}, data=False, model=NLMODEL, out=["NL solver says hello\n", "second ", "line\n"], sol=sol_file([2.5, 3.5, 1.5, 8.75, 11, 4, 7])),
    World("interactive", {"isInteractive": True}, out=["Welcome\n> ", "%%%mzn-sol-begin\n", SOL % (3, 4), "%%%mzn-sol-end\n", "> ", "bye\n"]),
    World("checker", {}, ["--solution-checker", "c.mzc.mzn"], files={"c.mzc.mzn": CHECKER}),
)}
