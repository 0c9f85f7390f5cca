"""Driving the simulator: zygotes, scenarios, results."""
import hashlib, os, select, shutil, subprocess, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
EXE = os.path.join(BUILD, "simzinc")

KINDS = {0: "NONE", 1: "EXIT", 2: "SIGNAL", 3: "DEADLOCK", 4: "BUDGET", 5: "ABORT", 6: "NOSNAP", 7: "CRASH", 8: "CPU", 9: "SIMERR"}
MS = 1000000
S = 1000000000


class SimError(Exception):
    pass


def hx(s):
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogateescape")
    return s.hex()


class Result:
    """What one simulated execution did."""
    __slots__ = ("kind", "code", "t0", "t1", "ops", "steps", "gcpoints", "gcruns", "loghash", "ilhash", "out", "err", "log", "ex", "snap", "files", "wall")

    def key(self):
        h = hashlib.sha256()
        h.update(repr((self.kind, self.code, self.t1 - self.t0, self.ops, self.steps, self.gcpoints, self.gcruns, self.loghash, self.ilhash, self.snap)).encode())
        h.update(self.out); h.update(b"\0"); h.update(self.err); h.update(b"\0"); h.update(self.ex)
        for k in sorted(self.files or {}):
            h.update(k.encode()); h.update(self.files[k] or b"")
        return h.hexdigest()

    def exl(self, word):
        w = word.encode()
        return [l.decode("utf-8", "replace").split(" ") for l in self.ex.split(b"\n") if l.split(b" ", 1)[0] == w]

    @property
    def sim_ns(self):
        return self.t1 - self.t0

    def fired(self):
        d = {}
        for l in self.exl("fired"):
            d[l[1]] = d.get(l[1], 0) + 1
        return d


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def write_tree(root, files):
    for name, data in files.items():
        p = os.path.join(root, name)
        if data is None:
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data.encode() if isinstance(data, str) else data)


def read_tree(root):
    r = {}
    for base, dirs, files in os.walk(root):
        rel = os.path.relpath(base, root)
        for d in dirs:
            r[os.path.normpath(os.path.join(rel, d)) + "/"] = None
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as h:
                r[os.path.normpath(os.path.join(rel, f))] = h.read()
    return r


class Prefix:
    """Everything fixed before the snapshot: arguments, files, environment, snapshot point, early scenario lines."""

    def __init__(self, args, files=None, env=None, snap="start", stdin=b"", lines=()):
        self.args, self.files, self.env, self.snap, self.stdin, self.lines = list(args), dict(files or {}), dict(env or {}), snap, stdin, list(lines)

    def to_json(self):
        enc = lambda b: None if b is None else (b if isinstance(b, str) else b.decode("latin-1"))
        return {"args": self.args, "files": {k: enc(v) for k, v in self.files.items()},
                "binary": [k for k, v in self.files.items() if isinstance(v, bytes)], "env": self.env, "snap": self.snap,
                "stdin": enc(self.stdin), "stdin_binary": isinstance(self.stdin, bytes), "lines": self.lines}

    @staticmethod
    def from_json(j):
        files = {k: (v.encode("latin-1") if k in j["binary"] and v is not None else v) for k, v in j["files"].items()}
        stdin = j["stdin"].encode("latin-1") if j["stdin_binary"] else j["stdin"]
        return Prefix(j["args"], files, j["env"], j["snap"], stdin, j["lines"])

    def key(self):
        return hashlib.sha256(repr((self.args, sorted(self.files.items(), key=lambda x: x[0]), sorted(self.env.items()), self.snap, self.stdin, self.lines)).encode("utf-8", "replace")).hexdigest()


class Zygote:
    def __init__(self, prefix):
        self.p = prefix
        self.dir = tempfile.mkdtemp(prefix="simz.", dir=scratch_root())
        self.scratch = os.path.join(self.dir, "w")
        os.makedirs(os.path.join(self.scratch, "tmp"))
        write_tree(self.scratch, prefix.files)
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        L = ["arg " + hx(a) for a in prefix.args]
        L.append("scratch " + hx(self.scratch))
        L.append("lib " + hx(os.path.join(REPO, "share/minizinc")))
        env = {"PATH": "/simwork/bin", "TMPDIR": "/simwork/tmp", "HOME": "/simwork/home", "MZN_STDLIB_DIR": "/simlib", "LC_ALL": "C"}
        env.update(prefix.env)
        L += ["env %s %s" % (k, hx(v)) for k, v in env.items() if v is not None]
        L.append("snap " + prefix.snap)
        if prefix.stdin:
            L.append("stdin " + hx(prefix.stdin))
        L.append("ctl %d %d" % (r1, w2))
        L += prefix.lines
        pf = os.path.join(self.dir, "prefix")
        with open(pf, "w") as f:
            f.write("\n".join(L) + "\n")
        self.errf = open(os.path.join(self.dir, "stderr"), "wb")
        self.proc = subprocess.Popen([EXE, pf], pass_fds=(r1, w2), stdin=subprocess.DEVNULL, stdout=self.errf, stderr=self.errf, env=dict({"PATH": "/usr/bin:/bin"}, **({"SIM_DBG": "1"} if "SIM_DBG" in os.environ else {})))
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.buf = b""
        hello = self.line()
        self.nosnap = False
        if hello is None:
            e = open(os.path.join(self.dir, "stderr"), "rb").read()[-500:]
            self.close()
            raise SimError("zygote died before its snapshot: %r" % e)
        if hello.startswith(b"NOSNAP"):
            self.nosnap = True
            self.snapstep = None
        else:
            self.snapstep = int(hello.split()[2])
        self.tree = read_tree(self.scratch)

    def more(self, timeout=120):
        r, _, _ = select.select([self.r], [], [], timeout)
        if not r:
            raise SimError("simulator does not answer")
        b = os.read(self.r, 1 << 20)
        if not b:
            return False
        self.buf += b
        return True

    def line(self):
        while b"\n" not in self.buf:
            if not self.more():
                return None
        l, self.buf = self.buf.split(b"\n", 1)
        return l

    def take(self, n):
        while len(self.buf) < n:
            if not self.more():
                raise SimError("truncated result")
        r, self.buf = self.buf[:n], self.buf[n:]
        return r

    def run(self, lines):
        t = time.time()
        text = ("\n".join(lines) + "\n").encode()
        os.write(self.w, b"%-16d" % len(text)) if len(text) < 30000 else os.write(self.w, b"%-16d" % len(text))
        o = 0
        while o < len(text):
            o += os.write(self.w, text[o:o + 32768])
        l = self.line()
        if l is None:
            raise SimError("zygote died")
        f = l.split()
        if f[0] != b"R":
            raise SimError("bad reply %r" % l)
        R = Result()
        R.kind = KINDS[int(f[1])]
        R.code = int(f[2])
        R.t0, R.t1, R.ops, R.steps, R.gcpoints, R.gcruns = [int(x) for x in f[3:9]]
        R.loghash, R.ilhash = f[9].decode(), f[10].decode()
        n = [int(x) for x in f[11:15]]
        R.out, R.err, R.log, R.ex = [self.take(k) for k in n]
        R.snap = self.snapstep
        now = read_tree(self.scratch)
        R.files = {k: v for k, v in now.items() if self.tree.get(k, 0) != v}
        for k in self.tree:
            if k not in now:
                R.files[k] = None if k.endswith("/") else b"<deleted>"
        self.restore(now)
        R.wall = time.time() - t
        return R

    def restore(self, now):
        for k, v in sorted(now.items(), reverse=True):
            if k not in self.tree:
                p = os.path.join(self.scratch, k)
                if k.endswith("/"):
                    shutil.rmtree(p, ignore_errors=True)
                else:
                    try:
                        os.unlink(p)
                    except FileNotFoundError:
                        pass
        for k, v in sorted(self.tree.items()):
            if now.get(k, 0) != v:
                p = os.path.join(self.scratch, k)
                if k.endswith("/"):
                    os.makedirs(p, exist_ok=True)
                else:
                    with open(p, "wb") as f:
                        f.write(v)

    def close(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            self.proc.wait(3)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
        self.errf.close()
        shutil.rmtree(self.dir, ignore_errors=True)


class Cache:
    """A few live zygotes, least recently used first."""

    def __init__(self, n=6):
        self.n, self.d = n, {}

    def get(self, prefix):
        k = prefix.key()
        if k in self.d:
            z = self.d.pop(k)
            self.d[k] = z
            return z
        z = Zygote(prefix)
        if len(self.d) >= self.n:
            old = next(iter(self.d))
            self.d.pop(old).close()
        self.d[k] = z
        return z

    def drop(self, prefix):
        z = self.d.pop(prefix.key(), None)
        if z:
            z.close()

    def close(self):
        for z in self.d.values():
            z.close()
        self.d = {}


def execute(cache, prefix, lines):
    """One simulated execution.  Falls back to a snapshot at the very start if the requested point is not reached."""
    z = cache.get(prefix)
    if z.nosnap:
        p2 = Prefix(prefix.args, prefix.files, prefix.env, "start", prefix.stdin, prefix.lines)
        z = cache.get(p2)
        r = z.run(lines)
        r.snap = -1
        return r
    try:
        return z.run(lines)
    except SimError:
        cache.drop(prefix)
        raise
