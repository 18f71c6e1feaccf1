"""Driving the simulator binary: scenarios, runs, parsed histories."""
import os, shutil, stat, struct, subprocess, tempfile

SIG_EXIT = {"DEADLOCK": 97, "LIVELOCK": 96, "UNKNOWN": 95}


def scratch_root():
    """A directory on a memory file system if there is one."""
    for d in ("/dev/shm", "/tmp"):
        try:
            p = tempfile.mkdtemp(prefix="ptsim.", dir=d)
            t = os.path.join(p, "probe")
            with open(t, "wb") as f:
                f.truncate(40 << 30)
            os.unlink(t)
            return p
        except OSError:
            continue
    raise RuntimeError("no usable scratch directory")


class Server:
    """One simulator process; every run is a fork of it, so runs share nothing."""

    def __init__(self, exe, wall_ms=20000, stderr=False):
        self.exe = str(exe)
        self.wall_ms = wall_ms
        self.stderr = stderr
        self.p = None

    def start(self):
        env = {"PATH": "/usr/bin:/bin", "SIM_WALL_MS": str(self.wall_ms), "LC_ALL": "C"}
        if self.stderr:
            env["SIM_STDERR"] = "1"
        cmd = [self.exe]
        if shutil.which("setarch"):
            if subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL,
                              stderr=subprocess.DEVNULL).returncode == 0:
                cmd = ["setarch", "-R"] + cmd
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
                                  stderr=None if self.stderr else subprocess.DEVNULL)

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(timeout=5)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p = None

    def run(self, text):
        if self.p is None or self.p.poll() is not None:
            self.start()
        b = text.encode("utf-8", "surrogateescape")
        self.p.stdin.write(struct.pack("<I", len(b)) + b)
        self.p.stdin.flush()
        h = self.p.stdout.read(4)
        if len(h) < 4:
            raise RuntimeError("simulator server died")
        n = struct.unpack("<I", h)[0]
        return self.p.stdout.read(n).decode("utf-8", "surrogateescape")


def render(sc, workdir):
    o = []
    cfg = dict(sc["cfg"])
    o.append("cfg " + " ".join("%s=%s" % kv for kv in cfg.items()))
    for s in sc.get("sw", ()):
        o.append("sw %d %d %d" % tuple(s))
    o.append("dir " + workdir)
    for k, v in sc.get("env", {}).items():
        o.append("env %s %s" % (k, v))
    for i, s in enumerate(sc.get("std", ())):
        if s:
            o.append("std %d %s" % (i, s))
    for a in sc.get("args", ()):
        o.append("arg " + (a or "-"))
    for i, op in enumerate(sc["ops"]):
        o.append("op %d %s" % (i, " ".join(map(str, op))))
    return "\n".join(o) + "\n"


def clean_dir(d):
    for e in os.scandir(d):
        if e.is_dir(follow_symlinks=False):
            os.chmod(e.path, 0o700)
            shutil.rmtree(e.path, ignore_errors=True)
        else:
            os.unlink(e.path)


def setup_files(sc, d):
    clean_dir(d)
    for f in sc.get("files", ()):
        setup_one(f, os.path.join(d, f["p"]))


class Rec:
    """What the history says about one operation."""
    __slots__ = ("i", "t", "a", "b", "e", "ret", "err", "kv", "L", "D", "I", "skip", "faults")

    def __init__(self, i, op):
        self.i = i
        self.t = op[0]
        self.a = op[1:]
        self.b = self.e = None
        self.ret = self.err = 0
        self.kv = {}
        self.L = []
        self.D = []
        self.I = []
        self.skip = False
        self.faults = []


class Run:
    __slots__ = ("how", "code", "timeout", "steps", "hash", "counts", "crash", "sw", "recs", "order",
                 "marks", "faults", "text", "lines")

    def __init__(self, sc, text):
        self.text = text
        lines = text.split("\n")
        x = lines[0].split()
        self.how, self.code, self.timeout = x[1], int(x[2]), int(x[3])
        self.steps, self.hash = int(x[4]), int(x[5])
        self.counts = [int(v) for v in x[6:11]]
        self.crash = (int(x[11]), int(x[12]))
        self.sw = lines[1][2:].split()
        self.recs = {}
        self.order = []      # completed operations in completion order
        self.marks = {}      # RETURN / EARLY / LATE / CRASH ... -> line number
        self.faults = []
        last = None
        ops = sc["ops"]
        self.lines = len(lines)
        for ln in range(2, len(lines)):
            l = lines[ln]
            c = l[:2]
            if c == "B ":
                i = int(l[2:])
                r = self.rec(i, ops)
                r.b = ln
                last = None
            elif c == "E ":
                p = l.split(" ")
                r = self.rec(int(p[1]), ops)
                r.e = ln
                r.ret = int(p[2])
                r.err = int(p[3])
                for q in p[4:]:
                    k, _, v = q.partition("=")
                    r.kv[k] = v if k in ("data", "labs", "addr", "banner") else int(v)
                self.order.append(r)
                last = r
            elif c == "L ":
                p = l.split(" ")
                if last is not None:
                    last.L.append((int(p[1]), int(p[2]), int(p[3]), int(p[4]), int(p[5])))
            elif c == "D ":
                p = l.split(" ")
                if last is not None:
                    last.D.append((int(p[1]), int(p[2]), bytes.fromhex(p[3]) if p[3] != "-" else b""))
            elif c == "I ":
                p = l.split(" ")
                r = self.rec(int(p[1]), ops)
                r.I = [int(v) for q in p[2:] for v in q.split(",") if v]
            elif c == "S ":
                self.rec(int(l[2:]), ops).skip = True
            elif l.startswith("FAULT "):
                kv = dict(q.split("=", 1) for q in l.split(" ")[1:])
                f = (int(kv["t"]), kv["fn"], kv["kind"], int(kv["arg"]))
                self.faults.append(f)
                if int(kv["op"]) >= 0:
                    self.rec(int(kv["op"]), ops).faults.append(f)
            elif l:
                self.marks.setdefault(l.split(" ")[0], ln)

    def rec(self, i, ops):
        r = self.recs.get(i)
        if r is None:
            r = self.recs[i] = Rec(i, ops[i])
        return r

    @property
    def outcome(self):
        if self.timeout:
            return "timeout"
        return "%s%d" % (self.how, self.code)


class Simulator:
    """A server plus its scratch directory."""

    def __init__(self, exe, root, wall_ms=20000, stderr=False):
        self.srv = Server(exe, wall_ms, stderr)
        self.dir = os.path.join(root, "w%d" % os.getpid())
        os.makedirs(self.dir, exist_ok=True)

    def run(self, sc, keep=False):
        """Runs one scenario. Scenarios may name an earlier one ("old") whose trace is left behind first."""
        setup_files(sc, self.dir)
        if sc.get("old"):
            old = sc["old"]
            self.srv.run(render(old, self.dir))
            for f in old.get("files", ()):
                try:
                    os.unlink(os.path.join(self.dir, f["p"]))
                except OSError:
                    pass
            for f in sc.get("files", ()):
                p = os.path.join(self.dir, f["p"])
                if not os.path.lexists(p):
                    setup_one(f, p)
        return Run(sc, self.srv.run(render(sc, self.dir)))

    def close(self):
        self.srv.stop()
        shutil.rmtree(self.dir, ignore_errors=True)


def setup_one(f, p):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if "fifo" in f:
        os.mkfifo(p, 0o600)
    elif "dir" in f:
        os.makedirs(p, exist_ok=True)
    elif "link" in f:
        os.symlink(f["link"], p)
    else:
        with open(p, "wb") as h:
            h.write(bytes.fromhex(f.get("hex", "")))
            if "size" in f:
                h.truncate(f["size"])
        os.chmod(p, f.get("mode", 0o644))


def snapshot(d):
    """Final state of the program's files: type, mode and content."""
    out = {}
    for e in sorted(os.scandir(d), key=lambda e: e.name):
        st = e.stat(follow_symlinks=False)
        c = None
        if stat.S_ISREG(st.st_mode) and st.st_size < 1 << 22:
            with open(e.path, "rb") as f:
                c = f.read()
        out[e.name] = (st.st_mode, 0 if stat.S_ISDIR(st.st_mode) else st.st_size, c)
        if stat.S_ISDIR(st.st_mode):
            for k, v in snapshot(e.path).items():
                out[e.name + "/" + k] = v
    return out
