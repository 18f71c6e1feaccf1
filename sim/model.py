"""The reference model: what a run's history obliges its trace to contain."""
import collections, os, sys
from pathlib import Path

REPO = os.environ.get("VERIF_REPO", "/repo")
G = 32  # guard bytes around a buffer
MSG_PEEK, MSG_TRUNC = 2, 0x20
O_APPEND = 0o2000
OPENERS = ("open", "open64", "openat", "fopen", "fopen64")
FD_IN = ("read", "recv", "recvfrom", "pread", "pread64")
WRAPPED = set(OPENERS) | set(FD_IN) | {
    "connect", "accept", "accept4", "close", "fclose", "badclose", "fread", "fread_unlocked", "fgets", "gets", "getdelim",
    "__getdelim", "getc", "mmap", "munmap", "write", "send", "fwrite", "putc", "fputc", "tcf", "malloc", "calloc",
    "realloc", "strcat", "strcpy", "strncpy", "memcpy", "memmove", "strdup", "memset"}

_reader = None


def reader():
    """The project's own trace reader."""
    global _reader
    if _reader is None:
        os.environ["TQDM_DISABLE"] = "1"
        sys.dont_write_bytecode = True
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        import polytracker.taint_dag as td
        import polytracker.mapping as mp
        _reader = (td, mp)
    return _reader


class Opening:
    __slots__ = ("fd", "name", "size", "t", "b", "e", "must", "idx", "rcount", "wcount", "rcalls", "wcalls",
                 "append", "claimed", "sinks", "regular", "key")

    def __init__(self, fd, name, size, t=0, b=0, e=0, must=True, append=False):
        self.fd, self.name, self.size = fd, name, size
        self.t, self.b, self.e, self.must, self.append = t, b, e, must, append
        self.idx = None
        self.rcount = self.wcount = 0
        self.rcalls, self.wcalls = [], []
        self.claimed = False
        self.sinks = collections.defaultdict(list)  # thread -> expected records in order


class Region:
    __slots__ = ("n", "g", "lab", "dat")

    def __init__(self, n, g, datalen=None):
        self.n, self.g = n, g
        self.lab = [0] * (n + 2 * g)
        self.dat = bytearray(n + 2 * g)


class Reject(Exception):
    pass


def rawcf(sec):
    """Decodes the control-flow log: (kind, function id[, label])."""
    out, i, n = [], 0, len(sec)

    def varint():
        nonlocal i
        v = s = 0
        while True:
            if i >= n:
                raise Reject("control-flow log ends inside a record")
            c = sec[i]
            i += 1
            v |= (c & 0x7F) << s
            s += 7
            if not c & 0x80:
                return v

    while i < n:
        k = sec[i]
        i += 1
        f = varint()
        out.append((k, f, varint()) if k == 2 else (k, f))
    return out


def interleaves(seq, threads):
    """Is seq an interleaving of a prefix of each thread's records, each prefix covering at least the thread's
    obligatory records, in an order compatible with real time? A record is (value, b, e, must); value may be a
    predicate."""
    ths = [t for t in threads if t]
    need = []
    for t in ths:
        k = 0
        for j, r in enumerate(t):
            if r[3]:
                k = j + 1
        need.append(k)
    total = sum(len(t) for t in ths)
    if len(seq) > total:
        return False, len(seq)
    n = len(ths)
    front = {tuple([0] * n)}
    for k, v in enumerate(seq):
        nxt = set()
        for st in front:
            for j in range(n):
                p = st[j]
                if p >= len(ths[j]):
                    continue
                val, b, e, _ = ths[j][p]
                if not (val(v) if callable(val) else val == v):
                    continue
                if b is not None and any(
                        st[m] < len(ths[m]) and ths[m][st[m]][2] is not None and ths[m][st[m]][2] < b
                        for m in range(n) if m != j):
                    continue
                nxt.add(st[:j] + (p + 1,) + st[j + 1:])
        if not nxt:
            return False, k
        front = nxt
    return any(all(a >= b for a, b in zip(st, need)) for st in front), len(seq)


class Judge:
    def __init__(self, sc, run, workdir):
        self.sc, self.run, self.dir = sc, run, workdir
        self.v = []
        self.openings, self.args = [], []
        self.handles = {}
        self.regions = {}
        self.claims = []        # (label, opening, offset, rec, must)
        self.unions = []        # (result, operands, rec, must)
        self.branches = []      # (label, must)
        self.undelivered = set()  # consumed, but not given to the program
        self.cf = collections.defaultdict(list)
        self.ev = collections.defaultdict(list)
        self.names = []         # (name, id or None, rec, must)
        self.inflight = []
        self.lines = {}
        self.stats = collections.Counter()
        self.threads = {op[0] for op in sc["ops"] if 0 < op[0] < 50}
        self.users = collections.defaultdict(set)
        for op in sc["ops"]:
            if op[1] in FD_IN + ("fread", "fread_unlocked", "fgets", "gets", "getdelim", "__getdelim"):
                self.users["r%s" % op[2]].add(op[0])
            elif op[1] == "getc":
                self.users["r%s" % op[3]].add(op[0])
            elif op[1] in ("write", "send", "fwrite", "putc", "fputc"):
                self.users["w%s" % op[2]].add(op[0])

    def bad(self, kind, msg):
        if len(self.v) < 20:
            self.v.append((kind, msg))

    # ---- outcome -------------------------------------------------------------------
    def outcome(self):
        """Checks how the run ended; returns 'finished', 'killed' or None (already reported)."""
        sc, run = self.sc, self.run
        if run.timeout:
            self.bad("hang", "run did not finish within the wall-clock limit")
            return None
        for m in ("DEADLOCK", "LIVELOCK"):
            if m in run.marks:
                self.bad("hang", "%s after %d steps" % (m.lower(), run.steps))
                return None
        if run.how == "rc" and run.code in (94, 95):
            raise RuntimeError("scenario not executable: rc %d %s" % (run.code, run.text[-300:]))
        if "CRASH" in run.marks:
            if run.how == "sig" and run.code == 9:
                return "killed"
            self.bad("crash", "expected SIGKILL, got %s" % run.outcome)
            return None
        self.xline, self.xthread, want = None, 0, None
        ended = [r for r in run.recs.values() if r.b and r.e is None and
                 r.a[0] in ("exit", "assertfail", "abort", "kill", "_exit")]
        if ended:
            r = min(ended, key=lambda r: r.b)
            self.xline, self.xthread = r.b, r.t
            want = {"exit": lambda: ("rc", int(r.a[1]) & 255), "_exit": lambda: ("rc", int(r.a[1]) & 255),
                    "assertfail": lambda: ("sig", 6), "abort": lambda: ("sig", 6),
                    "kill": lambda: ("sig", 9)}[r.a[0]]()
            kind = "finished" if r.a[0] in ("exit", "assertfail") else "killed"
        elif "RETURN" in run.marks:
            self.xline, want, kind = run.marks["RETURN"], ("rc", int(self.sc["cfg"].get("rc", 0))), "finished"
        else:
            kind = None
        if kind is not None and (run.how, run.code) == want:
            return kind
        if sc.get("loud") and run.how == "rc" and run.code != 0:
            return "loud"
        self.bad("crash", "program ended with %s%s" % (run.outcome, ", expected %s%d" % want if want else
                                                       " before reaching its end"))
        return None

    # ---- history -------------------------------------------------------------------
    def must(self, r):
        if self.kind != "finished" and self.kind != "loud":
            return False
        if r.e is None or r.t == 90:
            return False
        if self.kind == "loud":
            return True
        return r.t == 91 or r.e < self.xline or r.t == self.xthread

    def opening(self, fd, name, size, r, append=False):
        o = Opening(fd, name, size, r.t, r.b, r.e, self.must(r), append)
        self.openings.append(o)
        return o

    def history(self):
        sc, run = self.sc, self.run
        self.started = False
        self.start_line = None
        for r in run.recs.values():
            if r.a[0] == "start" and r.e is not None:
                self.start_line = r.e
        for r in run.order:
            self.step(r)
        self.inflight = [r for r in run.recs.values() if r.b is not None and r.e is None]
        for r in self.inflight:
            self.partial(r)

    def start(self, r):
        """Sources and sinks the configuration asks for."""
        env, std = self.sc.get("env", {}), list(self.sc.get("std", ())) + [None] * 3
        m = self.must(r)

        def size(i):
            s = (std[i] or "null").split()
            if s[0] == "file" and i == 0:
                for f in self.sc.get("files", ()):
                    if f["p"] == s[1]:
                        return len(f.get("hex", "")) // 2
            return None

        self.std = {}
        for i, var, nm in ((1, "POLYTRACKER_STDOUT_SINK", "/dev/stdout"), (2, "POLYTRACKER_STDERR_SINK", "/dev/stderr"),
                           (0, "POLYTRACKER_STDIN_SOURCE", "/dev/stdin")):
            if env.get(var) == "1":
                o = Opening(i, nm, size(i), 0, r.b, r.e, m)
                o.append = (std[i] or "").startswith("append")
                self.openings.append(o)
                self.std[i] = o
        if env.get("POLYTRACKER_TAINT_ARGV") == "1":
            for i, a in enumerate(self.sc.get("args", ())):
                o = Opening(-1, "argv[%d]" % i, -1, 0, r.b, r.e, m)
                self.openings.append(o)
                self.args.append(o)

    def label(self, r, s):
        """Label an operand denotes in the model, if the model can know it."""
        return None

    def step(self, r):
        a, o = r.a, r.a[0]
        n = lambda i: int(a[i])
        pre = self.start_line is None or r.e < self.start_line
        must = self.must(r)
        self.stats[o] += 1
        if o in WRAPPED and not pre:
            if "rl" not in r.kv:
                self.bad("retlabel", "%s: the return value's label was left undefined" % self.show(r))
            elif o not in ("getc", "tcf") and r.kv["rl"] != 0:
                self.bad("retlabel", "%s: the return value carries label %d" % (self.show(r), r.kv["rl"]))
        pred = {}  # region -> {pos: label | ("c", opening, offset)}
        if o == "start":
            self.start(r)
        elif o == "argbuf":
            arg = bytes.fromhex(self.sc["args"][n(2)])
            R = self.regions[n(1)] = Region(len(arg) + 1, 0)
            if self.args:
                op = self.args[n(2)]
                pred[n(1)] = {i: ("c", op, i) for i in range(len(arg))}
        elif o == "buf":
            self.regions[n(1)] = Region(n(2), G)
        elif o == "poke":
            d = bytes.fromhex(a[3])
            pred[n(1)] = {n(2) + i: 0 for i in range(len(d))}
        elif o in OPENERS:
            if r.ret >= 0:
                ap = (n(3) & O_APPEND) != 0 if o[0] == "o" else a[3].startswith("a")
                self.handles[n(1)] = self.opening(r.ret, a[2], r.kv.get("size", -1), r, ap)
        elif o == "stdh":
            self.handles[n(1)] = self.std.get(n(2)) if r.kv["as"] < 0 else self.handles.get(r.kv["as"])
        elif o in ("dupfd", "socket"):
            self.handles[n(1)] = None
        elif o == "connect" or o in ("accept", "accept4"):
            if r.ret >= 0:
                fam = 2
                if o == "connect":
                    fam = self.lines.get(("fam", n(1)), 2)
                else:
                    fam = n(3)
                failed = any(f[1] in ("getsockname", "getpeername") for f in r.faults)
                fd = r.ret if o != "connect" else self.lines.get(("fd", n(1)), -9)
                if fam == 2 and not failed:
                    self.handles[n(1)] = self.opening(fd, "socket:127.0.0.1:8000-127.0.0.2:%d" % (20000 + r.kv["sid"]),
                                                      -1, r)
                elif o != "connect":
                    self.handles[n(1)] = None
        elif o in FD_IN:
            self.input(r, pred, n(2), n(3), min(r.ret, n(4)) if r.ret > 0 else 0, n(1),
                       n(5) if o.startswith("pread") else None,
                       peek=o in ("recv", "recvfrom") and n(5) & MSG_PEEK)
        elif o in ("fread", "fread_unlocked"):
            self.input(r, pred, n(2), n(3), r.ret * n(4), n(1))
        elif o == "fgets":
            k = r.kv.get("len", 0) if r.ret else 0
            self.input(r, pred, n(2), n(3), k, n(1))
        elif o == "gets":
            if r.ret >= 0:
                labs = [int(x) for x in r.kv["labs"].split(",")] if r.ret else []
                if r.kv["extra"]:
                    self.bad("outside", "%s: labels appeared after the end of the line" % self.show(r))
                if labs:
                    self.direct(r, labs, n(1))
                op = self.handles.get(n(1))
                if op is not None and not r.kv["eof"]:      # the newline is read, but not delivered
                    at = r.kv["p0"] + r.ret if r.kv["p0"] >= 0 else op.rcount
                    if r.kv["p0"] < 0:
                        op.rcount += 1
                    self.undelivered.add((op, at))
                R = self.regions.get(n(2))
                if R is not None and labs:
                    pred[n(2)] = {i: labs[i] for i in range(min(r.ret, R.n))}
        elif o in ("getdelim", "__getdelim"):
            if r.ret > 0:
                labs = [int(x) for x in r.kv["labs"].split(",")]
                self.direct(r, labs, n(1))
                R = self.regions.get(n(4))
                if R is not None:
                    pred[n(4)] = {i: labs[i] for i in range(min(r.ret, R.n))}
        elif o == "getc":
            h = int(a[2])
            if r.ret == -1:
                if r.kv.get("rl"):
                    self.bad("claim", "%s returned EOF but its value carries label %d" % (self.show(r), r.kv["rl"]))
            else:
                self.direct(r, [r.kv.get("rl", 0)], h)
        elif o == "mmap":
            if r.ret == 0:
                ln, off = n(3), n(6)
                R = self.regions[n(2)] = Region(min(ln, ln if ln <= 1 << 20 else 64), 0)
                anon = a[1] == "anon" or n(5) & 0x20
                op = None if anon else self.handles.get(int(a[1]))
                if op is not None:
                    k = max(0, min(R.n, r.kv["size"] - off))
                    pred[n(2)] = {i: ("c", op, off + i) for i in range(k)}
        elif o == "munmap":
            if r.ret == 0:
                if not r.kv.get("clean", 1):
                    self.bad("mem", "%s: labels of the unmapped range survive" % self.show(r))
                self.regions.pop(n(1), None)
        elif o in ("write", "send"):
            self.output(r, n(1), n(2), n(3), max(r.ret, 0))
        elif o == "fwrite":
            self.output(r, n(1), n(2), n(3), r.ret * n(4))
        elif o in ("putc", "fputc"):
            if r.ret != -1:
                self.sink(r, n(1), [r.kv.get("l", 0)])
        elif o == "union" or o == "ld":
            if not pre:
                self.unions.append((r.ret, r.I, r, must))
        elif o == "st":
            pred[n(1)] = {n(2) + i: r.ret for i in range(n(3))}
        elif o in ("branch", "rawbranch"):
            if not pre and r.I[0]:
                self.branches.append((r.I[0], must))
        elif o == "tcf":
            want = int(a[3]) & (2 ** 64 - 1)
            if int(r.kv["cond"]) & (2 ** 64 - 1) != want:
                self.bad("cond", "%s changed the condition to %d" % (self.show(r), r.kv["cond"]))
            if r.kv.get("rl") != r.I[0]:
                self.bad("condlabel", "%s returned label %s for a value labelled %d" % (self.show(r), r.kv.get("rl"), r.I[0]))
            if not pre and r.I[0]:
                self.cf[r.t].append(((2, n(4), r.I[0]), r.b, r.e, must))
        elif o in ("enter", "leave"):
            if not pre:
                self.cf[r.t].append(((0 if o == "enter" else 1, n(1)), r.b, r.e, must))
        elif o == "fentry":
            if not pre:
                self.names.append((bytes.fromhex(a[2]) if a[2] != "-" else b"", r.ret, r, must))
                self.ev[r.t].append(((0, r.ret), r.b, r.e, must))
        elif o == "fexit":
            if not pre:
                self.ev[r.t].append(((1, r.ret), r.b, r.e, must))
        elif o in ("malloc", "calloc"):
            if r.ret == 0:
                if not r.kv.get("clean", 1):
                    self.bad("mem", "%s: zeroed memory carries labels" % self.show(r))
                self.regions[n(1)] = Region(n(2), 0)
        elif o == "realloc":
            old = self.regions.get(n(1))
            if r.ret == 0:
                R = Region(n(2), 0)
                if old is not None:
                    keep = min(old.n, R.n)
                    labs = [int(x) for x in r.kv["labs"].split(",") if x]
                    for i in range(keep):
                        if labs[i] != old.lab[i]:
                            self.bad("mem", "%s: byte %d had label %d and now has %d" % (self.show(r), i, old.lab[i], labs[i]))
                            break
                    R.lab[:keep] = labs[:keep]
                    R.dat[:keep] = old.dat[:keep]
                self.regions[n(1)] = R
            elif n(2) == 0:
                self.regions.pop(n(1), None)
        elif o == "free":
            self.regions.pop(n(1), None)
        elif o in ("strcat", "strcpy", "strncpy", "memcpy", "memmove"):
            self.copy(r, pred)
            if r.ret != 1:
                self.bad("mem", "%s returned a wrong pointer" % self.show(r))
        elif o == "strdup":
            s = self.regions[n(2)]
            z = s.dat.index(0, s.g + n(3))
            k = z - s.g - n(3) + 1
            self.regions[n(1)] = Region(k, 0)
            pred[n(1)] = {i: s.lab[s.g + n(3) + i] for i in range(k)}
        elif o == "memset":
            pred[n(1)] = {n(2) + i: r.kv["l"] for i in range(n(3))}
        if o == "socket":
            self.lines[("fam", n(1))] = n(3)
            self.lines[("fd", n(1))] = r.ret
        self.diffs(r, pred)

    def copy(self, r, pred):
        a, o = r.a, r.a[0]
        rd, od, rs, os_, k = (int(x) for x in a[1:6])
        d, s = self.regions[rd], self.regions[rs]
        so = s.g + os_
        if o in ("memcpy", "memmove"):
            pred[rd] = {od + i: s.lab[so + i] for i in range(k)}
            return
        sl = s.dat.index(0, so) - so
        if o == "strcpy":
            pred[rd] = {od + i: s.lab[so + i] for i in range(sl + 1)}
        elif o == "strncpy":
            m = min(sl, k)
            pred[rd] = {od + i: (s.lab[so + i] if i <= sl and i < k and i < m + 1 else 0) for i in range(k)}
            # bytes written as padding have no labelled origin; the source's own terminator may keep its label
            self.pad = {(rd, od + i) for i in range(m, k)}
        else:
            dl = d.dat.index(0, d.g + od) - d.g - od
            pred[rd] = {od + dl + i: s.lab[so + i] for i in range(sl + 1)}

    pad = ()

    def input(self, r, pred, rid, off, k, h, pos=None, peek=False):
        op = self.handles.get(h)
        R = self.regions[rid]
        if k <= 0:
            return
        if op is None:      # overwritten by data of no tracked origin
            pred[rid] = {off + i: 0 for i in range(k)}
            return
        p0 = r.kv["p0"]
        if pos is not None:
            base = pos
        elif p0 >= 0:
            base = p0
        else:
            base = None
        if base is None:
            if len(self.users["r%d" % h]) > 1:
                pred[rid] = {off + i: ("s", op, i) for i in range(k)}
                op.rcalls.append((r, [None] * k))
                return
            base = op.rcount
            if not peek:
                op.rcount += k
        pred[rid] = {off + i: ("c", op, base + i) for i in range(k)}

    def direct(self, r, labs, h):
        op = self.handles.get(h)
        if op is None:
            if any(labs):
                self.bad("claim", "%s: data from an untracked source carries labels" % self.show(r))
            return
        if r.kv["p0"] >= 0:
            base = r.kv["p0"]
        elif len(self.users["r%d" % h]) > 1:
            op.rcalls.append((r, list(labs)))
            for x in labs:
                self.claims.append((x, op, None, r, self.must(r)))
            return
        else:
            base = op.rcount
            op.rcount += len(labs)
        for i, x in enumerate(labs):
            self.claims.append((x, op, base + i, r, self.must(r)))

    def output(self, r, h, rid, off, k):
        R = self.regions[rid]
        self.sink(r, h, R.lab[R.g + off:R.g + off + k])

    def sink(self, r, h, labs):
        op = self.handles.get(h)
        if op is None or not labs:
            return
        k = len(labs)
        p0, p1 = r.kv["p0"], r.kv["p1"]
        if p0 >= 0:
            base = p1 - k if op.append and p1 >= k else p0
        elif len(self.users["w%d" % h]) > 1:
            op.wcalls.append((r, labs))
            return
        else:
            base = op.wcount
            op.wcount += k
        m = self.must(r)
        for i, l in enumerate(labs):
            if l:
                op.sinks[r.t].append(((base + i, l), r.b, r.e, m))

    def diffs(self, r, pred):
        """Applies the observed label changes and compares them with the predicted ones."""
        got = {}
        for rid, off, ln, lab, inc in r.L:
            g = got.setdefault(rid, {})
            for i in range(ln):
                g[off + i] = lab + (i if inc else 0)
        must = self.must(r)
        for rid, g in got.items():
            R = self.regions.get(rid)
            p = pred.get(rid, {})
            for pos, l in g.items():
                if pos not in p:
                    self.bad("outside", "%s: byte %d of buffer %d was not written by the call but its label became %d"
                             % (self.show(r), pos, rid, l))
                    break
            if R is not None:
                for pos, l in g.items():
                    if 0 <= pos + R.g < len(R.lab):
                        R.lab[pos + R.g] = l
        for rid, p in pred.items():
            R = self.regions[rid]
            for pos, want in p.items():
                l = R.lab[pos + R.g]
                if isinstance(want, tuple):
                    if want[0] == "s":
                        want[1].rcalls[-1][1][want[2]] = l
                        self.claims.append((l, want[1], None, r, must))
                    else:
                        self.claims.append((l, want[1], want[2], r, must))
                elif l != want:
                    if (rid, pos) in self.pad and l in (0, want):
                        continue
                    self.bad("mem" if r.a[0] not in ("poke", "st", "getdelim", "__getdelim") else "outside",
                             "%s: byte %d of buffer %d should carry label %d but carries %d"
                             % (self.show(r), pos, rid, want, l))
                    break
        self.pad = ()
        for rid, off, x in r.D:
            R = self.regions.get(rid)
            if R is not None:
                R.dat[R.g + off:R.g + off + len(x)] = x

    def partial(self, r):
        """An operation that had begun but not returned when the run ended: its records may or may not be there."""
        a, o = r.a, r.a[0]
        n = lambda i: int(a[i])
        if self.start_line is None or r.b < self.start_line:
            if o != "start":
                return
        if o == "start":
            return
        if o in OPENERS:
            self.openings.append(Opening(None, a[2], None, r.t, r.b, None, False))
        elif o in ("accept", "accept4", "connect"):
            self.openings.append(Opening(None, None, None, r.t, r.b, None, False))
        elif o in ("write", "send", "fwrite"):
            op, R = self.handles.get(n(1)), self.regions.get(n(2))
            if op is not None and R is not None:
                k = n(4) if o != "fwrite" else n(4) * n(5)
                for l in R.lab[R.g + n(3):R.g + n(3) + k]:
                    if l:
                        op.sinks[r.t].append((lambda v, l=l: v[1] == l, r.b, None, False))
        elif o in ("putc", "fputc"):
            op = self.handles.get(n(1))
            if op is not None:
                op.sinks[r.t].append((lambda v: True, r.b, None, False))
        elif o in ("union", "ld"):
            self.unions.append((None, r.I, r, False))
        elif o in ("branch", "rawbranch"):
            if r.I and r.I[0]:
                self.branches.append((r.I[0], False))
        elif o == "tcf":
            if r.I[0]:
                self.cf[r.t].append(((2, n(4), r.I[0]), r.b, None, False))
        elif o in ("enter", "leave"):
            self.cf[r.t].append(((0 if o == "enter" else 1, n(1)), r.b, None, False))
        elif o == "fentry":
            nm = bytes.fromhex(a[2]) if a[2] != "-" else b""
            self.names.append((nm, None, r, False))
            self.ev[r.t].append((lambda v, nm=nm: v[0] == 0 and self.fname(v[1]) == nm, r.b, None, False))
        elif o == "fexit":
            ids = {x[1] for x in self.names}
            self.ev[r.t].append((lambda v, ids=ids: v[0] == 1 and v[1] in ids, r.b, None, False))

    def fname(self, i):
        return self.fns[i] if i < len(self.fns) else None

    def show(self, r):
        return "op %d [thread %d] %s -> %s" % (r.i, r.t, " ".join(map(str, r.a)), r.ret if r.e else "?")

    # ---- trace ---------------------------------------------------------------------
    def load(self):
        td, _ = reader()
        db = self.sc.get("db") or "polytracker.tdag"
        p = os.path.join(self.dir, db)
        try:
            f = open(p, "rb")
        except OSError as e:
            raise Reject("no trace file: %s" % e)
        with f:
            try:
                self.prog = td.TDProgramTrace(f)
            except Exception as e:
                raise Reject("reader rejects the trace: %r" % e)
        self.td = self.prog.tdfile

    def closure(self, l):
        """The input bytes a label denotes, as a bit set over (source, offset)."""
        c = self.cl.get(l)
        if c is not None:
            return c
        td, _ = reader()
        stack = [l]
        while stack:
            x = stack[-1]
            if x in self.cl:
                stack.pop()
                continue
            if x == 0:
                self.cl[0] = 0
                stack.pop()
                continue
            if x >= self.count:
                raise Reject("label %d is used but only %d labels are in the trace" % (x, self.count))
            nd = self.td.decode_node(x)
            if isinstance(nd, td.TDSourceNode):
                k = (nd.idx, nd.offset)
                b = self.bit.setdefault(k, len(self.bit))
                self.cl[x] = 1 << b
                self.src[x] = k
                stack.pop()
                continue
            ch = (nd.left, nd.right) if isinstance(nd, td.TDUnionNode) else range(nd.first, nd.last + 1)
            m, todo = 0, []
            for y in ch:
                if y >= x or y <= 0:
                    raise Reject("label %d is defined from label %d" % (x, y))
                if y in self.cl:
                    m |= self.cl[y]
                else:
                    todo.append(y)
            if todo:
                stack.extend(todo)
            else:
                self.cl[x] = m
                stack.pop()
        return self.cl[l]

    def bytes_of(self, m):
        inv = {b: k for k, b in self.bit.items()}
        return sorted(inv[i] for i in range(m.bit_length()) if m >> i & 1)[:12]

    def trace(self):
        td, _ = reader()
        strict = self.kind == "finished"
        self.cl, self.bit, self.src = {}, {}, {}
        self.fns = []
        if self.kind == "killed" and self.sc.get("old") and "TRACEOPEN" not in self.run.marks and \
                not any(r.a[0] == "start" and r.e for r in self.run.recs.values()):
            self.stats["before_open"] += 1      # the earlier trace has not been touched yet
            return
        try:
            self.load()
        except Reject as e:
            if self.kind == "killed":
                self.stats["rejected"] += 1
                return
            if self.kind == "loud" and not self.openings and not self.names:
                return
            self.bad("reject", str(e))
            return
        try:
            self.count = self.td.label_count
            if self.kind == "killed":
                self.stats["accepted"] += 1
                if self.count > 1:
                    self.stats["accepted_nonempty"] += 1
            self.check_sources()
            self.check_labels()
            self.check_sinks()
            self.check_functions()
            self.check_cflog()
            if self.sc.get("views") and strict:
                self.check_views()
        except Reject as e:
            self.bad("label", str(e))
        except RecursionError:
            raise
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            if any("/polytracker/" in f.filename for f in tb):
                self.bad("reject", "reader fails on the trace: %r" % e)
            else:
                raise

    def check_sources(self):
        hdrs = self.td.fd_headers
        ops = [o for o in self.openings]
        byfd = collections.defaultdict(list)
        for o in ops:
            if o.fd is not None:
                byfd[o.fd].append(o)
        maybe = [o for o in ops if o.fd is None]
        used = collections.Counter()
        self.by_idx = {}
        for i, (path, h) in enumerate(hdrs):
            q = byfd.get(h.fd, [])
            k = used[h.fd]
            if k < len(q):
                o = q[k]
                used[h.fd] += 1
                if str(path) != str(Path(o.name)):
                    self.bad("header", "source %d (descriptor %d) is recorded as %r but was opened as %r"
                             % (i, h.fd, str(path), o.name))
                if o.size is not None:
                    want = 2 ** 64 - 1 if o.size < 0 else o.size
                    if h.size != want:
                        self.bad("header", "source %d (%s) has size %d in the trace, the file had %d"
                                 % (i, o.name, h.size, want))
                o.idx = i
                self.by_idx[i] = o
                continue
            for o in maybe:
                if o.name is None or str(Path(o.name)) == str(path):
                    o.idx = i
                    self.by_idx[i] = o
                    maybe.remove(o)
                    break
            else:
                self.bad("header", "source %d (%s, descriptor %d) corresponds to no opening" % (i, path, h.fd))
        for o in ops:
            if o.must and o.idx is None:
                if self.sc.get("srccap") and len(hdrs) >= 255:
                    continue
                self.bad("header", "opening of %s as descriptor %s is missing from the trace" % (o.name, o.fd))

    def check_labels(self):
        td, _ = reader()
        claimed = {}
        strict = self.kind == "finished"
        for l, o, off, r, must in self.claims:
            if o.idx is None and not self.sc.get("srccap"):
                if must and l:
                    self.bad("claim", "%s: label %d given for a source that is not in the trace" % (self.show(r), l))
                continue
            if l >= self.count:
                if must:
                    self.bad("claim", "%s: label %d is not in the trace (%d labels)" % (self.show(r), l, self.count))
                continue
            if o.idx is None:      # no room for this source: its bytes must stay unlabelled
                if l:
                    self.bad("claim", "%s: byte of an unrecorded source carries label %d" % (self.show(r), l))
                continue
            if l == 0:
                self.bad("claim", "%s: delivered byte at offset %s of %s carries no label" % (self.show(r), off, o.name))
                continue
            nd = self.td.decode_node(l)
            if not isinstance(nd, td.TDSourceNode):
                self.bad("claim", "%s: label %d is not an input byte in the trace: %r" % (self.show(r), l, nd))
                continue
            if nd.idx != o.idx:
                self.bad("claim", "%s: byte %s of %s is attributed to source %d (%s), not %d"
                         % (self.show(r), off, o.name, nd.idx,
                            self.td.fd_headers[nd.idx][0] if nd.idx < len(self.td.fd_headers) else "?", o.idx))
            elif off is not None and nd.offset != off:
                self.bad("stream" if r.kv.get("p0") == -1 else "claim", "%s: byte %d of %s is recorded as byte %d"
                         % (self.show(r), off, o.name, nd.offset))
            if l in claimed and claimed[l] is not r:
                self.bad("claim", "%s: label %d was already given to another byte" % (self.show(r), l))
            claimed[l] = r
            o.claimed = True
        self.shared_streams()
        # every input byte of the trace was delivered by someone
        live = set()
        for r in self.inflight:
            h = {"getc": 2}.get(r.a[0], 1)
            if r.a[0] in FD_IN + ("fread", "fread_unlocked", "fgets", "gets", "getdelim", "__getdelim", "mmap", "getc"):
                if str(r.a[h]).lstrip("-").isdigit():
                    o = self.handles.get(int(r.a[h]))
                    if o is not None and o.idx is not None:
                        live.add(o.idx)
            elif r.a[0] == "start":
                live |= {i for i, (p, hd) in enumerate(self.td.fd_headers) if hd.fd == -1}
        # an argument is only seen by the program once it looks at it
        seen_args = {int(op[3]) for op in self.sc["ops"] if op[1] == "argbuf"}
        argidx = {o.idx: k for k, o in enumerate(self.args)}
        sources, unions = set(), []
        for l in range(1, self.count):
            nd = self.td.decode_node(l)
            if isinstance(nd, td.TDSourceNode):
                sources.add(l)
                if l in claimed or nd.idx in live or (self.by_idx.get(nd.idx), nd.offset) in self.undelivered:
                    continue
                if nd.idx in argidx:
                    o = self.args[argidx[nd.idx]]
                    n = len(self.sc["args"][argidx[nd.idx]]) // 2
                    if nd.offset < n and (argidx[nd.idx] not in seen_args or self.kind == "killed" or
                                          not strict or self.arg_unseen(argidx[nd.idx])):
                        o.claimed = True
                        continue
                self.bad("srcset", "label %d denotes byte %d of source %d (%s), which no call delivered"
                         % (l, nd.offset, nd.idx,
                            self.td.fd_headers[nd.idx][0] if nd.idx < len(self.td.fd_headers) else "?"))
            else:
                unions.append(l)
        got = list(self.td.input_labels())
        gs = set(got)
        if len(gs) != len(got):
            self.bad("index", "input_labels repeats labels")
        if gs - sources:
            self.bad("index", "input_labels reports %s, which are not input bytes" % sorted(gs - sources)[:5])
        # an interrupted input call may have its labels but not yet its index entries
        missing = {l for l in sources - gs if l in claimed and self.must(claimed[l])} if not strict or self.inflight \
            or self.late() else sources - gs
        if missing:
            self.bad("index", "input_labels misses input labels %s" % sorted(missing)[:5])
        # unions
        have = 0
        operand_masks = []
        for z, xs, r, must in self.unions:
            if any(x >= self.count for x in xs) or (z is not None and z >= self.count):
                if must:
                    self.bad("closure", "%s: label not in the trace (%d labels)" % (self.show(r), self.count))
                m = 0       # part of the work of an interrupted operation may be there
                for x in xs:
                    if x < self.count:
                        m |= self.closure(x)
                operand_masks.append(m)
                continue
            m = 0
            for x in xs:
                m |= self.closure(x)
            operand_masks.append(m)
            if z is None:
                continue
            c = self.closure(z)
            have += 1
            if c != m:
                lost, extra = m & ~c, c & ~m
                self.bad("closure", "%s: combining %s gave label %d; lost %s, added %s"
                         % (self.show(r), xs, z, self.bytes_of(lost), self.bytes_of(extra)))
        for l in unions:
            c = self.closure(l)
            if not any(c & ~m == 0 for m in operand_masks):
                self.bad("closure", "label %d denotes %s, which no operation combined" % (l, self.bytes_of(c)))
                break
        self.stats["labels"] += self.count
        self.stats["unions_checked"] += have
        # control-flow marks
        must_m, may_m = set(), set()

        def reach(roots, seen):
            st = [x for x in roots if x < self.count]
            while st:
                x = st.pop()
                if x in seen or x == 0:
                    continue
                seen.add(x)
                nd = self.td.decode_node(x)
                if isinstance(nd, td.TDUnionNode):
                    st += [nd.left, nd.right]
                elif isinstance(nd, td.TDRangeNode):
                    st += [y for y in range(nd.first, nd.last + 1) if y not in seen]
            return seen

        for l, m in self.branches:
            if l >= self.count and m:
                self.bad("marks", "branch on label %d, which is not in the trace" % l)
        reach([l for l, m in self.branches if m], must_m)
        # A label made after the trace was finished is not in it, but its operands may be.
        late = collections.defaultdict(list)
        for z, xs, r, m in self.unions:
            if z is not None and z >= self.count:
                late[z] += xs or ()
        may, seen = [l for l, m in self.branches], set()
        while may:
            l = may.pop()
            if l < self.count:
                reach([l], may_m)
            elif l not in seen:
                seen.add(l)
                may += late[l]
                m = 0       # and so may labels of parts of it
                for x in late[l]:
                    m |= self.closure(x) if x < self.count else 0
                may += [u for u in unions if self.closure(u) & ~m == 0]
        marked = {l for l in range(1, self.count) if self.td.decode_node(l).affects_control_flow}
        if marked - may_m:
            self.bad("marks", "labels %s are marked but belong to no branch" % sorted(marked - may_m)[:6])
        if must_m - marked:
            self.bad("marks", "labels %s influenced a branch but are not marked" % sorted(must_m - marked)[:6])
        self.stats["marked"] += len(marked)
        if strict:
            got = {(b.source.path, b.offset) for b in self.prog.inputs_affecting_control_flow()}
            pm = {(str(self.td.fd_headers[k[0]][0]), k[1]) for k in (self.src.get(l) or self.srckey(l)
                                                                      for l in may_m if l in sources)}
            pn = {(str(self.td.fd_headers[k[0]][0]), k[1]) for k in (self.src.get(l) or self.srckey(l)
                                                                      for l in must_m if l in gs)}
            if got - pm or pn - got:
                self.bad("marks", "inputs affecting control flow: %s reported, %s missing"
                         % (sorted(got - pm)[:5], sorted(pn - got)[:5]))

    def srckey(self, l):
        nd = self.td.decode_node(l)
        return (nd.idx, nd.offset)

    def arg_unseen(self, k):
        return not any(r.a[0] == "argbuf" and int(r.a[2]) == k for r in self.run.order)

    def late(self):
        return any(r.e is not None and not self.must(r) for r in self.run.recs.values())

    def shared_streams(self):
        for o in self.openings:
            if not o.rcalls:
                continue
            iv = []
            for r, labs in o.rcalls:
                offs = []
                for l in labs:
                    if not l or l >= self.count:
                        offs = None
                        break
                    offs.append(self.srckey(l)[1])
                if offs is None:
                    continue
                if offs != list(range(offs[0], offs[0] + len(offs))):
                    self.bad("stream", "%s: bytes of one call are numbered %s" % (self.show(r), offs[:8]))
                iv.append((offs[0], offs[0] + len(offs), r))
            self.tile(iv, o, "read")

    def tile(self, iv, o, what):
        iv.sort(key=lambda x: x[0])
        exact = self.kind == "finished" and not self.inflight and not self.late()
        at = 0
        for a, b, r in iv:
            if a < at or (exact and a != at):
                self.bad("stream", "%s stream %s: %s starts at %d, the previous call ended at %d"
                         % (what, o.name, self.show(r), a, at))
                return
            at = b
        for (a, b, r), (c, d, s) in zip(iv, iv[1:]):
            if s.e < r.b:
                self.bad("stream", "%s stream %s: %s is numbered after the later %s" % (what, o.name, self.show(s), self.show(r)))

    def check_sinks(self):
        per = collections.defaultdict(list)
        nh = len(self.td.fd_headers)
        total = 0
        for s in self.td.sinks:
            if s.fdidx >= nh:
                self.bad("sink", "sink record %r names a source that is not in the trace" % s)
                continue
            if s.label >= self.count or s.label == 0:
                self.bad("sink", "sink record %r has a label that is not in the trace" % s)
                continue
            per[s.fdidx].append((s.offset, s.label))
            total += 1
        self.sinks = per
        self.stats["sinks"] += total
        for o in self.openings:
            if o.wcalls:
                self.shared_sink(o, per.get(o.idx, []))
                per.pop(o.idx, None)
                continue
            seq = per.pop(o.idx, []) if o.idx is not None else []
            exp = list(o.sinks.values())
            if o.idx is None and self.sc.get("srccap"):
                continue
            ok, k = interleaves(seq, exp)
            if not ok:
                flat = [x[0] for t in exp for x in t]
                flat = [x for x in flat if not callable(x)]
                self.bad("sink", "sink %s: recorded %s%s, expected %s%s (mismatch at %d)"
                         % (o.name, seq[max(0, k - 2):k + 6], "" if len(seq) < 8 else "...(%d)" % len(seq),
                            flat[max(0, k - 2):k + 6], "" if len(flat) < 8 else "...(%d)" % len(flat), k))
        for i, seq in per.items():
            if seq:
                self.bad("sink", "sink records %s for source %d, to which nothing was written" % (seq[:4], i))

    def shared_sink(self, o, seq):
        pos = collections.defaultdict(list)
        for off, l in seq:
            pos[l].append(off)
        iv, n = [], 0
        for r, labs in o.wcalls:
            offs = []
            for l in labs:
                p = pos.get(l)
                if not l or not p:
                    offs = None
                    break
                offs.append(p[0])
            n += len(labs)
            if offs is None:
                if self.must(r):
                    self.bad("sink", "%s: records are missing from the sink log" % self.show(r))
                continue
            if offs != list(range(offs[0], offs[0] + len(offs))):
                self.bad("stream", "%s: bytes of one write are numbered %s" % (self.show(r), offs[:8]))
            iv.append((offs[0], offs[0] + len(offs), r))
        if len(seq) > n:
            self.bad("sink", "%d sink records on %s, only %d bytes were written" % (len(seq), o.name, n))
        self.tile(iv, o, "write")

    def check_functions(self):
        td, _ = reader()
        self.fns = [n.encode("utf-8", "surrogateescape") for n, _ in self.td.fn_headers]
        names = collections.Counter(self.fns)
        for n, c in names.items():
            if c > 1:
                self.bad("fn", "function %r has %d ids" % (n[:40], c))
        known = {}
        for n, i, r, must in self.names:
            if i is None:
                continue
            if n in known and known[n] != i:
                self.bad("fn", "%s: %r was given id %d before and %d now" % (self.show(r), n[:40], known[n], i))
            known[n] = i
            if i < len(self.fns):
                if self.fns[i] != n:
                    self.bad("fn", "%s: id %d is %r in the trace, the function entered was %r" % (self.show(r), i, self.fns[i][:40], n[:40]))
            elif must:
                self.bad("fn", "%s: id %d is not in the trace" % (self.show(r), i))
        allowed = {n for n, _, _, _ in self.names}
        for n in self.fns:
            if n not in allowed:
                self.bad("fn", "function %r was never entered" % n[:40])
        seq = [(e.kind, e.fnidx) for e in self.td.events]
        for e in seq:
            if e[1] >= len(self.fns):
                self.bad("event", "event for function id %d, which is not in the trace" % e[1])
                return
        self.stats["events"] += len(seq)
        ok, k = interleaves(seq, list(self.ev.values()))
        if not ok:
            self.bad("event", "function events %s... (of %d) do not match what the threads did, mismatch at %d"
                     % (seq[max(0, k - 2):k + 5], len(seq), k))

    def check_cflog(self):
        td, _ = reader()
        sec = self.td.sections_by_type[td.TDControlFlowLogSection]
        try:
            seq = rawcf(sec.section)
        except Reject as e:
            self.bad("cflog", str(e))
            return
        self.stats["cflog"] += len(seq)
        for e in seq:
            if e[0] > 2:
                self.bad("cflog", "unknown control-flow record %r" % (e,))
                return
            if e[0] == 2 and e[2] >= self.count:
                self.bad("cflog", "control-flow record %r has a label that is not in the trace" % (e,))
                return
        ok, k = interleaves(seq, list(self.cf.values()))
        if not ok:
            self.bad("cflog", "control-flow log %s (of %d) does not match what the threads did, mismatch at %d"
                     % (seq[max(0, k - 2):k + 5], len(seq), k))
            return
        if len(self.cf) <= 1 and self.kind == "finished" and self.sc.get("stack", True):
            self.callstack(sec, seq)

    def callstack(self, sec, seq):
        td, _ = reader()
        want, st = [], []
        for e in seq:
            if e[0] == 0:
                st.append(e[1])
                want.append(("E", tuple(st)))
                continue
            if e[1] not in st:
                return      # not a call sequence of a program
            while st[-1] != e[1]:
                want.append(("L", tuple(st)))
                st.pop()
            if e[0] == 1:
                want.append(("L", tuple(st)))
                st.pop()
            else:
                want.append(("T", tuple(st), e[2]))
        while st:
            want.append(("L", tuple(st)))
            st.pop()
        got = []
        for e in sec:
            if isinstance(e, td.TDEnterFunctionEvent):
                got.append(("E", tuple(e.callstack)))
            elif isinstance(e, td.TDLeaveFunctionEvent):
                got.append(("L", tuple(e.callstack)))
            else:
                got.append(("T", tuple(e.callstack), e.label))
        if got != want:
            k = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            self.bad("callstack", "call stack reconstruction differs at %d: %s instead of %s" % (k, got[k:k + 2], want[k:k + 2]))
            return
        ids = sorted({e[1] for e in seq})
        if ids and ids[-1] < 5000:
            names = ["f%d" % i for i in range(ids[-1] + 1)]
            sec.function_id_mapping(names)
            g2 = [tuple(e.callstack) for e in sec]
            if g2 != [tuple("f%d" % x for x in w[1]) for w in want]:
                self.bad("callstack", "call stacks with function names differ from those with ids")
            sec.function_id_mapping(None)

    # ---- analysis views ----------------------------------------------------------------
    def check_views(self):
        td, mp = reader()
        path = {i: p for i, (p, _) in enumerate(self.td.fd_headers)}
        inv = {}
        def ks(m):
            if m not in inv:
                b2k = {b: k for k, b in self.bit.items()}
                inv[m] = [b2k[i] for i in range(m.bit_length()) if m >> i & 1]
            return inv[m]
        want = collections.defaultdict(set)
        touched = collections.defaultdict(set)
        flow = []
        for o in self.openings:
            if o.idx is None:
                continue
            recs = [x[0] for t in o.sinks.values() for x in t]
            if o.wcalls:
                recs = [(s.offset, s.label) for s in self.td.sinks if s.fdidx == o.idx]
            for off, l in recs:
                for i, so in ks(self.closure(l)):
                    want[(path[i], so)].add((path[o.idx], off))
                    touched[i].add(so)
        for l, _ in self.branches:
            for i, so in ks(self.closure(l)):
                touched[i].add(so)
        got = {k: v for k, v in mp.InputOutputMapping(self.td).mapping().items() if v}
        if got != want:
            ks_ = sorted(set(got) ^ set(want)) or [k for k in got if got[k] != want[k]]
            k = ks_[0]
            self.bad("view", "mapping of input byte %s is %s, should be %s" % (k, sorted(got.get(k, ()))[:4], sorted(want.get(k, ()))[:4]))
        length = {}
        cut = {}
        deliver = {}
        for l in range(1, self.count):
            nd = self.td.decode_node(l)
            if isinstance(nd, td.TDSourceNode):
                deliver[nd.idx] = max(deliver.get(nd.idx, 0), nd.offset + 1)
        for i, n in deliver.items():
            h = self.td.fd_headers[i][1]
            n = max(n, 0 if h.invalid_size() else h.size)
            length[path[i]] = max(length.get(path[i], 0), n)
        bypath = collections.defaultdict(set)
        for i, s in touched.items():
            bypath[path[i]] |= s
        wantc = {}
        for p, n in length.items():
            t, out, s = bypath[p], [], None
            for i in range(n + 1):
                if i < n and i not in t:
                    s = i if s is None else s
                elif s is not None:
                    out.append((s, i))
                    s = None
            wantc[p] = out
        gotc = {k: [tuple(x) for x in v] for k, v in mp.InputOutputMapping(self.td).file_cavities().items()}
        if gotc != wantc:
            p = next(p for p in list(gotc) + list(wantc) if gotc.get(p) != wantc.get(p))
            self.bad("view", "cavities of %s are %s, should be %s" % (p, gotc.get(p), wantc.get(p)))
        gi = sorted((i.uid, i.path, i.size) for i in self.prog.inputs)
        wi = sorted((h.fd, str(p), h.size) for i, (p, h) in enumerate(self.td.fd_headers) if i in deliver)
        if gi != wi:
            self.bad("view", "inputs are %s, should be %s" % (gi, wi))
        go = [(x.source.path, x.offset, x.label) for x in self.prog.output_taints]
        wo = [(str(path[s.fdidx]), s.offset, s.label) for s in self.td.sinks]
        if go != wo:
            self.bad("view", "output taints %s differ from the sink log %s" % (go[:3], wo[:3]))
        # the forest gives each label exactly its input bytes
        memo = {}
        f = self.prog.taint_forest
        def leaves(l):
            st = [l]
            while st:
                x = st[-1]
                if x in memo:
                    st.pop()
                    continue
                nd = f.get_node(x)
                if nd.parent_labels is None:
                    if x == 0:
                        memo[x] = 0
                    else:
                        k = (nd.source.path, self.prog.file_offset(nd).offset)
                        memo[x] = 1 << fbit.setdefault(k, len(fbit))
                    st.pop()
                    continue
                a, b = nd.parent_one.label, nd.parent_two.label
                todo = [y for y in (a, b) if y not in memo]
                if todo:
                    st += todo
                    if len(st) > 100000:
                        raise Reject("taint forest does not end")
                else:
                    memo[x] = memo[a] | memo[b]
                    st.pop()
            return memo[l]
        fbit = {}
        for l in range(1, self.count):
            got = leaves(l)
            w = 0
            for i, so in ks(self.closure(l)):
                k = (str(path[i]), so)
                w |= 1 << fbit.setdefault(k, len(fbit))
            if got != w:
                self.bad("view", "taint forest gives label %d other input bytes than the trace" % l)
                break
            if f.get_node(l).affected_control_flow != self.td.decode_node(l).affects_control_flow:
                self.bad("view", "taint forest and trace disagree on the control-flow mark of label %d" % l)
                break
        n = [x.label for x in f.nodes()]
        if [x for x in n if x >= 0] != list(range(self.count - 1, -1, -1)):
            self.bad("view", "taint forest does not list every label once, in decreasing order")
        if len(set(n)) != len(n):
            self.bad("view", "taint forest lists labels twice")
        self.stats["views"] += 1

    def go(self):
        self.xline = None
        self.xthread = 0
        self.kind = self.outcome()
        if self.kind is None:
            return self.v
        self.history()
        self.trace()
        return self.v


def judge(sc, run, workdir):
    j = Judge(sc, run, workdir)
    v = j.go()
    return v, j
