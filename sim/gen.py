"""Seeded scenario generators, one profile per property."""
import collections, random

O_RDONLY, O_WRONLY, O_RDWR, O_CREAT, O_EXCL, O_TRUNC, O_APPEND, O_NONBLOCK = 0, 1, 2, 0o100, 0o200, 0o1000, 0o2000, 0o4000
EINTR, EIO, EAGAIN, ENOMEM, EACCES, EMFILE, ENOSPC, ENOTCONN = 4, 5, 11, 12, 13, 24, 28, 107
GETC = ("fgetc", "fgetc_unlocked", "_IO_getc", "getc", "getc_unlocked")

# relative weight of each kind of operation, scaled per profile and per run
BASE = {
    "rd": 14, "frd": 8, "fgets": 4, "getdelim": 4, "getc": 6, "seek": 3, "mmap": 2, "munmap": 1, "wr": 10, "fwr": 6,
    "putc": 4, "open": 5, "close": 3, "union": 12, "ld": 8, "st": 8, "branch": 5, "tcf": 4, "fn": 5, "ev": 5,
    "mem": 8, "str": 5, "heap": 4, "feed": 8, "drain": 2, "share": 3, "sock": 2, "poke": 2, "stdio": 4, "untracked": 1,
}
READERS = ("rd", "frd", "fgets", "getdelim", "getc")


def W(**kw):
    """A weight table: only the kinds named."""
    return {k: BASE[k] * v for k, v in kw.items()}


class Th:
    """Builds one thread's operation list."""

    def __init__(self, g, t):
        self.g, self.t = g, t
        self.ops = []
        self.nh = self.nr = self.nreg = self.nl = self.nf = 0
        self.fd_in, self.f_in, self.fd_out, self.f_out = [], [], [], []     # (handle, info)
        self.regions = []       # dicts: id, n, g
        self.regs = []
        self.lines = []
        self.cstack = []        # control-flow call stack
        self.fregs = []         # fentry registers
        self.maps = []
        self.npeer = 0

    @property
    def r(self):
        return self.g.r

    def o(self, *a):
        self.ops.append([self.t] + list(a))

    def hid(self):
        self.nh += 1
        return self.t * 1000 + self.nh

    def rid(self):
        self.nr += 1
        return self.t * 1000 + self.nr

    def peer_id(self):
        self.npeer += 1
        return 1000 + self.t * 100 + self.npeer

    # ---- regions and labels ---------------------------------------------------------
    def buf(self, n=None):
        if n is None:
            n = self.r.choice((8, 16, 24, 40, 64, 64, 100, 300))
        i = self.rid()
        self.o("buf", i, n)
        R = {"id": i, "n": n, "g": True, "w": True}
        self.regions.append(R)
        return R

    def region(self, minimum=1, writable=True):
        c = [R for R in self.regions if R["n"] >= minimum and (R["w"] or not writable)]
        if not c or (len(c) < 3 and self.r.random() < .3):
            return self.buf(max(minimum, self.r.choice((8, 16, 40, 64, 200))))
        return self.r.choice(c)

    def span(self, R, m=None):
        n = R["n"]
        k = self.r.randint(1, min(n, m or n))
        if self.r.random() < .4:
            k = min(k, 4)
        return self.r.randint(0, n - k), k

    def lab(self):
        """A label operand."""
        x = self.r.random()
        if self.regs and x < .6:
            return "#%d" % self.r.choice(self.regs[-12:])
        if self.regions and x < .93:
            R = self.r.choice(self.regions)
            return "@%d:%d" % (R["id"], self.r.randrange(R["n"]))
        if self.g.slots and x < .97:
            return "$%d" % self.r.choice(self.g.slots)
        return "0"

    def reg(self):
        self.nreg = (self.nreg + 1) % 40
        if self.nreg not in self.regs:
            self.regs.append(self.nreg)
        return self.nreg

    # ---- files ------------------------------------------------------------------------
    def open_in(self, stream=None, path=None):
        g, r = self.g, self.r
        h = self.hid()
        if stream is None:
            stream = r.random() < .45
        p = path or r.choice(g.inputs)
        if stream:
            f = r.choice(("fopen", "fopen", "fopen64"))
            bs = [] if r.random() < .5 else ["x", r.choice((1, 7, 16, 64, 4096))]
            self.o(f, h, p, r.choice(("r", "rb", "r+")) if g.writable_inputs else "r", *bs)
            self.f_in.append((h, {"seek": True}))
        else:
            f = r.choice(("open", "open", "open64", "openat"))
            if g.subdir and path is None and r.random() < .15:
                self.o("openat", h, r.choice(("in0", "in0", "./in0", "in9", "../in0")), O_RDONLY, 0, "sub")
            else:
                self.o(f, h, p, O_RDONLY, 0)
            self.fd_in.append((h, {"seek": True}))
        return h

    def open_out(self, stream=None, mode=None):
        g, r = self.g, self.r
        h = self.hid()
        if stream is None:
            stream = r.random() < .45
        k = len(g.outnames[self.t])
        if k and r.random() < .25:
            p = r.choice(g.outnames[self.t])
        else:
            p = "o%d_%d" % (self.t, k)
            g.outnames[self.t].append(p)
        if stream:
            m = mode or r.choice(("w", "w", "wb", "a", "w+") if g.append else ("w", "wb"))
            bs = [] if r.random() < .5 else ["x", r.choice((1, 7, 16, 64, 4096))]
            self.o(r.choice(("fopen", "fopen64")), h, p, m, *bs)
            self.f_out.append((h, {"seek": True}))
        else:
            fl = O_WRONLY | O_CREAT
            if r.random() < .3:
                fl |= O_TRUNC
            if g.append and r.random() < .25:
                fl |= O_APPEND
            rw = r.random() < .15 and not fl & O_APPEND
            if rw:
                fl = fl & ~O_WRONLY | O_RDWR
            self.o(r.choice(("open", "open", "open64", "openat")), h, p, fl, r.choice((0o644, 0o600, 0o755, 0o640)))
            self.fd_out.append((h, {"seek": True}))
            if rw:      # not to be mapped: it might get truncated while it is
                self.fd_in.append((h, {"seek": True, "rw": True}))
        return h

    def fifo(self, way, stream=None):
        """A FIFO whose other end the simulator holds."""
        g, r = self.g, self.r
        p = "q%d_%d" % (self.t, len(g.fifos))
        g.fifos.append(p)
        g.files.append({"p": p, "fifo": 1})
        pe, h = self.peer_id(), self.hid()
        if stream is None:
            stream = r.random() < .4
        small = [4096] if r.random() < .3 else []
        if way == "in":
            self.o("peer", pe, p, "w")
            if stream:
                self.o("fopen", h, p, "r", "nb")
                self.f_in.append((h, {"peer": pe}))
            else:
                self.o("open", h, p, O_RDONLY | O_NONBLOCK, 0)
                self.fd_in.append((h, {"peer": pe}))
            g.peers_in[self.t].append(pe)
        else:
            self.o("peer", pe, p, "r", *small)
            if stream:
                self.o("fopen", h, p, "w", "nb")
                self.f_out.append((h, {"peer": pe}))
            else:
                self.o("open", h, p, O_WRONLY | O_NONBLOCK, 0)
                self.fd_out.append((h, {"peer": pe}))
            g.peers_out[self.t].append(pe)
        return h

    def sock(self):
        g, r = self.g, self.r
        h, pe = self.hid(), self.peer_id()
        fam = 2 if r.random() < .8 else 1
        fl = []
        if r.random() < g.pf:
            fl = [r.choice(("!getpeername:err:%d" % ENOTCONN, "!getsockname:err:%d" % EIO))] if g.sockname_faults else []
        if r.random() < .5:
            if r.random() < g.pf:
                fl.append("!accept:err:%d" % r.choice((EMFILE, EINTR, EAGAIN)))
            self.o(r.choice(("accept", "accept4")), h, pe, fam, *fl)
        else:
            self.o("socket", h, pe, fam)
            if r.random() < .9:
                if r.random() < g.pf:
                    self.o("connect", h, "!connect:err:%d" % r.choice((EINTR, 111)))
                self.o("connect", h, *fl)
        i = {"peer": pe, "sock": True}
        self.fd_in.append((h, i))
        self.fd_out.append((h, i))
        g.peers_in[self.t].append(pe)
        g.peers_out[self.t].append(pe)
        return h

    def stdio(self):
        g, r = self.g, self.r
        if self.t != g.std_owner:
            return
        h = self.hid()
        k = r.choice((0, 0, 1, 1, 2))
        if (g.std[k] or "null").split()[0] in ("closed",):
            return
        f = r.random() < .6 if k == 0 or g.std_f else False
        if k in g.std_kind and g.std_kind[k] != f:
            f = g.std_kind[k]       # do not mix buffered and raw access to one descriptor
        g.std_kind[k] = f
        self.o("stdh", h, k, "f" if f else "d")
        i = {"seek": False, "std": k}
        if k == 0:
            (self.f_in if f else self.fd_in).append((h, i))
            if (g.std[0] or "").startswith("fifo"):
                i["peer"] = 100
                if 100 not in g.peers_in[self.t]:
                    g.peers_in[self.t].append(100)
        else:
            (self.f_out if f else self.fd_out).append((h, i))

    def fault(self, *names):
        r = self.r
        if r.random() >= self.g.pf:
            return []
        n = r.choice(names)
        if n in ("read", "pread", "recv", "recvfrom", "write", "send"):
            if r.random() < .6:
                return ["!%s:short:%d" % (n, r.choice((0, 1, 1, 2, 3, 7)) if n not in ("write", "send") else r.choice((1, 1, 2, 3, 7)))]
            return ["!%s:err:%d" % (n, r.choice((EINTR, EIO, EAGAIN) + ((ENOSPC,) if n in ("write", "send") else ())))]
        return ["!%s:err:%d" % (n, r.choice((EMFILE, EACCES, EIO, ENOMEM)))]

    # ---- one operation of a kind --------------------------------------------------------
    def step(self, k):
        getattr(self, "k_" + k)()

    def k_rd(self):
        r, g = self.r, self.g
        if not self.fd_in or (len(self.fd_in) < 3 and r.random() < .12):
            if r.random() < g.p_fifo:
                self.fifo("in", False)
                self.k_feed()
            else:
                self.open_in(False)
        h, i = r.choice(self.fd_in)
        R = self.region()
        off, n = self.span(R)
        if i.get("sock"):
            o = r.choice(("read", "recv", "recv", "recvfrom"))
            fl = 0
            if o != "read" and g.msg_flags and r.random() < .2:
                fl = r.choice((2, 2, 0x40))
            a = [o, h, R["id"], off, n] + ([fl] if o != "read" else [])
            self.o(*a, *self.fault(o))
        elif i.get("seek") and r.random() < .3:
            o = r.choice(("pread", "pread64"))
            pos = r.choice((0, 1, r.randint(0, 80), r.randint(0, 400), r.randint(0, 1 << 20) if r.random() < .1 else 5))
            self.o(o, h, R["id"], off, n, pos, *self.fault("pread"))
        else:
            self.o("read", h, R["id"], off, n, *self.fault("read"))

    def f_source(self):
        r, g = self.r, self.g
        if not self.f_in or (len(self.f_in) < 3 and r.random() < .15):
            if r.random() < g.p_fifo:
                self.fifo("in", True)
                self.k_feed()
            else:
                self.open_in(True)
        return r.choice(self.f_in)

    def k_frd(self):
        h, i = self.f_source()
        r = self.r
        R = self.region()
        off, n = self.span(R)
        sz = r.choice((1, 1, 1, 2, 3, 4, 8)) if i.get("seek") else 1
        cnt = max(1, n // sz) if sz <= n else 0
        if r.random() < .03:
            cnt = 0
        self.o(r.choice(("fread", "fread", "fread_unlocked")), h, R["id"], off, sz, cnt)

    def k_fgets(self):
        h, i = self.f_source()
        R = self.region(2)
        off, n = self.span(R)
        if n < 2 and self.r.random() < .9:
            off, n = 0, min(R["n"], self.r.randint(2, 40))
        self.o("fgets", h, R["id"], off, n)

    def k_getdelim(self):
        h, i = self.f_source()
        if i.get("std") == 0 and self.r.random() < .5:
            if i.get("peer"):       # a whole line is there
                self.o("feed", i["peer"], (self.g.data(self.r.choice((0, 3, 12, 30)), self.g.nulstream) + b"\n").hex())
            self.o("gets", h, self.region(8)["id"])
            return
        R = self.region(8)
        ln = self.t * 10 + self.r.randint(0, 1)
        self.o(self.r.choice(("getdelim", "__getdelim")), h, ln, self.r.choice((10, 10, 10, 32, 97, 0)), R["id"])

    def k_getc(self):
        h, i = self.f_source()
        for _ in range(self.r.choice((1, 1, 2, 5))):
            v = self.r.choice(GETC)
            if i.get("std") == 0 and self.r.random() < .5:
                v = self.r.choice(("getchar", "getchar_unlocked"))
            self.o("getc", v, h, self.reg())

    def k_seek(self):
        r = self.r
        c = [x for x in self.fd_in + self.f_in + (self.fd_out + self.f_out if r.random() < .4 else []) if x[1].get("seek")]
        if not c:
            return
        h, i = r.choice(c)
        w = r.choice((0, 0, 0, 1, 2))
        self.o("seek", h, r.randint(0, 120) if w == 0 else r.randint(-10, 10) if w == 1 else r.choice((0, -1, -5, 3)), w)

    def k_mmap(self):
        r = self.r
        n = r.choice((1, 10, 64, 100, 200, 500, 4096, 5000)) if r.random() < .85 else 9000
        R = self.rid()
        if r.random() < .2:
            self.o("mmap", "anon", R, n, 3, 0x22, 0)
        else:
            c = [x for x in self.fd_in if x[1].get("seek") and not x[1].get("rw")]
            if not c:
                self.open_in(False)
                c = self.fd_in[-1:]
            fl = r.choice((1, 2, 2))
            if self.g.anonfd and r.random() < .08:
                fl = 0x22
            off = 4096 if r.random() < .1 else 0
            if r.random() < .03:
                off = 100       # not a page multiple: must fail
            pr = 1 if fl == 1 else r.choice((1, 3))
            self.o("mmap", r.choice(c)[0], R, n, pr, fl, off, *self.fault("mmap"))
        self.maps.append((R, n))
        self.regions.append({"id": R, "n": min(n, 64), "g": False, "w": False})

    def k_munmap(self):
        if not self.maps:
            return
        r = self.r
        k = r.randrange(len(self.maps))
        R, n = self.maps[k]
        if r.random() < .25:
            self.o("munmap", R, n, 1)       # misaligned: must fail and change nothing
            return
        if self.fault("munmap"):
            self.o("munmap", R, n, 0, "!munmap:err:%d" % ENOMEM)
            return
        self.o("munmap", R, n, 0)
        self.maps.pop(k)
        self.regions = [x for x in self.regions if x["id"] != R]

    def k_wr(self):
        r, g = self.r, self.g
        if not self.fd_out or (len(self.fd_out) < 3 and r.random() < .15):
            if r.random() < g.p_fifo:
                self.fifo("out", False)
            else:
                self.open_out(False)
        h, i = r.choice(self.fd_out)
        R = self.region(writable=False)
        off, n = self.span(R)
        o = "send" if i.get("sock") and r.random() < .6 else "write"
        self.o(o, h, R["id"], off, n, *self.fault(o))

    def f_sink(self):
        r, g = self.r, self.g
        if not self.f_out or (len(self.f_out) < 3 and r.random() < .15):
            if r.random() < g.p_fifo:
                self.fifo("out", True)
            else:
                self.open_out(True)
        return r.choice(self.f_out)

    def k_fwr(self):
        h, i = self.f_sink()
        r = self.r
        R = self.region(writable=False)
        off, n = self.span(R)
        sz = r.choice((1, 1, 1, 2, 4))
        self.o("fwrite", h, R["id"], off, sz, n // sz)
        if r.random() < .25:
            self.o("fflush", h)

    def k_putc(self):
        h, i = self.f_sink()
        self.o(self.r.choice(("putc", "fputc")), h, self.r.choice((0, 10, 65, 97, 255, 128, 321 if self.g.widech else 65, -56 if self.g.widech else 66)), self.lab())

    def k_open(self):
        r, g = self.r, self.g
        x = r.random()
        if x < .08:
            self.o("open", self.hid(), "nosuch", O_RDONLY, 0)
        elif x < .12:
            self.o("fopen", self.hid(), "nosuch", "r")
        elif x < .16 and g.pf:
            self.o("open", self.hid(), r.choice(g.inputs), O_RDONLY, 0, "!open:err:%d" % r.choice((EMFILE, EINTR)))
        elif x < .65:
            self.open_in()
        else:
            self.open_out()

    def k_close(self):
        r = self.r
        ls = [x for x in (self.fd_in, self.f_in, self.fd_out, self.f_out) if x]
        if not ls:
            if r.random() < .3:
                self.o("badclose", r.choice((333, 290, -1)))
            return
        l = r.choice(ls)
        h, i = l[r.randrange(len(l))]
        if i.get("std") is not None and not self.g.close_std:
            return
        if "shared" in i:
            return
        self.o("fclose" if l is self.f_in or l is self.f_out else "close", h,
               *(["!close:err:%d" % EIO] if (l is self.fd_in or l is self.fd_out) and self.g.close_faults and r.random() < self.g.pf else []))
        for x in (self.fd_in, self.f_in, self.fd_out, self.f_out):
            x[:] = [y for y in x if y[0] != h]

    def k_union(self):
        r = self.r
        a, b = self.lab(), self.lab()
        if r.random() < self.g.p_range and self.regions:      # neighbouring bytes: ranges
            R = r.choice(self.regions)
            if R["n"] > 2:
                k = r.randrange(R["n"] - 1)
                a, b = "@%d:%d" % (R["id"], k), "@%d:%d" % (R["id"], k + 1)
        if r.random() < .06:
            b = a
        if r.random() < .5:
            a, b = b, a
        self.o("union", self.reg(), a, b)

    def k_ld(self):
        R = self.region(writable=False)
        off, n = self.span(R, self.r.choice((2, 4, 8, 8, 16, 64)))
        self.o("ld", self.reg(), R["id"], off, n)

    def k_st(self):
        R = self.region()
        off, n = self.span(R, 8)
        self.o("st", R["id"], off, n, self.lab())

    def k_poke(self):
        R = self.region()
        off, n = self.span(R, 12)
        self.o("poke", R["id"], off, self.g.data(n, self.g.nul).hex())

    def k_branch(self):
        self.o(self.r.choice(("branch", "rawbranch")), self.lab(), self.r.choice((0, 1, 77)))

    def k_tcf(self):
        g, r = self.g, self.r
        fid = self.cstack[-1] if self.cstack and g.wellformed else g.fid()
        self.o("tcf", self.reg(), self.lab(), r.choice((0, 1, 2 ** 63, 2 ** 64 - 1, r.getrandbits(64))), fid)

    def k_fn(self):
        g, r = self.g, self.r
        if r.random() < .55 or not self.cstack:
            if len(self.cstack) < 12:
                f = g.fid()
                self.cstack.append(f)
                self.o("enter", f)
        elif g.wellformed:
            k = len(self.cstack) - 1
            while k > 0 and g.missing_exits and r.random() < .2:
                k -= 1          # frames above are left without an exit record (longjmp, throw)
            self.o("leave", self.cstack[k])
            # the log names functions, not activations: the innermost one of that name is closed
            del self.cstack[len(self.cstack) - 1 - self.cstack[::-1].index(self.cstack[k]):]
        else:
            self.o("leave", self.cstack.pop())

    def k_ev(self):
        g, r = self.g, self.r
        if r.random() < .6 or not self.fregs:
            self.nf = (self.nf + 1) % 50
            if self.nf not in self.fregs:
                self.fregs.append(self.nf)
            n = r.choice(g.names)
            self.o("fentry", self.nf, n.hex() or "-", r.choice(("lit", "tmp")) if g.tmpnames else "lit")
        else:
            self.o("fexit", r.choice(self.fregs))

    def k_mem(self):
        r = self.r
        A, B = self.region(), self.region(writable=False)
        n = r.randint(0, min(A["n"], B["n"]))
        od, os_ = r.randint(0, A["n"] - n), r.randint(0, B["n"] - n)
        x = r.random()
        if x < .4 and (A is not B or od + n <= os_ or os_ + n <= od):
            self.o("memcpy", A["id"], od, B["id"], os_, n)
        elif x < .75:
            self.o("memmove", A["id"], od, B["id"], os_, n)
        else:
            off, n = self.span(A)
            self.o("memset", A["id"], off, n, r.choice((0, 65, 255)), self.lab() if r.random() < .7 else 0)

    def k_str(self):
        """Strings: make a terminated string in a region, then use it."""
        r = self.r
        A, B = self.region(16), self.region(16)
        if A is B:
            B = self.buf(32)
        x = r.random()
        ka = r.randint(0, A["n"] // 2)
        kb = r.randint(0, min(B["n"] - 1, A["n"] - ka - 1, 30))
        self.o("poke", A["id"], ka, "00")
        self.o("poke", B["id"], kb, "00")
        o = r.choice(self.g.strops)
        if o == "strdup":
            R = self.rid()
            self.o("strdup", R, B["id"], 0)
            return
        if o == "strncpy":
            self.o(o, A["id"], r.randint(0, A["n"] // 2), B["id"], 0, r.randint(0, A["n"] // 2))
        else:
            self.o(o, A["id"], 0, B["id"], 0, 0)

    def k_heap(self):
        r = self.r
        hs = [R for R in self.regions if R.get("heap")]
        x = r.random()
        if not hs or x < .3:
            n = r.choice((1, 8, 24, 40, 100))
            R = {"id": self.rid(), "n": n, "g": False, "w": True, "heap": True}
            fl = ["!malloc:err:%d" % ENOMEM] if r.random() < self.g.pf * .3 else []
            if fl:
                self.o("malloc", R["id"], n, *fl)
                return
            self.o(r.choice(("malloc", "calloc")), R["id"], n)
            self.regions.append(R)
        elif x < .8:
            R = r.choice(hs)
            n = r.choice((1, 8, 16, 60, 200, 2000) + ((0,) if self.g.realloc0 else ()))
            x = r.random()
            if x < .4:
                self.o("realloc", R["id"], n, "!realloc:move:0")
            elif x < .4 + self.g.pf:
                self.o("realloc", R["id"], n, "!realloc:err:%d" % ENOMEM)
                return
            else:
                self.o("realloc", R["id"], n)
            R["n"] = n
            if n == 0:
                self.regions.remove(R)
        else:
            R = r.choice(hs)
            self.o("free", R["id"])
            self.regions.remove(R)

    def k_feed(self):
        g, r = self.g, self.r
        c = g.peers_in[self.t]
        if not c:
            return
        self.o("feed", r.choice(c[-2:] if r.random() < .6 else c), g.data(r.choice((1, 2, 5, 12, 30, 90)), g.nulstream).hex())
        if r.random() < .04:
            self.o("hangup", r.choice(c))

    def k_drain(self):
        c = self.g.peers_out[self.t]
        if c:
            p = self.r.choice(c)
            self.o("drain", p, self.r.choice((1, 10, 100)))
            if self.r.random() < .03:
                self.o("hangup", p)

    def k_share(self):
        r, g = self.r, self.g
        if not g.slots or r.random() < .5:
            s = r.randrange(6)
            if s not in g.slots:
                g.slots.append(s)
            self.o("put", s, self.lab())
        else:
            self.o("take", self.reg(), r.choice(g.slots))

    def k_sock(self):
        if len([x for x in self.fd_in if x[1].get("sock")]) < 3:
            self.sock()
            self.k_feed()

    def k_stdio(self):
        self.stdio()

    def k_untracked(self):
        h, pe = self.hid(), self.peer_id()
        self.o("dupfd", h, pe)
        self.fd_in.append((h, {"peer": pe}))
        self.g.peers_in[self.t].append(pe)
        self.o("feed", pe, self.g.data(20, False).hex())
        R = self.region(8)
        self.o("read", h, R["id"], 0, 8)


class Gen:
    def __init__(self, seed):
        r = self.r = random.Random(seed)
        self.files, self.env, self.args = [], {}, []
        self.std = [None, None, None]
        self.inputs, self.fifos, self.slots = [], [], []
        self.outnames = collections.defaultdict(list)
        self.peers_in = collections.defaultdict(list)
        self.peers_out = collections.defaultdict(list)
        self.pf = r.choice((0, 0, .1, .3))
        self.p_fifo = r.choice((0, .3, .6))
        self.nul = r.random() < .5
        self.nulstream = r.random() < .3
        self.append = True
        self.p_range = .15
        self.writable_inputs = self.subdir = False
        self.msg_flags = True
        self.anonfd = True
        self.widech = True
        self.close_std = False
        self.close_faults = True
        self.sockname_faults = True
        self.realloc0 = True
        self.tmpnames = True
        self.wellformed = True
        self.missing_exits = True
        self.strops = ("strcat", "strcpy", "strncpy", "strdup")
        self.std_owner = 0
        self.std_kind = {}
        self.std_f = True
        self.names = [b"main", b"f", b"fo", b"foo", b"_ZN3fooEv", b"x" * r.choice((1, 30, 300))]
        self.fids = [0, 1, 2, 3, 127, 128, 300, 16383, 16384, 70000, 2 ** 31, 2 ** 32 - 1]
        self.cfg = {}
        self.flags = {}
        self.ths = {}

    def data(self, n, nul=True):
        r = self.r
        if r.random() < .5:
            b = bytes(r.choice(b"abcdef \n,;0123") for _ in range(n))
        else:
            b = bytes(r.randrange(256) for _ in range(n))
        if not nul:
            b = b.replace(b"\0", b"\x01")
        return b

    def fid(self):
        return self.r.choice(self.fids)

    def inputs_(self, k=3, sizes=(0, 1, 5, 40, 40, 100, 300, 300, 5000)):
        for i in range(k):
            p = "in%d" % i
            self.files.append({"p": p, "hex": self.data(self.r.choice(sizes), self.nul).hex()})
            self.inputs.append(p)
        self.subdir = self.r.random() < .25
        if self.subdir:
            self.files.append({"p": "sub", "dir": 1})
            self.files.append({"p": "sub/in0", "hex": self.data(self.r.choice(sizes), self.nul).hex()})

    def schedule(self, n, long=False):
        r, c = self.r, self.cfg
        c["seed"] = r.getrandbits(48)
        if n <= 1:
            c["mode"] = "random"
            c["mean"] = 400
        else:
            x = r.random()
            if x < .35:
                c["mode"], c["mean"] = "random", r.choice((3, 8, 20, 60, 200, 400))
            elif x < .6:
                c["mode"], c["depth"], c["horizon"] = "pct", r.randint(1, 4), r.choice((300, 1500, 6000))
            elif x < .8:
                c["mode"], c["mean"] = "sync", r.choice((2, 3, 6))
            else:
                c["mode"], c["mean"] = "op", r.choice((2, 3, 6))
        c.setdefault("max_steps", 3000000)

    def th(self, t):
        if t not in self.ths:
            self.ths[t] = Th(self, t)
        return self.ths[t]

    def fill(self, th, weights, n):
        ks = list(weights)
        ws = [weights[k] for k in ks]
        end = len(th.ops) + n
        guard = 0
        while len(th.ops) < end and guard < n * 4:
            guard += 1
            th.step(self.r.choices(ks, ws)[0])

    def swarm(self, w, keep=()):
        """Drops a random part of the operation kinds for this run."""
        r = self.r
        if r.random() < .25:
            return dict(w)
        out = {}
        for k, v in w.items():
            if k in keep or r.random() < .65:
                out[k] = v * r.choice((.3, 1, 1, 3))
        if not any(k in out for k in READERS) and any(k in w for k in READERS):
            k = r.choice([k for k in READERS if k in w])
            out[k] = w[k]
        return out or dict(w)

    def prologue(self, th):
        """Some labelled data to start with."""
        R = th.buf(self.r.choice((16, 40, 64)))
        h = th.open_in(False, self.big)
        th.o("read", h, R["id"], 0, self.r.randint(4, R["n"]))
        return R

    def sc(self):
        ops = []
        for t in sorted(self.ths):
            ops += self.ths[t].ops
        d = {"cfg": self.cfg, "env": self.env, "std": self.std, "args": self.args, "files": self.files, "ops": ops}
        if "POLYDB" in self.env:
            d["db"] = self.env["POLYDB"]
        d.update(self.flags)
        return d

    @property
    def big(self):
        for f in self.files:
            if f["p"] == "big":
                return "big"
        self.files.append({"p": "big", "hex": self.data(400, self.nul).hex()})
        self.inputs.append("big")
        return "big"


ALL = dict(BASE)
CORE = W(rd=1, union=1, ld=1, st=1, share=1, mem=.5, close=.3, open=.3)


def std_setup(g, th):
    """Random standard-stream configuration."""
    r = g.r
    for v in ("POLYTRACKER_STDIN_SOURCE", "POLYTRACKER_STDOUT_SINK", "POLYTRACKER_STDERR_SINK"):
        if r.random() < .6:
            g.env[v] = "1"
    x = r.random()
    if x < .45:
        g.files.append({"p": "stdin.txt", "hex": g.data(r.choice((0, 5, 60, 300)), g.nul).hex()})
        g.std[0] = "file stdin.txt"
    elif x < .85:
        g.files.append({"p": "stdin.q", "fifo": 1})
        g.std[0] = "fifo stdin.q"
    for i in (1, 2):
        x = r.random()
        if x < .5:
            g.std[i] = "file std%d.out" % i
        elif x < .65 and g.append:
            g.files.append({"p": "std%d.out" % i, "hex": g.data(20).hex()})
            g.std[i] = "append std%d.out" % i
        elif x < .85:
            g.files.append({"p": "std%d.q" % i, "fifo": 1})
            g.std[i] = "fifo std%d.q" % i


def threads(g, weights, n, size, share=True, main_ops=None):
    """main: start, some work, spawn, work, join, work; n further threads."""
    r = g.r
    m = g.th(0)
    m.o("start")
    if g.std_used:
        std_setup(g, m)
        g.std_owner = r.choice([0] + list(range(1, n + 1)))
    w0 = g.swarm(weights)
    m0 = size if main_ops is None else main_ops
    g.fill(m, w0, r.randint(0, max(1, m0 // 2)) if n else m0)
    for t in range(1, n + 1):
        th = g.th(t)
        th.regions = []
        if r.random() < .7:
            g.prologue(th)
        g.fill(th, g.swarm(weights) if r.random() < .5 else w0, r.randint(size // 2, size))
        m.o("spawn", t)
        if r.random() < .4:
            g.fill(m, w0, r.randint(0, m0 // 3))
    if n:
        g.fill(m, w0, r.randint(0, m0 // 2))
    return m, w0


def join_all(g, m, n):
    ts = list(range(1, n + 1))
    g.r.shuffle(ts)
    for t in ts:
        m.o("join", t)


def finish(g, m, n, w0, kinds=("return",)):
    r = g.r
    k = r.choice(kinds)
    if k == "return":
        join_all(g, m, n)
        if r.random() < .5:
            g.fill(m, w0, r.randint(0, 8))
        if r.random() < .2:
            g.cfg["rc"] = r.choice((1, 3, 77))
    elif k == "exit":
        join_all(g, m, n)
        m.o("exit", r.choice((0, 1, 5)))
    elif k == "assert":
        join_all(g, m, n)
        m.o("assertfail")
    elif k == "thread-exit":
        # one thread exits while main waits for it
        t = r.randint(1, n)
        for u in range(1, n + 1):
            if u != t:
                m.o("join", u)
                g.th(u).o("sig", 900 + u)
                g.th(t).o("await", 900 + u)
        g.th(t).o("exit", r.choice((0, 2)))
        m.o("join", t)


def nthreads(g, lo=1, hi=4):
    return g.r.choice([k for k in (1, 2, 2, 3, 4) if lo <= k <= hi] or [lo])


def base(seed, single=0.0, lo=2, hi=4, std=.3):
    g = Gen(seed)
    g.std_used = g.r.random() < std
    n = 0 if g.r.random() < single else nthreads(g, lo, hi)
    return g, n


# ---- profiles -----------------------------------------------------------------------
def p01(seed, tier):
    g, n = base(seed, single=.3, std=0)
    g.inputs_(2)
    g.schedule(n)
    w = W(rd=.6, union=2.5, ld=1.5, st=1, share=1.5, mem=.3, branch=.3)
    m, w0 = threads(g, w, n, g.r.choice((15, 40, 90)))
    finish(g, m, n, w0)
    return g.sc()


def boundary(g, n):
    """Threads whose labels meet at a multiple of 64 labels."""
    r = g.r
    m = g.th(0)
    m.o("start")
    h = m.open_in(False, g.big)
    pad = 64 * r.randint(1, 3) - r.randint(1, 3 * n)
    B = m.buf(pad)
    m.o("read", h, B["id"], 0, pad)
    for t in range(1, n + 1):
        th = g.th(t)
        th.regions = []
        R = th.buf(16)
        h = th.open_in(False, g.big)
        for _ in range(r.randint(1, 3)):
            th.o("read", h, R["id"], 0, r.choice((1, 1, 2, 3, 9)))
        m.o("spawn", t)
    return m, W(ld=1, union=1, branch=1)


def p02(seed, tier):
    g, n = base(seed, lo=2)
    g.inputs_(3)
    g.schedule(n)
    if g.r.random() < .15:
        if g.cfg["mode"] == "pct":
            g.cfg["horizon"] = 400
        m, w0 = boundary(g, n)
        finish(g, m, n, w0)
        return g.sc()
    m, w0 = threads(g, ALL, n, g.r.choice((12, 30, 60)))
    finish(g, m, n, w0)
    return g.sc()


def p03(seed, tier):
    g, n = base(seed, single=.2, std=0)
    g.inputs_(2)
    g.schedule(n)
    w = W(rd=.5, union=1.5, ld=1.2, st=.6, share=2, branch=3, mem=.2)
    m, w0 = threads(g, w, n, g.r.choice((15, 40, 80)))
    finish(g, m, n, w0)
    return g.sc()


def p04(seed, tier):
    g, n = base(seed, single=.6, lo=1, std=.5)
    g.inputs_(3)
    g.schedule(n)
    g.pf = g.r.choice((0, .15, .35))
    w = W(rd=1.5, frd=1.5, fgets=1.5, getdelim=1.5, getc=1, seek=2, mmap=2, munmap=1, open=1, close=.8, feed=1,
          sock=1, stdio=2, untracked=2, st=.3, poke=.5)
    m, w0 = threads(g, w, n, g.r.choice((12, 30, 60)))
    finish(g, m, n, w0)
    return g.sc()


def p05(seed, tier):
    g, n = base(seed, single=.5, lo=1, std=.6)
    g.inputs_(2)
    g.schedule(n)
    g.pf = g.r.choice((0, .15, .35))
    w = W(rd=.8, wr=2.5, fwr=2.5, putc=3, seek=1.5, open=1, close=.8, st=1, ld=.4, poke=1, drain=2, sock=1, stdio=3,
          mem=.3, feed=.4)
    m, w0 = threads(g, w, n, g.r.choice((15, 35, 60)))
    if g.r.random() < .1:
        g.std[1] = "full"
    finish(g, m, n, w0)
    return g.sc()


def shared_stream(g, m, n, way):
    """One FIFO used by all threads at once."""
    r = g.r
    h = m.fifo(way, False)
    lst = m.fd_in if way == "in" else m.fd_out
    _, info = lst.pop()
    pe = info["peer"]
    (g.peers_in if way == "in" else g.peers_out)[0].pop()
    if way == "in":
        m.o("feed", pe, g.data(r.choice((60, 200)), False).hex())
    return h, pe


def p06(seed, tier):
    g, n = base(seed, single=.3, lo=2, std=.6)
    g.inputs_(1)
    g.schedule(n)
    g.p_fifo = .9
    g.pf = g.r.choice((0, .15, .35))
    r = g.r
    w = W(rd=1.5, wr=1.5, frd=.7, fgets=.5, getdelim=.5, getc=.5, fwr=.7, putc=1, feed=3, drain=1.5, sock=3, stdio=3,
          st=.4, close=.2)
    g.sharing = n >= 2 and r.random() < .5
    if not g.sharing:
        m, w0 = threads(g, w, n, r.choice((15, 35, 60)))
        finish(g, m, n, w0)
        return g.sc()
    m = g.th(0)
    m.o("start")
    ways = r.choice((("in",), ("out",), ("in", "out")))
    sh = {x: shared_stream(g, m, n, x) for x in ways}
    for t in range(1, n + 1):
        th = g.th(t)
        src = th.open_in(False, g.big)
        th.fd_in.clear()
        for _ in range(r.randint(2, 8)):
            x = r.choice(ways)
            if x == "in":
                R = th.buf(16)
                th.o("read", sh["in"][0], R["id"], 0, r.randint(1, 16), *th.fault("read"))
                th.regions.pop()
            else:
                k = r.randint(1, 12)
                R = th.buf(k)
                th.o("read", src, R["id"], 0, k)
                th.o("write", sh["out"][0], R["id"], 0, k)
                th.regions.pop()
            if r.random() < .3:
                g.fill(th, W(rd=1, wr=1, st=.3), 2)
        m.o("spawn", t)
    if "in" in sh:
        for _ in range(r.randint(0, 3)):
            m.o("feed", sh["in"][1], g.data(r.randint(1, 20), False).hex())
    join_all(g, m, n)
    return g.sc()


def p07(seed, tier):
    g, n = base(seed, single=.4, lo=1, std=.4)
    g.inputs_(3)
    g.schedule(n)
    r = g.r
    if r.random() < .4:
        g.env["POLYDB"] = r.choice(("t.tdag", "sub/t.tdag", "polytracker.tdag", "x"))
        if "/" in g.env["POLYDB"]:
            g.files.append({"p": "sub", "dir": 1})
    if r.random() < .3:
        g.args = [b"prog".hex(), g.data(r.randint(1, 9), False).hex()]
        g.env["POLYTRACKER_TAINT_ARGV"] = "1"
    m, w0 = threads(g, ALL, n, r.choice((10, 25, 50)))
    if r.random() < .35 and "POLYDB" not in g.env:
        g.flags["old"] = residue(g)
    x = r.random()
    if x < .35:
        th = g.th(91)
        g.fill(th, g.swarm({k: v for k, v in ALL.items() if k != "stdio"}), r.randint(1, 10))
    if x < .2 or x > .85:
        th = g.th(90)
        g.fill(th, g.swarm({k: v for k, v in ALL.items() if k != "stdio"}), r.randint(1, 10))
    finish(g, m, n, w0, ("return", "exit", "assert") + (("thread-exit",) if n and 91 not in g.ths and 90 not in g.ths else ()))
    return g.sc()


def residue(g):
    """An earlier run (finished or killed) whose trace lies at the same path."""
    o = Gen(g.r.getrandbits(60))
    o.std_used = False
    o.inputs_(3)
    o.schedule(0)
    m, w0 = threads(o, ALL, 0, g.r.choice((20, 60, 120)))
    if g.r.random() < .4:
        m.o("kill")
    d = o.sc()
    d["files"] = [dict(f, p=f["p"]) for f in d["files"]]
    return d


def p08(seed, tier):
    g, n = base(seed, single=.35, lo=1, std=.3)
    g.inputs_(3)
    g.schedule(n)
    r = g.r
    m, w0 = threads(g, ALL, n, r.choice((8, 20, 40)))
    if r.random() < .4:
        g.flags["old"] = residue(g)
    finish(g, m, n, w0, ("return", "exit") if r.random() < .85 else ("return",))
    x = r.random()
    if x < .1:
        m.ops = [o for o in m.ops if o[1] not in ("exit",)]
        m.o(r.choice(("abort", "kill", "_exit")), 0)
    return g.sc()


def p09(seed, tier):
    g, n = base(seed, single=.6, lo=1, std=.2)
    g.inputs_(3)
    g.schedule(n)
    r = g.r
    g.flags["loud"] = 1
    kind = r.choice(("open", "ftruncate", "mmap", "sources", "sources", "strings", "names", "longname", "offset",
                     "nofile", "longpath", "polydb", "fsize"))
    g.flags["kind"] = kind
    m = g.th(0)
    if kind in ("open", "ftruncate", "mmap"):
        e = {"open": (EACCES, EMFILE, ENOSPC), "ftruncate": (ENOSPC, 27), "mmap": (ENOMEM,)}[kind]
        m, w0 = threads(g, ALL, n, 10)
        m.ops[0] += ["!%s:err:%d" % (kind, r.choice(e))]
        finish(g, m, n, w0)
    elif kind == "fsize":
        g.cfg["fsize"] = r.choice((0, 1 << 20, 1 << 34))
        m, w0 = threads(g, ALL, n, 10)
        finish(g, m, n, w0)
    elif kind == "polydb":
        g.env["POLYDB"] = r.choice(("nodir/t.tdag", "sub", "in0/x", "/nonexistent/a", "a" * 300))
        g.files.append({"p": "sub", "dir": 1})
        m, w0 = threads(g, ALL, n, 10)
        finish(g, m, n, w0)
    elif kind == "sources":
        g.flags["srccap"] = 1
        m.o("start")
        k = r.choice((253, 254, 255, 256, 300))
        R = m.buf(16)
        early = [m.open_in(r.random() < .3) for _ in range(2)]
        for i in range(k - 2 - r.randint(0, 4)):
            h = m.hid()
            m.o("open", h, r.choice(g.inputs), 0, 0)
            if r.random() < .05:
                m.o("read", h, R["id"], 0, 4)
            m.o("close", h)
        out = m.open_out(False)
        for i in range(r.randint(3, 12)):
            x = r.random()
            if x < .5:
                h = m.open_in(False)
                m.o("read", h, R["id"], 0, 8)
            elif x < .7:
                m.fifo("in", False)
                m.k_feed()
                m.o("read", m.fd_in[-1][0], R["id"], 0, 8)
            else:
                m.fd_in = m.fd_in[-3:]
                g.fill(m, W(rd=1, union=1, wr=1, st=1, close=1), 3)
            if r.random() < .4 and m.fd_in:
                m.o("close", m.fd_in.pop(r.randrange(len(m.fd_in)))[0])
            if r.random() < .5:
                m.o("write", out, R["id"], 0, 8)
    elif kind in ("strings", "names", "longname"):
        m.o("start")
        g.prologue(m)
        ln = {"strings": 30000, "names": 60000, "longname": 65535}[kind]
        k = {"strings": 36, "names": 20, "longname": 17}[kind] + r.randint(-3, 3)
        for i in range(k):
            nm = (b"%d_" % i).ljust(ln, b"n")
            m.o("fentry", i, nm.hex(), "lit")
            if r.random() < .3:
                g.fill(m, W(rd=1, union=1, ev=1, open=1, close=.5), 2)
        if r.random() < .5:
            m.o("fentry", 40, (b"0_").ljust(ln, b"n").hex(), "lit")
        g.fill(m, W(rd=1, union=1, wr=1, ev=.5), 5)
    elif kind == "offset":
        m.o("start")
        b = 2 ** r.choice((31, 32, 40, 53, 54, 54, 54, 55, 62))
        g.files.append({"p": "huge", "size": 4096})
        g.inputs.append("huge")
        h = m.open_in(False, "big")
        o = m.open_out(False)
        R = m.buf(16)
        m.o("read", h, R["id"], 0, 8)
        for _ in range(r.randint(1, 5)):
            pos = b + r.randint(-12, 12)
            m.o("seek", o, pos, 0)
            m.o("write", o, R["id"], 0, r.randint(1, 8))
        g.fill(m, W(rd=1, union=1, wr=1), 5)
    elif kind == "nofile":
        g.cfg["nofile"] = r.choice((5, 8, 12))
        m, w0 = threads(g, dict(ALL, open=60), 0, 40)
        finish(g, m, 0, w0)
    elif kind == "longpath":
        m.o("start")
        for i in range(r.randint(1, 6)):
            p = "./" * r.choice((1, 50, 1000, 2000)) + r.choice(g.inputs)
            h = m.open_in(False, p)
            R = m.buf(16)
            m.o("read", h, R["id"], 0, 8)
    return g.sc()


def p10(seed, tier):
    g, n = base(seed, single=.3, std=0)
    g.inputs_(1)
    g.schedule(n)
    r = g.r
    k = r.choice((1, 2, 5, 30))
    g.names = [b"f%d" % i for i in range(k)] + g.names
    if r.random() < .3:
        g.names += [b"", b"a\0b", b"a\0c", "fönc".encode()]
    if r.random() < .15:
        g.names += [b"\xff\xfe", b"caf\xe9"]
    w = W(ev=6, rd=.2, open=.3, close=.2, union=.1)
    m, w0 = threads(g, w, n, r.choice((10, 40, 100)))
    finish(g, m, n, w0)
    return g.sc()


def p11(seed, tier):
    g, n = base(seed, single=.55, std=0)
    g.inputs_(1)
    g.schedule(n)
    r = g.r
    if r.random() < .5:
        g.fids += [r.getrandbits(r.choice((7, 8, 14, 15, 21, 28, 32))) for _ in range(6)]
    else:
        g.fids = list(range(r.randint(1, 8)))
    w = W(tcf=6, fn=6, rd=.5, union=.6, ld=.5, st=.2, branch=.3)
    m, w0 = threads(g, w, n, r.choice((15, 50, 100)))
    finish(g, m, n, w0)
    return g.sc()


def p12(seed, tier):
    g, n = base(seed, single=.7, lo=1, std=.4)
    g.inputs_(2, (0, 1, 5, 40, 40, 100))
    g.schedule(n)
    g.flags["views"] = 1
    r = g.r
    if r.random() < .3:
        g.args = [b"prog".hex(), g.data(r.randint(1, 9), False).hex()]
        g.env["POLYTRACKER_TAINT_ARGV"] = "1"
    if r.random() < .3:
        g.inputs += ["./in0", "in0"]
    w = W(rd=1.5, frd=.6, getc=.5, wr=2, fwr=1, putc=.7, union=1.2, ld=1, st=1.2, branch=.6, seek=1, open=1.2, close=1,
          mem=.4, stdio=2, sock=.7, feed=.7, mmap=.4)
    if r.random() < .4:     # deep labels: ranges of unions, marked in part
        g.p_range = r.choice((.3, .6))
        w = W(rd=.4, union=4, ld=1, st=2.5, branch=r.choice((.3, 1)), wr=1.5)
    m, w0 = threads(g, w, n, r.choice((12, 30, 60)))
    finish(g, m, n, w0)
    return g.sc()


def p13(seed, tier):
    g, n = base(seed, single=1, std=.6)
    g.inputs_(3)
    g.schedule(0)
    r = g.r
    g.pf = r.choice((0, .15, .35))
    g.nulstream = r.random() < .3
    g.msg_flags = True
    g.nul = True
    g.writable_inputs = r.random() < .3
    m = g.th(0)
    w = {k: v for k, v in ALL.items() if k not in ("union", "ld", "st", "share", "ev", "fn")}
    if r.random() < .3:
        g.schedule(0)
        for _ in range(r.randint(1, 4)):
            m.o("tcf", 0, "0", r.getrandbits(64), 3)
            m.o("branch", "0", 1)
            m.o("enter", 5)
            m.o("leave", 5)
    m.o("start")
    if g.std_used:
        std_setup(g, m)
    g.fill(m, g.swarm(w), r.choice((15, 40, 80)))
    finish(g, m, 0, w, ("return", "exit"))
    return g.sc()


def p14(seed, tier):
    g, n = base(seed, single=.7, lo=1, std=0)
    g.inputs_(2)
    g.schedule(n)
    g.pf = g.r.choice((0, .2, .4))
    w = W(rd=.7, mem=2, str=3, heap=4, mmap=1, munmap=2, st=1, poke=.5, getdelim=.3, union=.3)
    m, w0 = threads(g, w, n, g.r.choice((15, 35, 60)))
    finish(g, m, n, w0)
    return g.sc()


def p15(seed, tier):
    g, n = base(seed, single=.6, lo=1, std=1)
    g.inputs_(1)
    g.schedule(n)
    r = g.r
    if r.random() < .5:
        g.env["POLYDB"] = r.choice(("t.tdag", "sub/t.tdag", "x", "./y.tdag"))
        if "/" in g.env["POLYDB"]:
            g.files.append({"p": "sub", "dir": 1})
    for i in range(r.randint(0, 4)):
        g.args.append(g.data(r.choice((0, 1, 5, 40)), False).hex())
    if r.random() < .5:
        g.args = g.args or [b"prog".hex()]
        g.env["POLYTRACKER_TAINT_ARGV"] = r.choice(("1", "1", "1", "0", ""))
    m = g.th(0)
    if r.random() < .4:
        for _ in range(r.randint(1, 6)):
            m.o(*r.choice((("branch", "0", 1), ("rawbranch", "0", 1), ("enter", 3), ("leave", 3), ("fentry", 1, b"early".hex(), "lit"),
                           ("fexit", 1), ("union", 1, "0", "0"), ("tcf", 2, "0", 5, 1))))
    m.o("start")
    std_setup(g, m)
    for v in ("POLYTRACKER_STDIN_SOURCE", "POLYTRACKER_STDOUT_SINK", "POLYTRACKER_STDERR_SINK"):
        x = r.random()
        g.env.pop(v, None)
        if x < .45:
            g.env[v] = "1"
        elif x < .65:
            g.env[v] = r.choice(("0", ""))
    for i in range(3):
        if r.random() < .06:
            g.std[i] = "closed"
    for i in range(len(g.args)):
        if r.random() < .8:
            R = {"id": m.rid(), "n": len(g.args[i]) // 2 + 1, "g": False, "w": False}
            m.o("argbuf", R["id"], i)
            m.regions.append(R)
    w = W(rd=1, frd=1, getc=1, fgets=.5, wr=1.5, fwr=1, putc=1, stdio=6, st=.5, union=.5, feed=1, drain=.5, branch=.3)
    g.std_owner = 0
    g.fill(m, w, r.choice((12, 30)))
    for t in range(1, n + 1):
        g.prologue(g.th(t))
        g.fill(g.th(t), W(rd=1, wr=1, union=1, st=1, open=1, close=1), 15)
        m.o("spawn", t)
    g.fill(m, w, r.choice((5, 15)))
    finish(g, m, n, w, ("return", "exit"))
    return g.sc()


def p16(seed, tier):
    g, n = base(seed, lo=1, std=.2)
    n = max(n, 1)
    g.inputs_(3)
    g.schedule(n)
    r = g.r
    m, w0 = threads(g, ALL, n, r.choice((15, 40, 80)), main_ops=6)
    x = r.random()
    if x < .5:
        m.o("exit", r.choice((0, 4)))
    elif x < .7:
        g.cfg["rc"] = r.choice((0, 3))
    elif x < .85:
        m.o("assertfail")
    else:
        t = r.randint(1, n)
        g.th(t).o("exit", 6)
        for u in range(1, n + 1):
            m.o("join", u)
    if r.random() < .3:
        g.fill(g.th(91), g.swarm({k: v for k, v in ALL.items() if k != "stdio"}), 4)
    return g.sc()


def p17(seed, tier):
    g, n = base(seed, single=.4, lo=1, std=.5)
    g.inputs_(4)
    g.schedule(n)
    r = g.r
    g.close_std = r.random() < .3
    g.inputs += ["./in0", "in1"]
    if g.subdir:
        g.inputs += ["sub/../in0", "sub//in0"]
    if r.random() < .2:
        g.files.append({"p": "lnk", "link": "in0"})
        g.inputs.append("lnk")
    if r.random() < .1:
        nm = b"caf\xe9".decode("utf-8", "surrogateescape")
        g.files.append({"p": nm, "hex": "616263"})
        g.inputs.append(nm)
    w = W(rd=1.3, frd=.6, getc=.4, wr=1.2, fwr=.6, open=4, close=7, seek=.5, sock=2, untracked=6, feed=1, mmap=.6,
          stdio=1.5, putc=.4)
    m, w0 = threads(g, w, n, r.choice((15, 40, 80)))
    finish(g, m, n, w0)
    return g.sc()


PROFILES = {"P%02d" % i: globals()["p%02d" % i] for i in range(1, 18)}


def generate(pid, seed, tier="quick"):
    return PROFILES[pid]("%s:%s" % (pid, seed), tier)
