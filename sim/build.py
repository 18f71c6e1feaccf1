"""Builds the simulator binary from /repo's current working tree.

The tracker's own translation units are compiled with the flags the project's
build uses, plus -fsanitize=thread (against our own __tsan_* functions), and
their libc references are renamed to sim_* seams. dfsan is the project's own.
"""
import concurrent.futures, fcntl, hashlib, json, os, shutil, subprocess, sys, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SIM = VERIF / "sim"
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = VERIF / ".build"
ENV = dict(os.environ, CC="clang-18", CXX="clang++-18",
           PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")

SEAMS = """open open64 openat openat64 read pread pread64 write send recv recvfrom
mmap mmap64 munmap ftruncate ftruncate64 close fopen fopen64 accept accept4 connect
getsockname getpeername malloc realloc pthread_mutex_lock pthread_mutex_unlock
pthread_mutex_trylock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
pthread_cond_wait pthread_cond_signal pthread_cond_broadcast pthread_once
__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort sched_yield usleep nanosleep
msync fsync fdatasync fallocate posix_fallocate fallocate64 posix_fallocate64 fread
fread_unlocked fgetc fgetc_unlocked getc getc_unlocked getchar getchar_unlocked fgets
getdelim __getdelim fwrite fputc putc fputc_unlocked putc_unlocked lseek lseek64
ftello ftello64 writev rename unlink atexit exit""".split()

def sh(cmd, **kw):
    r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError("build step failed: %s\n%s" % (" ".join(map(str, cmd)), r.stdout[-6000:]))
    return r.stdout

def tree_key():
    h = hashlib.sha256()
    roots = [REPO / "polytracker" / "src", REPO / "polytracker" / "include", REPO / "polytracker" / "CMakeLists.txt",
             REPO / "CMakeLists.txt", Path("/opt/vp/cmake"), SIM]
    for root in roots:
        files = [root] if root.is_file() else sorted(p for p in root.rglob("*") if p.is_file())
        for p in files:
            if p.suffix == ".pyc" or (p.suffix == ".py" and p.name != "build.py") or "/passes/" in str(p):
                continue
            h.update(str(p.relative_to(root.parent)).encode() + b"\0")
            h.update(hashlib.sha256(p.read_bytes()).digest())
    return h.hexdigest()[:20]

def build(variant="", defines=()):
    """Returns the path of the simulator binary for the current tree."""
    BUILD.mkdir(exist_ok=True)
    with open(BUILD / "lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_key()
        out = BUILD / key
        exe = out / ("sim" + variant)
        if exe.exists():
            return exe
        for old in BUILD.iterdir():
            if old.is_dir() and old.name != key and time.time() - old.stat().st_mtime > 3600:
                shutil.rmtree(old, ignore_errors=True)
        out.mkdir(exist_ok=True)
        cm = out / "cm"
        if not (cm / "compile_commands.json").exists():
            sh(["cmake", "-S", "/opt/vp/cmake", "-B", str(cm), "-G", "Ninja",
                "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"])
        dfsan = cm / "src/compiler-rt/lib/linux/libclang_rt.dfsan-x86_64.a"
        cmds = json.loads((cm / "compile_commands.json").read_text())
        prefix = str(REPO / "polytracker" / "src") + "/"
        units = []
        for c in cmds:
            f = c["file"]
            if f.startswith(prefix) and f[len(prefix):].split("/")[0] in ("polytracker", "taint_sources", "taintdag") \
               and "Polytracker.dir" in c["output"]:
                units.append(c)
        if not units:
            raise RuntimeError("no tracker translation units found")
        od = out / ("obj" + variant)
        od.mkdir(exist_ok=True)
        syms = od / "seams.txt"
        syms.write_text("".join("%s sim_%s\n" % (s, s) for s in SEAMS))
        def unit(c):
            o = od / (c["file"][len(prefix):].replace("/", "_") + ".o")
            a = c["command"].split()
            a[a.index("-o") + 1] = str(o)
            a.insert(1, "-I" + str(SIM / "shim"))
            a += ["-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1", "-w"] + ["-D" + d for d in defines]
            sh(a, cwd=c["directory"])
            sh(["objcopy", "--redefine-syms=" + str(syms), str(o)])
            return str(o)
        def own(src):
            o = od / (src + ".o")
            sh(["clang++-18", "-std=gnu++20", "-O2", "-g", "-fPIC", "-w", "-fno-builtin", "-fno-c++-static-destructors",
                "-I" + str(REPO / "polytracker/include"),
                "-I" + str(REPO / "polytracker/src/compiler-rt/include"), "-c", str(SIM / src), "-o", str(o)])
            return str(o)
        with concurrent.futures.ThreadPoolExecutor(10) as ex:
            fd = ex.submit(sh, ["ninja", "-C", str(cm), "clang_rt.dfsan-x86_64"])
            fu = [ex.submit(unit, c) for c in units]
            fo = [ex.submit(own, s) for s in ("sched.cpp", "tsan_stubs.cpp", "seams.cpp", "exec.cpp")]
            fd.result()
            objs = [f.result() for f in fu]
            objs += [f.result() for f in fo]
        tmp = out / ("sim%s.tmp" % variant)
        sh(["clang++-18", "-pie", "-rdynamic", "-o", str(tmp)] + objs +
           ["-Wl,--allow-multiple-definition", "-Wl,--whole-archive", str(dfsan), "-Wl,--no-whole-archive",
            "-lfmt", "-lpthread", "-ldl", "-lrt", "-lm"])
        os.rename(tmp, exe)
        return exe

if __name__ == "__main__":
    t = time.time()
    print(build(), "%.1fs" % (time.time() - t))
