"""Decides one property: seeded search over simulated runs, with gated and minimised violations.

  check.py <ID> [--tier quick|thorough] [--runs N] [--budget S] [--jobs N]
  check.py --replay FILE
"""
import sys
sys.dont_write_bytecode = True
import argparse, collections, copy, hashlib, json, multiprocessing, os, random, resource, shutil, signal, subprocess, time, traceback
from pathlib import Path

HERE = Path(__file__).resolve().parent
VERIF = HERE.parent
sys.path.insert(0, str(HERE))
VENV = "/opt/vp/venv/bin/python"
if os.path.exists(VENV) and Path(sys.prefix).resolve() != Path("/opt/vp/venv").resolve():
    os.execv(VENV, [VENV] + sys.argv)
import build, gen, model, simlib

ALWAYS = {"hang", "crash", "reject"}
EVERY = None
KINDS = {
    "P01": {"closure", "claim", "label"},
    "P02": EVERY,
    "P03": {"marks", "closure", "claim", "label", "cond"},
    "P04": {"claim", "outside", "header", "srcset", "index", "retlabel", "stream"},
    "P05": {"sink", "header"},
    "P06": {"stream", "claim", "sink", "srcset"},
    "P07": EVERY, "P08": EVERY, "P09": EVERY,
    "P10": {"fn", "event"},
    "P11": {"cflog", "callstack", "cond", "condlabel"},
    "P12": {"view", "index", "closure", "sink", "claim"},
    "P13": {"twin", "cond"},
    "P14": {"mem", "outside", "retlabel", "claim"},
    "P15": EVERY, "P16": EVERY,
    "P17": {"header", "claim", "sink", "srcset", "stream"},
}
RUNS = {"quick": 16000, "thorough": 600000}
SCALE = {"P08": .35, "P13": .8}
READER_MEMORY = 3 << 30
BUDGET = {"quick": 60, "thorough": 3000}


class ReaderHang(Exception):
    pass


def _alarm(*_):
    raise ReaderHang()


def relevant(pid, viol):
    ks = KINDS[pid]
    return [v for v in viol if v[0] in ALWAYS or ks is EVERY or v[0] in ks]


# ---- one evaluation ----------------------------------------------------------------------

FAIL_RET = {"fopen": 0, "fopen64": 0, "fgets": 0, "malloc": 0, "calloc": 0, "realloc": 0, "strdup": 0}


def twin_diff(sc, run, prun, files, pfiles):
    """Differences between a tracked run and the same program with the plain calls."""
    out = []
    if run.outcome != prun.outcome:
        out.append(("twin", "tracked program ends with %s, plain one with %s" % (run.outcome, prun.outcome)))
        return out
    for i in sorted(set(run.recs) | set(prun.recs)):
        a, b = run.recs.get(i), prun.recs.get(i)
        if a is None or b is None or (a.e is None) != (b.e is None):
            out.append(("twin", "op %d %s runs only in one of tracked and plain program" % (i, sc["ops"][i])))
            break
        op = a.a[0]
        if op in ("start",) or a.e is None:
            continue
        what = "op %d %s" % (i, " ".join(map(str, a.a)))
        if a.skip != b.skip:
            out.append(("twin", "%s is possible in only one of tracked and plain program" % what))
            break
        ra, rb = a.ret, b.ret
        if op in model.OPENERS + ("accept", "accept4", "socket", "dupfd"):
            ra, rb = min(ra, 0), min(rb, 0)
        if op in ("union", "ld", "fentry"):
            continue
        if ra != rb:
            out.append(("twin", "%s returns %d, the plain call %d" % (what, a.ret, b.ret)))
            break
        if op in model.WRAPPED and rb == (0 if op in FAIL_RET else -1) and a.err != b.err and \
                op not in ("getc", "tcf", "fgets", "gets", "getdelim", "__getdelim"):
            out.append(("twin", "%s fails with error %d, the plain call with %d" % (what, a.err, b.err)))
            break
        for k in ("p0", "p1", "eof", "ferr", "data", "size", "fmode", "fl", "cond", "addr"):
            if a.kv.get(k) != b.kv.get(k):
                out.append(("twin", "%s: %s is %s, with the plain call %s" % (what, k, a.kv.get(k), b.kv.get(k))))
                break
        else:
            if op in ("fgets", "gets") and not (rb > 0):
                continue        # a failed read leaves the buffer unspecified
            if a.D != b.D:
                out.append(("twin", "%s: memory holds %s, with the plain call %s" % (what, a.D, b.D)))
                break
            continue
        break
    for n in sorted(set(files) | set(pfiles)):
        if files.get(n) != pfiles.get(n):
            out.append(("twin", "file %s ends as %s, in the plain program as %s"
                        % (n, brief(files.get(n)), brief(pfiles.get(n)))))
            break
    return out


def brief(s):
    return None if s is None else "mode %o size %d %r" % (s[0], s[1], (s[2] or b"")[:40])


def evaluate(S, sc, guard=25):
    """Runs one scenario and judges it. Returns (violations, run, stats)."""
    run = S.run(sc)
    files = None
    if sc.get("twin"):
        files = simlib.snapshot(S.dir)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(guard)
    soft, hard = resource.getrlimit(resource.RLIMIT_DATA)
    resource.setrlimit(resource.RLIMIT_DATA, (READER_MEMORY, hard))
    try:
        v, j = model.judge(sc, run, S.dir)
        st = j.stats
        st["labels"] = getattr(j, "count", 0) or 0
    except ReaderHang:
        v, st = [("reject", "reader does not finish on the trace")], collections.Counter()
    except MemoryError:
        v, st = [("reject", "reader runs out of memory on the trace")], collections.Counter()
    finally:
        signal.alarm(0)
        resource.setrlimit(resource.RLIMIT_DATA, (soft, hard))
    if sc.get("twin"):
        ps = copy.deepcopy(sc)
        ps["cfg"]["plain"] = 1
        for r in run.recs.values():
            if r.a[0] == "start" and r.kv.get("banner"):
                ps["cfg"]["banner"] = r.kv["banner"]
        started = any(r.a[0] == "start" and r.e for r in run.recs.values())
        if started or not any(o[1] == "start" for o in sc["ops"]):
            prun = S.run(ps)
            pfiles = simlib.snapshot(S.dir)
            for d in (files, pfiles):
                d.pop(sc.get("db") or "polytracker.tdag", None)
            v = v + twin_diff(sc, run, prun, files, pfiles)
    return v, run, st


def cases(pid, seed, i, tier):
    """The scenarios of one seed; later ones may depend on how the first one went."""
    name = "%d.%d" % (seed, i)
    sc = gen.generate(pid, name, tier)
    if pid == "P13":
        sc["twin"] = 1
    if pid != "P08":
        yield sc, "plain"
        return
    run = yield sc, "dry"
    r = random.Random("crash:%s:%s" % (pid, name))
    n = run.steps
    k = 6 if tier == "quick" else 12
    pts = set()
    for _ in range(k):
        x = r.random()
        if x < .45:
            pts.add(r.randint(1, max(1, n)))
        elif x < .8:
            pts.add(max(1, n - int(r.expovariate(1 / 40.))))
        else:
            pts.add(r.randint(1, min(n, 400)) if n else 1)
    for p in sorted(pts):
        c = copy.deepcopy(sc)
        c["cfg"]["crash_at"] = p
        yield c, "crash"


def worker(pid, seed, tier, w, jobs, total, deadline, exe, root, best, out):
    try:
        S = simlib.Simulator(exe, root)
        st = collections.Counter()
        faults = collections.Counter()
        ops = collections.Counter()
        hashes, interesting, ends = set(), set(), collections.Counter()
        samples = []
        found = None
        rechecks = mism = 0
        i = w
        while i < total and time.time() < deadline and i < best.value:
            it = cases(pid, seed, i, tier)
            run = None
            first = True
            while True:
                try:
                    sc, how = next(it) if first else it.send(run)
                except StopIteration:
                    break
                first = False
                v, run, js = evaluate(S, sc)
                st["runs"] += 1
                st["steps"] += run.steps
                st["switches"] += len(run.sw)
                for k, x in js.items():
                    st["j_" + k] += x
                if run.recs and i % 40 < jobs and st["runs"] % 3 == 1:
                    rechecks += 1
                    if S.run(sc).text != run.text:
                        mism += 1
                for f in run.faults:
                    faults["%s:%s" % (f[1], f[2])] += 1
                if "CRASH" in run.marks:
                    faults["process:kill"] += 1
                for k in ("nofile", "fsize"):
                    if k in sc["cfg"]:
                        faults["limit:" + k] += 1
                if sc.get("loud"):
                    faults["resource:" + str(sc.get("kind", "any"))] += 1
                for s in sc.get("std", ()):
                    if s in ("closed", "full"):
                        faults["std:" + s] += 1
                done = 0
                for r in run.recs.values():
                    if r.e and not r.skip:
                        ops[r.a[0]] += 1
                        done += 1
                ends[run.outcome] += 1
                hashes.add(run.hash)
                if done >= 5 and (st["runs"] == 1 or js.get("labels", 0) > 1 or run.faults or "CRASH" in run.marks):
                    interesting.add(hashlib.sha1(run.text.encode("utf-8", "replace")).digest()[:8])
                if len(samples) < 1 and done > 10:
                    samples.append({"seed": "%d.%d" % (seed, i), "cfg": sc["cfg"], "ops": len(sc["ops"]), "steps": run.steps,
                                    "switches": len(run.sw), "outcome": run.outcome,
                                    "first_ops": [" ".join(map(str, o)) for o in sc["ops"][:12]]})
                rv = relevant(pid, v)
                if rv:
                    found = (i, sc, rv)
                    break
                if how == "dry" and (v or run.timeout):
                    break
            if found:
                with best.get_lock():
                    best.value = min(best.value, i)
                break
            i += jobs
        S.close()
        out.put(("ok", w, dict(st), dict(faults), dict(ops), hashes, interesting, dict(ends), samples, found, rechecks, mism,
                 i >= total))
    except BaseException:
        out.put(("err", w, traceback.format_exc()))


# ---- violations: gate, minimise, report ---------------------------------------------------

def kinds_of(pid, S, sc):
    v, run, _ = evaluate(S, sc, guard=10)
    rv = relevant(pid, v)
    return {k for k, _ in rv}, rv, run


def explicit(sc, run):
    """The same run with every scheduling decision written out."""
    c = copy.deepcopy(sc)
    if len(run.sw) < 15000:
        c["sw"] = [tuple(int(x) for x in s.split(":")) for s in run.sw]
        c["cfg"]["mode"] = "replay"
    if "crash_at" in c["cfg"]:
        del c["cfg"]["crash_at"]
        c["cfg"]["crash_tid"], c["cfg"]["crash_local"] = run.crash
    return c


def ddmin(items, test, deadline):
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items) and time.time() < deadline:
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                reduced = True
            else:
                i += size
        if size == 1 and not reduced:
            break
        if not reduced:
            n = min(len(items) or 1, n * 2)
        else:
            n = max(2, n - 1)
    return items


def minimise(pid, S, sc, kind, deadline):
    def fails(c):
        try:
            return kind in kinds_of(pid, S, c)[0]
        except Exception:
            return False

    def with_ops(c, ops):
        d = dict(c)
        d["ops"] = ops
        return d
    keep = {"start"}
    cur = sc
    slow = kind == "hang"
    if slow:
        deadline = min(deadline, time.time() + 40)
    for _ in range(3):
        before = (len(cur["ops"]), len(cur.get("sw", ())))
        fixed = cur
        must = {i for i, o in enumerate(cur["ops"]) if o[1] in keep}

        def pick(ix):
            ix = must | set(ix)
            return [fixed["ops"][i] for i in range(len(fixed["ops"])) if i in ix]
        rest = ddmin([i for i in range(len(cur["ops"])) if i not in must], lambda ix: fails(with_ops(fixed, pick(ix))), deadline)
        cur = with_ops(cur, pick(rest))
        if cur.get("sw"):
            fixed = cur
            sw = ddmin(list(cur["sw"]), lambda s: fails(dict(fixed, sw=s)), deadline)
            cur = dict(cur, sw=sw)
        # faults nobody needs
        for i, op in enumerate(cur["ops"]):
            for f in [x for x in op if isinstance(x, str) and x.startswith("!")]:
                ops = list(cur["ops"])
                ops[i] = [x for x in op if x is not f]
                if time.time() < deadline and fails(with_ops(cur, ops)):
                    cur = with_ops(cur, ops)
                    op = cur["ops"][i]
        used = {str(x) for o in cur["ops"] for x in o}
        fl = [f for f in cur.get("files", ()) if f["p"] in used or any(f["p"] in (s or "") for s in cur.get("std", ()))]
        if len(fl) < len(cur.get("files", ())) and time.time() < deadline and fails(dict(cur, files=fl)):
            cur = dict(cur, files=fl)
        if (len(cur["ops"]), len(cur.get("sw", ()))) == before or time.time() > deadline:
            break
    return cur


def write_replay(pid, seed, i, kind, msgs, sc, note):
    d = VERIF / "evidence" / "replays"
    d.mkdir(parents=True, exist_ok=True)
    body = {"property": pid, "seed": "%d.%d" % (seed, i), "kind": kind, "violations": msgs, "note": note, "scenario": sc}
    h = hashlib.sha1(json.dumps(sc, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = d / ("%s-%s.json" % (pid, h))
    p.write_text(json.dumps(body, indent=1))
    return p


def replay(path):
    b = json.loads(Path(path).read_text())
    pid = b["property"]
    exe = build.build()
    root = simlib.scratch_root()
    S = simlib.Simulator(exe, root)
    try:
        v, run, _ = evaluate(S, b["scenario"])
        rv = relevant(pid, v)
        print(simlib.render(b["scenario"], "DIR"))
        print(run.text)
        for k, m in rv:
            print("%s: %s" % (k, m))
        if any(k == b["kind"] for k, _ in rv):
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("not reproduced: no violation of kind %s" % b["kind"])
        return 0
    finally:
        S.close()
        shutil.rmtree(root, ignore_errors=True)


def report(pid, seed, found, exe, root, tmin):
    """Returns the replay path of the first violation that reproduces exactly, or None."""
    for i, sc, rv in sorted(found, key=lambda f: f[0])[:4]:
        S = simlib.Simulator(exe, root)
        try:
            k1, m1, r1 = kinds_of(pid, S, sc)
            S.close()
            S = simlib.Simulator(exe, root)
            k2, m2, r2 = kinds_of(pid, S, sc)
            if not k1 or k1 != k2 or (r1.text != r2.text and "hang" not in k1):
                print("seed %d.%d: %s does not repeat exactly" % (seed, i, rv[0]))
                continue
            kind = m1[0][0]
            ex = explicit(sc, r1)
            note = "schedule written out"
            if kind not in kinds_of(pid, S, ex)[0]:
                ex, note = sc, "schedule from its seed"
            if kind != "hang":
                S.close()
                S = simlib.Simulator(exe, root, wall_ms=2000)
            small = minimise(pid, S, ex, kind, time.time() + tmin)
            k3, m3, _ = kinds_of(pid, S, small)
            if kind not in k3:
                small, m3 = sc, m1
            p = write_replay(pid, seed, i, kind, m3, small, note)
            r = subprocess.run([sys.executable, str(HERE / "check.py"), "--replay", str(p)], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode != 1:
                print("replay of %s in a fresh process does not reproduce" % p)
                continue
            for k, m in m3[:5]:
                print("%s: %s" % (k, m))
            print("%d operations, %d switches after minimisation" % (len(small["ops"]), len(small.get("sw", ()))))
            return p
        finally:
            S.close()
    return None


def known(pid):
    """Findings listed as known for this property: (scenario file, text)."""
    out = []
    f = VERIF / "known-findings.txt"
    for l in f.read_text().splitlines() if f.exists() else ():
        if l.startswith("KNOWN-FINDING: property=%s " % pid):
            out.append(l)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    pid, tier = a.pid, a.tier
    t0 = time.time()
    exe = build.build()
    tb = time.time() - t0
    total = a.runs or int(RUNS[tier] * SCALE.get(pid, 1))
    budget = a.budget or BUDGET[tier]
    root = simlib.scratch_root()
    try:
        for l in known(pid):
            print(l)
        t1 = time.time()
        best = multiprocessing.Value("l", 1 << 60)
        q = multiprocessing.Queue()
        ps = [multiprocessing.Process(target=worker, args=(pid, a.seed, tier, w, a.jobs, total, t1 + budget, exe, root, best, q))
              for w in range(a.jobs)]
        for p in ps:
            p.start()
        st, faults, ops, ends = (collections.Counter() for _ in range(4))
        hashes, interesting, samples, found = set(), set(), [], []
        rechecks = mism = 0
        complete = True
        err = None
        for _ in ps:
            m = q.get(timeout=budget + 240)
            if m[0] == "err":
                err = m[2]
                continue
            st.update(m[2]); faults.update(m[3]); ops.update(m[4]); hashes |= m[5]; interesting |= m[6]
            ends.update(m[7]); samples += m[8]
            if m[9]:
                found.append(m[9])
            rechecks += m[10]; mism += m[11]
            complete = complete and m[12]
        for p in ps:
            p.join()
        wall = time.time() - t1
        path = None
        rc = 0
        if found:
            path = report(pid, a.seed, found, exe, root, 60 if tier == "quick" else 180)
            rc = 1 if path else 3
        elif err:
            print(err)
            rc = 3
        elif mism:
            print("%d of %d repeated runs differ" % (mism, rechecks))
            rc = 3
        ev = {
            "property": pid, "tier": tier, "seed": a.seed, "level": "exploration",
            "coverage": {
                "evaluations": st["runs"],
                "distinct_nontrivial": len(interesting),
                "rule": "each evaluation is one simulated execution of a generated program on the real runtime, generated with its "
                        "schedule and faults from %s:<VERIF_SEED>.<i>; non-trivial: at least five operations completed and labels "
                        "beyond 0 exist, a fault fired or the process was killed; distinct: different recorded history" % pid,
                "samples": samples[:3],
                "seeds": "%d.0 .. %d.%d" % (a.seed, a.seed, total - 1), "seeds_all_run": complete,
                "runs_per_hour": int(st["runs"] / max(wall, .01) * 3600),
                "simulated_steps": st["steps"],
                "simulated_time": "%d scheduling steps; the system under test reads no clock" % st["steps"],
                "thread_switches": st["switches"],
                "distinct_interleavings": len(hashes),
                "interleaving_measure": "hash over the sequence of (thread, kind of yield point) of a run",
                "faults_fired": dict(sorted(faults.items())),
                "operations": dict(sorted(ops.items())),
                "endings": dict(sorted(ends.items())),
                "judged": {k[2:]: v for k, v in sorted(st.items()) if k.startswith("j_")},
                "repeated_for_determinism": rechecks, "repeats_differing": mism,
                "real_components": ["polytracker/src/polytracker", "polytracker/src/taint_sources", "polytracker/src/taintdag",
                                    "polytracker/include", "dfsan shadow memory runtime", "polytracker/taint_dag.py",
                                    "polytracker/mapping.py", "kernel files, pipes and memory mappings on scratch files"],
                "stub_components": ["instrumented program (generated operations call the wrappers as instrumented code does)",
                                    "mutex, atomics and thread scheduling (one thread at a time, chosen by seed)",
                                    "sockets (socket pairs with simulated addresses)", "failing system calls"],
            },
            "assumptions": ["interleavings at memory accesses of the runtime, locks, atomics and calls; sequentially consistent memory",
                            "the compiler pass emits the calls the generated programs make"],
            "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2), "violations": 1 if path else 0,
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / (pid + ".json")).write_text(json.dumps(ev, indent=1))
        print("%s %s: %d runs, %d steps, %d interleavings, %d faults, %.1fs (+%.1fs build)"
              % (pid, tier, st["runs"], st["steps"], len(hashes), sum(faults.values()), wall, tb))
        if path:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return rc
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
