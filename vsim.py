#!/usr/bin/env python3
"""Driver of the simulator: builds it from /repo's working tree, searches
seeds, gates and reports violations, and writes the evidence files.

  vsim.py check C01 [--tier quick|thorough] [--seed N]
  vsim.py replay FILE        run a replay file against /repo's working tree
  vsim.py determinism        traces of many seeds, twice, at several process counts
  vsim.py setup              check that the simulator builds
"""
import hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
REPO = os.environ.get("VSIM_REPO", "/repo")
BUILD = os.environ.get("VSIM_BUILD", os.path.join(HERE, "build"))
REPLAYS = os.path.join(HERE, "replays")
EVID = os.path.join(HERE, "evidence")
NCPU = min(8, os.cpu_count() or 4)

S1I, S1P = list(range(0, 9)), list(range(9, 16))
STRICT = [28, 29]   # allocators that offer no more than the standard requires
NEST, COMP = list(range(16, 20)), list(range(20, 28))
XI, XP = list(range(30, 36)) + [38, 40], [36, 37, 39, 41]   # ordinary owned types
ALL1 = S1I + S1P + NEST + XI + XP
CFGS = {1: ALL1 + COMP, 2: ALL1 + COMP, 3: ALL1, 4: ALL1, 5: ALL1 + STRICT + COMP, 6: ALL1, 7: S1I + NEST[:2] + XI,
        8: S1I + S1P + NEST + [30, 31, 34, 35, 36, 37], 9: ALL1 + COMP, 10: NEST, 11: S1P + NEST[2:] + XP,
        12: COMP + XI + XP, 13: ALL1 + COMP, 14: S1I + S1P + XI + XP}
# name -> (compiler, language standard, 1 = the C++20 headers, 0 = the C++14 headers)
VARIANTS = {
    "v20": ("g++", "c++20", 1), "v14": ("g++", "c++14", 0),
    "v23": ("g++", "c++23", 1), "v17": ("g++", "c++17", 0),
    "clang20": ("clang++", "c++20", 1), "clang14": ("clang++", "c++14", 0),
}
QUICK, THOROUGH = ["v20", "v14"], ["v20", "v14", "v23", "v17", "clang20", "clang14"]
# batches of 16 runs per variant
BATCHES = {1: 16000, 2: 16000, 3: 24000, 4: 24000, 5: 24000, 6: 24000, 7: 24000, 8: 9000, 9: 14000, 10: 36000, 11: 24000,
           12: 5000, 14: 24000}
DEEP = 12          # the thorough tier runs this many times as many batches
BSIZE = 16
C13_RUNS = {"quick": 80000, "thorough": 800000}
SAN = ["-fsanitize=thread,undefined", "-fno-sanitize=vptr,null", "-fsanitize-trap=undefined"]
REAL = ["indirect.h", "polymorphic.h", "indirect_cxx14.h", "polymorphic_cxx14.h", "feature_check.h (by way of the above)",
        "the C++ standard library's allocator_traits, containers and algorithms"]
STUBS = ["allocators (simulated arenas, fallible)", "owned types (instrumented, fallible)",
         "threads (fibers under a seeded scheduler, scenario 2)", "ThreadSanitizer run time (callbacks feed the simulator)"]


class Broken(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building --
def tree_key():
    h = hashlib.sha256()
    for root, top in ((SIM, True), (REPO, False)):
        files = []
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if not x.startswith(".") and x not in ("build", "bazel-bin", "bazel-out"))
            files += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp", ".ipp", ".inc")) or (top and f.endswith(".cc"))]
        for f in sorted(files):
            with open(f, "rb") as fp:
                h.update(f.encode() + b"\0" + fp.read() + b"\0")
    h.update(repr((VARIANTS, SAN)).encode())
    return h.hexdigest()[:16]


def run_cc(cmd, out):
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], cwd=SIM, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
        os.replace(tmp, out)
    return r.returncode, r.stdout


def build(prop, variants):
    """Returns ({variant: binary}, [(configuration group, variant, message)]).
    Every configuration is a program the headers have to accept: one that
    no longer compiles is reported like a failing run."""
    key = tree_key()
    bd = os.path.join(BUILD, key)
    os.makedirs(bd, exist_ok=True)
    os.utime(bd)
    old = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if re.fullmatch("[0-9a-f]{16}", d)), key=os.path.getmtime)
    for d in old[:-3]:
        shutil.rmtree(d, ignore_errors=True)
    jobs = []
    core = []
    for n in ("rt", "engine", "nested", "compose"):
        o = os.path.join(bd, n + ".o")
        core.append(o)
        if not os.path.exists(o):
            jobs.append((None, None, ["g++", "-std=c++17", "-O2", "-w", "-c", n + ".cc"], o))
    objs = {}
    # the slowest first
    for c in sorted(CFGS[prop], key=lambda c: (c not in COMP, c not in (0, 9), c)):
        for v in variants:
            cc, std, c20 = VARIANTS[v]
            o = os.path.join(bd, "c%d_%s.o" % (c, v))
            objs[(c, v)] = o
            if not os.path.exists(o):
                jobs.append((c, v, [cc, "-std=" + std, "-DSIM_CXX20=%d" % c20, "-DCFG=%d" % c, "-O1", "-g0"] + SAN +
                             ["-Wno-c++17-extensions", "-w", "-I" + REPO, "-I.", "-c", "cfgs.cc"], o))
    if prop == 5 and "clang20" not in variants:
        # allocators which offer no more than they must, with a second compiler
        cc, std, c20 = VARIANTS["clang20"]
        o = os.path.join(bd, "x13_clang20.o")
        if not os.path.exists(o):
            jobs.append((13, "clang20", [cc, "-std=" + std, "-DSIM_CXX20=%d" % c20, "-DCFG=13", "-O0", "-g0", "-w",
                                         "-I" + REPO, "-I.", "-c", "cfgs.cc"], o))
    fails = []
    with ThreadPoolExecutor(NCPU) as ex:
        for (c, v, cmd, o), (rc, txt) in zip(jobs, ex.map(lambda j: run_cc(j[2], j[3]), jobs)):
            if rc:
                if c is None:
                    raise Broken("the simulator does not compile:\n" + txt[:2000])
                rc, txt = run_cc(cmd, o)    # once more, alone
                if rc:
                    err = [l for l in txt.splitlines() if "error" in l]
                    if rc < 0 or not err or "internal compiler error" in txt or "Killed" in txt:
                        raise Broken("the compiler failed:\n" + txt[-2000:])
                    fails.append((c, v, "\n".join(err[:6])))
                    objs.pop((c, v), None)
    bins = {}
    for v in variants:
        os_ = [o for (c, w), o in sorted(objs.items()) if w == v]
        if not os_:
            continue
        b = os.path.join(bd, "sim_%s_p%d" % (v, prop))
        stamp = b + ".list"
        want = "\n".join(os_)
        if not (os.path.exists(b) and os.path.exists(stamp) and open(stamp).read() == want):
            rc, txt = run_cc(["g++"] + core + os_, b)
            if rc:
                raise Broken("the simulator does not link:\n" + txt[:2000])
            with open(stamp, "w") as f:
                f.write(want)
        bins[v] = b
    return bins, fails


# ------------------------------------------------------------- known findings --
def known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) replay=(\S+) class=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    return out


# --------------------------------------------------------------------- replay --
def replay_once(binary, prop, path):
    r = subprocess.run([binary, "replay", "--prop", str(prop), path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    return r.returncode, r.stdout


def digest_file(binary, path):
    r = subprocess.run([binary, "digest", "--prop", "13", "--plan", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
    if r.returncode:
        raise Broken("digest failed")
    return [l for l in r.stdout.splitlines() if not l.startswith("STAT ")]


def first_diff(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else "(nothing)"
        y = b[i] if i < len(b) else "(nothing)"
        if x != y:
            return i, x, y
    return None


def op_of(line):
    m = re.match(r"\d+ (\S+) ", line)
    return m.group(1) if m else line.split()[0]


# ---------------------------------------------------------------------- search --
def search(pid, prop, tier, seed, bins, tmp):
    nb = BATCHES[prop] * (DEEP if tier == "thorough" else 1)
    cap = 200 if tier == "quick" else 760 / max(1, (len(bins) + 1) // 2)
    res, found, errors = [], [], []
    names = list(bins)
    for g in range(0, len(names), 2):   # two variants at a time, four workers each
        procs = []
        nw = max(1, NCPU // len(names[g:g + 2]))
        for v in names[g:g + 2]:
            stop = os.path.join(tmp, "stop." + v)
            with open(stop, "wb") as f:
                f.write(b"\0" * 4096)
            for w in range(nw):
                out, setf, rep = (os.path.join(tmp, "%s.%s.%d" % (x, v, w)) for x in ("out", "set", "replay"))
                cmd = [bins[v], "search", "--prop", str(prop), "--variant", v, "--base", str(seed), "--batches", str(nb),
                       "--batch", str(BSIZE), "--workers", str(nw), "--worker", str(w), "--seconds", str(cap), "--out", out,
                       "--set", setf, "--replay", rep, "--stop", stop]
                procs.append((v, out, setf, rep, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        for v, out, setf, rep, p in procs:
            err = p.communicate()[1]
            if p.returncode not in (0, 1) or not os.path.exists(out):
                errors.append("%s worker ended with status %s: %s" % (v, p.returncode, err[-600:]))
                continue
            if err.strip():
                log("[%s] %s" % (v, err.strip()[:600]))
            o = json.load(open(out))
            o["variant"] = v
            o["set"] = setf
            res.append(o)
            if o["found"] == 1:
                found.append((o["batch"], names.index(v), v, rep, o))
        if found:
            break
    return res, sorted(found, key=lambda f: f[:2]), errors


def distinct(res):
    s = [set(), set(), set()]
    for o in res:
        try:
            d = open(o["set"], "rb").read()
        except OSError:
            continue
        for (x,) in struct.iter_unpack("<Q", d):
            s[x & 3].add(x) if (x & 3) < 3 else None
    return [len(x) for x in s]


def save_replay(pid, seed, text):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-seed%d.txt" % (pid, seed))
    with open(path, "w") as f:
        f.write(text)
    return path


def nocompile(pid, seed, fails, cov):
    text = "\n".join(["vsim-replay 1", "property " + pid, "violation nocompile"] +
                     ["group %d %s" % f[:2] for f in fails] + ["message " + l for f in fails[:4] for l in f[2].splitlines()]) + "\n"
    log(text)
    cov["violation"] = {"class": "nocompile", "groups": ["%d %s" % f[:2] for f in fails]}
    return "VIOLATION property=%s replay=%s" % (pid, save_replay(pid, seed, text))


def write_evidence(pid, tier, seed, cov, t0, violations, assumptions):
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 3), "violations": violations}
    p = os.path.join(EVID, pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


ASSUME = ["search over seeds samples the space of histories, faults and schedules; it does not exhaust it",
          "owned types and allocators are the simulator's; the headers are compiled unchanged from the working tree",
          "threads are simulated under sequentially consistent interleaving with happens-before race detection"]


def check(pid, tier, seed):
    t0 = time.time()
    prop = int(pid[1:])
    variants = QUICK if tier == "quick" else THOROUGH
    if prop == 13:
        return check13(pid, tier, seed, t0)
    bins, fails = build(prop, variants)
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="vsim.")
    try:
        ts = time.time()
        res, found, errors = search(pid, prop, tier, seed, bins, tmp)
        ts = time.time() - ts
        tot = lambda k: sum(o[k] for o in res)
        faults, ops = {}, {}
        for o in res:
            for k, n in o["faults"].items():
                faults[k] = faults.get(k, 0) + n
            for k, n in o["opcount"].items():
                ops[k] = ops.get(k, 0) + n
        dt, di, dr = distinct(res)
        samples = []
        for i in (0, 1, 5) if bins else ():
            b0 = bins[next(iter(bins))]
            s = seed * 1000003 + i
            txt = subprocess.run([b0, "plan", "--prop", str(prop), "--seed", str(s)], stdout=subprocess.PIPE, text=True).stdout
            samples.append({"seed": s, "plan": txt.strip().split("\n")[:40]})
        cov = {
            "evaluations": tot("runs"),
            "distinct_nontrivial": dr,
            "rule": "one evaluation is one simulated run of a plan (configuration, operations, faults and schedule drawn from one seed); "
                    "runs count as distinct by the hash of their event trace (every instrumented access, fault point and outcome) and "
                    "configuration, and as non-trivial if at least three operations took effect; counted as a union over all workers",
            "samples": samples,
            "seeds": {"base": seed, "first": seed * 1000003, "batches_per_variant": max([0] + [o["batches"] for o in res]) * (NCPU // max(1, min(2, len(bins))))},
            "runs_per_hour": int(tot("runs") / max(ts, 1e-6) * 3600),
            "seeds_per_hour": int(tot("runs") / max(ts, 1e-6) * 3600 / max(1, len(bins))),
            "simulated_time": {"unit": "instrumented events (memory accesses and fault points of code under test)", "total": tot("steps")},
            "operations": tot("ops"), "operations_failed_by_injected_fault": tot("failed_ops"), "operations_not_applicable": tot("skipped"),
            "faults_fired": faults, "operations_by_kind": ops,
            "distinct_transitions": dt, "transition_rule": "operation kind and form, outcome, failing point, and abstract state before",
            "schedule_points": tot("sched_points"), "context_switches": tot("switches"), "distinct_interleavings": di,
            "variants": {v: {"runs": sum(o["runs"] for o in res if o["variant"] == v)} for v in bins},
            "real_components": REAL, "stubbed_components": STUBS,
            "build_seconds": round(tb, 2), "search_seconds": round(ts, 2),
        }
        viol = 0
        line = None
        nonrep = []
        for b, _, v, rep, o in found:
            head = open(rep).read()
            want = (re.search(r"^violation (\S+)", head, re.M).group(1), re.search(r"^trace (\S+)", head, re.M).group(1))
            ok = 0
            for _ in range(2):
                rc, out = replay_once(bins[v], prop, rep)
                m = re.search(r"class=(\S+) .*trace=(\S+)", out)
                ok += rc == 1 and bool(m) and m.groups() == want
            if ok != 2:
                nonrep.append("%s: %s" % (v, out.strip()))
                continue
            path = save_replay(pid, seed, head)
            log("\n".join(head.strip().split("\n")[:60]))
            line = "VIOLATION property=%s replay=%s" % (pid, path)
            viol = 1
            cov["violation"] = {"class": o["class"], "operation": o["op"], "variant": v, "batch": b, "operations_after_minimising": o["ops_min"]}
            break
        if fails and not line:
            line, viol = nocompile(pid, seed, fails, cov), 1
        kn = []
        for rep, cls, what in known(pid):
            for v in bins:
                rc, out = replay_once(bins[v], prop, os.path.join(HERE, rep))
                if rc == 1 and "class=%s " % cls in out:
                    kn.append({"replay": rep, "variant": v})
                    if sum(k["replay"] == rep for k in kn) > 1:
                        continue
                    print("KNOWN-FINDING: property=%s %s (%s)" % (pid, what, rep), flush=True)
                elif rc == 1:
                    errors.append("the probe %s fails differently in %s: %s" % (rep, v, out.strip()))
        cov["known_findings_reproduced"] = kn
        write_evidence(pid, tier, seed, cov, t0, viol, ASSUME)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if line:
        print(line, flush=True)
        return 1
    if nonrep:
        raise Broken("a violation did not reproduce: " + "; ".join(nonrep))
    if errors:
        raise Broken("; ".join(errors))
    log("%s: %d runs (%d distinct), %d operations, %d injected failures, build %.1f s, search %.1f s" %
        (pid, cov["evaluations"], cov["distinct_nontrivial"], cov["operations"], sum(faults.values()), tb, ts))
    return 0


# ------------------------------------------------------------------------- C13 --
def check13(pid, tier, seed, t0):
    pairs = [("v20", "v14")] if tier == "quick" else [("v20", "v14"), ("v23", "v17"), ("clang20", "clang14")]
    bins, fails = build(13, [v for p in pairs for v in p])
    if fails:  # the two variants would not draw the same plans
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "nothing was run: a configuration does not compile", "samples": []}
        line = nocompile(pid, seed, fails, cov)
        write_evidence(pid, tier, seed, cov, t0, 1, ASSUME)
        print(line, flush=True)
        return 1
    tb = time.time() - t0
    total = C13_RUNS[tier]
    nchunk = max(4, total // 2500)
    per = total // nchunk
    cap = t0 + (240 if tier == "quick" else 780)
    ts = time.time()

    def chunk(job):
        v, first = job
        if time.time() > cap:
            return None
        r = subprocess.run([bins[v], "digest", "--prop", "13", "--base", str(seed), "--first", str(first), "--count", str(per)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise Broken("digest failed: " + r.stderr[-400:])
        ls = r.stdout.splitlines()
        return ls[:-1], json.loads(ls[-1][5:])

    stats, div = [], None
    runs = 0
    hashes = set()
    for a, b in pairs:
        jobs = [(v, c * per) for c in range(nchunk) for v in (a, b)]
        with ThreadPoolExecutor(NCPU) as ex:
            got = list(ex.map(chunk, jobs))
        for c in range(nchunk):
            x, y = got[2 * c], got[2 * c + 1]
            if x is None or y is None:
                continue
            stats += [(a, x[1]), (b, y[1])]
            runs += len(x[0])
            for l in x[0]:
                hashes.add(l.split()[-1])
            if div is None:
                d = first_diff(x[0], y[0])
                if d:
                    div = (a, b, int(d[1].split()[0] if d[1][0].isdigit() else d[2].split()[0]))
        if div:
            break
    ts = time.time() - ts
    line, viol, extra = None, 0, {}
    if div:
        a, b, s = div
        path, extra = minimise13(pid, seed, bins, a, b, s)
        line = "VIOLATION property=%s replay=%s" % (pid, path)
        viol = 1
    samples = []
    for i in (0, 1, 2):
        sd = seed * 1000003 + i
        txt = subprocess.run([bins["v14"], "plan", "--prop", "13", "--seed", str(sd)], stdout=subprocess.PIPE, text=True).stdout
        samples.append({"seed": sd, "plan": txt.strip().split("\n")[:40]})
    faults = {}
    for v, st in stats:
        for k, n in st["faults"].items():
            faults[k] = faults.get(k, 0) + n
    cov = {
        "evaluations": 2 * runs, "distinct_nontrivial": len(hashes),
        "rule": "one evaluation is one simulated run of a plan in one of the two implementations; every plan is run in both and the observable "
                "histories (outcome, exception, values, types, valueless states, allocators, operations applied to owned objects, after every "
                "operation) are compared; distinct by the hash of that history",
        "samples": samples, "pairs_compared": runs, "runs_per_hour": int(2 * runs / max(ts, 1e-6) * 3600),
        "seeds_per_hour": int(runs / max(ts, 1e-6) * 3600), "seeds": {"base": seed, "first": seed * 1000003, "count": total},
        "simulated_time": {"unit": "instrumented events", "total": sum(st["steps"] for _, st in stats)},
        "operations": sum(st["ops"] for _, st in stats), "operations_failed_by_injected_fault": sum(st["failed_ops"] for _, st in stats),
        "operations_not_applicable": sum(st["skipped"] for _, st in stats), "faults_fired": faults,
        "distinct_transitions": max([0] + [st["ndistinct"] for _, st in stats]),
        "variants": {v: {"runs": sum(st["runs"] for w, st in stats if w == v)} for v in bins},
        "real_components": REAL, "stubbed_components": STUBS, "build_seconds": round(tb, 2), "search_seconds": round(ts, 2)}
    if extra:
        cov["violation"] = extra
    write_evidence(pid, tier, seed, cov, t0, viol, ASSUME + ["faults are placed at the first failure point of an operation, where both implementations must agree; differences in the number of later points are not observable behaviour"])
    if line:
        print(line, flush=True)
        return 1
    log("%s: %d plans compared, build %.1f s, search %.1f s" % (pid, runs, tb, ts))
    return 0


def minimise13(pid, seed, bins, a, b, s):
    tmp = tempfile.mkdtemp(prefix="vsim13.")
    deadline = time.time() + 90
    try:
        txt = subprocess.run([bins[a], "plan", "--prop", "13", "--seed", str(s)], stdout=subprocess.PIPE, text=True).stdout.strip().split("\n")
        head, ops, tail = txt[0], txt[1:-1], txt[-1]
        f = os.path.join(tmp, "p")

        def diff(h, o):
            with open(f, "w") as fp:
                fp.write("\n".join([h] + o + [tail]) + "\n")
            return first_diff(digest_file(bins[a], f), digest_file(bins[b], f))
        d0 = diff(head, ops)
        if not d0:
            raise Broken("a divergence did not reproduce")
        kind = op_of(d0[1])

        def still(h, o):
            if time.time() > deadline:
                return False
            d = diff(h, o)
            return bool(d) and op_of(d[1]) == kind
        n = max(1, len(ops) // 2)
        while True:
            i, any_ = 0, False
            while i < len(ops):
                c = ops[:i] + ops[i + n:]
                if still(head, c):
                    ops, any_ = c, True
                else:
                    i += n
            if n == 1 and not any_:
                break
            n = max(1, n // 2)
        for i in range(len(ops)):
            for rx, to in ((r" fault=\S+", ""), (r" w=-?\d+", " w=0"), (r" v=-?\d+", " v=1"), (r" flav=\d+", " flav=0")):
                c = re.sub(rx, to, ops[i])
                if c != ops[i] and still(head, ops[:i] + [c] + ops[i + 1:]):
                    ops = ops[:i] + [c] + ops[i + 1:]
        d = diff(head, ops)
        if not d or diff(head, ops) != d:
            raise Broken("a divergence did not reproduce")
        text = "\n".join(["vsim-replay 1", "property " + pid, "variant %s+%s" % (a, b), "seed %d" % s, "violation diverge", "operation " + kind,
                          "message %s: %s" % (a, d[1]), "message %s: %s" % (b, d[2]), head] + ops + [tail]) + "\n"
        log(text)
        return save_replay(pid, seed, text), {"class": "diverge", "operation": kind, "variants": [a, b], "operations_after_minimising": len(ops)}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# --------------------------------------------------------------------- replay --
def replay(path):
    head = open(path).read()
    pid = re.search(r"^property (C\d\d)", head, re.M).group(1)
    m = re.search(r"^variant (\S+)", head, re.M)
    vs = m.group(1).split("+") if m else ["v20", "v14"]
    prop = int(pid[1:])
    if "violation nocompile" in head:
        want = {(int(c), v) for c, v in re.findall(r"^group (\d+) (\S+)", head, re.M)}
        got = {(c, v) for c, v, _ in build(prop, sorted({v for _, v in want}))[1]}
        print("REPRODUCED" if want & got else "CLEAN")
        return 1 if want & got else 0
    bins, _ = build(prop, vs)
    if prop == 13:
        d = first_diff(digest_file(bins[vs[0]], path), digest_file(bins[vs[1]], path))
        if d:
            print("REPRODUCED\n%s: %s\n%s: %s" % (vs[0], d[1], vs[1], d[2]))
            return 1
        print("CLEAN")
        return 0
    worst = 0
    for v in vs:
        rc, out = replay_once(bins[v], prop, path)
        print("[%s] %s" % (v, out.strip()))
        worst = max(worst, rc)
    return worst


# ---------------------------------------------------------------- determinism --
def determinism():
    """Traces of the same seeds from separate processes, split differently."""
    bad = 0
    for prop in sorted(CFGS):
        bins, _ = build(prop, QUICK)
        for v, b in bins.items():
            n = 1200

            def part(fc):
                return subprocess.run([b, "traces", "--prop", str(prop), "--base", "7", "--first", str(fc[0]), "--count", str(fc[1])],
                                      stdout=subprocess.PIPE, text=True).stdout.splitlines()
            outs = []
            for k in (1, 3, 24):
                c = n // k
                with ThreadPoolExecutor(NCPU) as ex:
                    outs.append([l for p in ex.map(part, [(i * c, c) for i in range(k)]) for l in p])
            same = outs[0] == outs[1] == outs[2] and len(outs[0]) == n
            bad += not same
            print("C%02d %s: %d seeds, 3 splits over 28 processes: %s" % (prop, v, n, "identical" if same else "DIFFERENT"), flush=True)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 3
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    try:
        if a[0] == "check":
            return check(a[1], opt("--tier", os.environ.get("VERIF_TIER") or "quick"), int(opt("--seed", os.environ.get("VERIF_SEED") or "1")))
        if a[0] == "replay":
            return replay(a[1])
        if a[0] == "determinism":
            return determinism()
        if a[0] == "setup":
            bins, fails = build(10, ["v20"])
            print("built " + ", ".join(bins.values()))
            return 0
    except Broken as e:
        log("ERROR: %s" % e)
        return 3
    return 3


if __name__ == "__main__":
    sys.exit(main())
