#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]

Builds the harness against /repo's working tree, runs the property's workload under
its monitors, writes evidence/<id>.json and gives the verdict:
  exit 0  held on everything observed
  exit 1  "VIOLATION property=<id> replay=<path>"
  exit 2  no verdict (build or harness error, out of memory, nothing observed)
"""
import collections, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
H = os.path.join(V, "harness")
TGT = "x86_64-unknown-linux-gnu"
T0 = time.time()
NCPU = os.cpu_count() or 8

# name: toolchain, cargo profile, features (None: default set), extra cargo args, rustflags, env at run time
BUILDS = {
    "dev":     ("stable", "dev", None, [], "", {}),
    "release": ("stable", "release", None, [], "", {}),
    "dev-thr": ("stable", "dev", "f_std,f_serde,f_rand,f_threads", [], "", {}),
    "release-thr": ("stable", "release", "f_std,f_serde,f_rand,f_threads", [], "", {}),
    "asan":    ("nightly", "asan", "f_std,f_serde,f_rand,plain_alloc", ["--target", TGT], "-Zsanitizer=address",
                {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1"}),
    "tsan":    ("nightly", "asan", "f_std,f_serde,f_rand,plain_alloc,f_threads", ["-Zbuild-std", "--target", TGT], "-Zsanitizer=thread",
                {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1"}),
    # feature matrix
    "unopt":        ("stable", "unopt", None, [], "", {}),
    "dev-none":     ("stable", "dev", "", [], "", {}),
    "release-none": ("stable", "release", "", [], "", {}),
    "dev-std":      ("stable", "dev", "f_std", [], "", {}),
    "release-serde": ("stable", "release", "f_serde", [], "", {}),
    "dev-rand":     ("stable", "dev", "f_rand", [], "", {}),
    "dev-serde-rand": ("stable", "dev", "f_serde,f_rand", [], "", {}),
    "release-std-rand": ("stable", "release", "f_std,f_rand", [], "", {}),
    "unopt-std-serde": ("stable", "unopt", "f_std,f_serde", [], "", {}),
    "unopt-none":   ("stable", "unopt", "", [], "", {}),
    "release-rand": ("stable", "release", "f_rand", [], "", {}),
    "dev-serde":    ("stable", "dev", "f_serde", [], "", {}),
    "release-std":  ("stable", "release", "f_std", [], "", {}),
    "size":         ("stable", "size", None, [], "", {}),
}
MIRI_FLAGS = "-Zmiri-disable-isolation -Zmiri-tree-borrows"

class NoVerdict(Exception):
    pass

def env_base():
    e = {k: v for k, v in os.environ.items() if not (k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "MIRIFLAGS", "RUSTC"))}
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/bin:" + os.path.join(e["HOME"], ".cargo/bin") + ":" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    return e

def source_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f == "Cargo.lock":
                continue
            p = os.path.join(base, f)
            h.update(p.encode())
            try:
                h.update(open(p, "rb").read())
            except OSError:
                pass
    return h.hexdigest()

def literals():
    """The integer literals in the sources under test (their test modules aside), as the argument
    --literals of the harness: all/those not in harness/literals.txt. They only steer the choice of inputs."""
    found = set()
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            if f.endswith(".rs"):
                try:
                    t = open(os.path.join(base, f), encoding="utf-8", errors="replace").read()
                except OSError:
                    continue
                t = re.split(r"#\[cfg\(test\)\]\s*mod tests", t)[0]
                t = re.sub(r"//[^\n]*", " ", t)
                for m in re.finditer(r"(?<!\w)(?<!(?<!\.)\.)(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:_?[ui](?:8|16|32|64|128|size))?(?!\w|\.\d)", t):
                    try:
                        found.add(int(m.group(1).replace("_", ""), 0 if m.group(1)[:2] in ("0x", "0b", "0o") else 10))
                    except ValueError:
                        pass
                for a, op, b in re.findall(r"\b(\d+)\s*(<<|\*)\s*(\d+)\b", t):
                    if int(b) < 64 or op == "*":
                        found.add(int(a) << int(b) if op == "<<" else int(a) * int(b))
    found = {x for x in found if 3 <= x < 1 << 64}
    try:
        old = {int(x) for x in open(os.path.join(H, "literals.txt")).read().split()}
    except OSError:
        old = found
    return found, found - old

def literal_args():
    found, new = literals()
    return ["--literals", ",".join(map(str, sorted(found)[:400])) + "/" + ",".join(map(str, sorted(new)[:100]))]

def tdir(name):
    return os.path.join(H, "target-" + name)

def fresh(name, toolchain, args, env, miri=False):
    """Make sure the crate is recompiled when its sources differ from the last build."""
    d = tdir(name)
    os.makedirs(d, exist_ok=True)
    stamp = os.path.join(d, "apint.stamp")
    now = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now:
        if old is not None or len(os.listdir(d)) > 0:
            for base, dirs, files in os.walk(d):
                if os.path.basename(base) == ".fingerprint":
                    for x in list(dirs):
                        if x.startswith("apint-"):
                            shutil.rmtree(os.path.join(base, x), ignore_errors=True)
        open(stamp, "w").write(now)

def build(name):
    tc, profile, feats, extra, flags, _ = BUILDS[name]
    e = env_base()
    if flags:
        e["RUSTFLAGS"] = flags
    fresh(name, tc, extra, e)
    cmd = ["cargo", "+" + tc, "build", "--offline", "--profile", profile, "--target-dir", tdir(name)] + extra
    if feats is not None:
        cmd += ["--no-default-features", "--features", feats]
    p = subprocess.run(cmd, cwd=H, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    sub = {"dev": "debug"}.get(profile, profile)
    path = os.path.join(tdir(name), TGT if "--target" in extra else "", sub, "harness")
    return p.returncode == 0, p.stdout, path

def build_all(names):
    res = {}
    def one(n):
        res[n] = build(n)
    ths = [threading.Thread(target=one, args=(n,)) for n in names]
    sem = []
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return res

class Job:
    def __init__(self, build, args, env=None, mem=6 << 30, wall=None, cmd=None):
        self.build, self.args, self.env, self.mem, self.wall, self.cmd = build, args, env or {}, mem, wall, cmd
        self.rc = self.err = self.out = None
        self.timed_out = False

def run_job(job, exe, scratch, idx, stop):
    out = os.path.join(scratch, "%d.json" % idx)
    dis = os.path.join(scratch, "%d.dis" % idx)
    log = os.path.join(scratch, "%d.err" % idx)
    cmd = (job.cmd or [exe]) + job.args + ["--out", out, "--distinct", dis]
    e = env_base()
    e.update(job.env)
    def limit():
        os.setsid()
        if job.mem:
            resource.setrlimit(resource.RLIMIT_AS, (job.mem, job.mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, cwd=H, env=e, stdout=subprocess.DEVNULL, stderr=lf, preexec_fn=limit)
        t = time.time()
        while True:
            try:
                p.wait(0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            if stop.is_set() or (job.wall and time.time() - t > job.wall):
                job.timed_out = not stop.is_set()
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
    job.rc = p.returncode
    job.stopped = stop.is_set() and job.rc == -9
    job.cmdline = cmd
    job.dis = dis
    b = open(log, "rb").read()
    job.err = (b if len(b) < 400000 else b[:200000] + b"\n...\n" + b[-200000:]).decode("utf-8", "replace")
    job.out = None
    if os.path.exists(out):
        try:
            job.out = json.load(open(out))
        except ValueError:
            pass

def run_jobs(jobs, exes, scratch, width=NCPU, decisive=lambda j: j.rc not in (0, None)):
    stop = threading.Event()
    q = collections.deque(enumerate(jobs))
    lock = threading.Lock()
    base = len(os.listdir(scratch)) * 100
    def worker():
        while True:
            with lock:
                if not q or stop.is_set():
                    return
                i, j = q.popleft()
            run_job(j, exes.get(j.build), scratch, base + i, stop)
            if decisive(j) and not j.stopped:
                stop.set()
    ths = [threading.Thread(target=worker) for _ in range(min(width, len(jobs)))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()

def trace_tail(job, exe):
    """Reruns a crashing job with a trace; returns (crashed again, last events)."""
    e = env_base()
    e.update(job.env)
    def limit():
        os.setsid()
        if job.mem:
            resource.setrlimit(resource.RLIMIT_AS, (job.mem, job.mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen([exe] + job.args + ["--trace"], cwd=H, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=limit, text=True, errors="replace")
    killer = threading.Timer(240, lambda: os.killpg(p.pid, signal.SIGKILL))
    killer.start()
    last = collections.deque(maxlen=40)
    for line in p.stderr:
        last.append(line.rstrip()[:2000])
    p.wait()
    killer.cancel()
    return p.returncode, list(last)

def judge(pid, jobs, exes):
    """First violation among the jobs as (job, kind, detail), or None; raises NoVerdict."""
    known_ids = known(pid)
    unsure = []
    for j in jobs:
        if j.rc is None or getattr(j, "stopped", False):
            continue
        if j.rc == 1 and j.out and j.out.get("violation"):
            return j, "monitor", j.out["violation"]
        if j.build == "miri" and j.rc != 0:
            m = re.search(r"^error: (Undefined Behavior|memory leaked|.*[Dd]ata race).*", j.err, re.M)
            if m and "/repo/src/" in j.err[m.start():]:
                return j, "miri", j.err[m.start():m.start() + 6000]
            unsure.append("miri: " + "\n".join(l for l in j.err.splitlines() if l.startswith("error"))[:2000] + j.err[-1500:])
            continue
        if j.build == "asan" and "ERROR: AddressSanitizer" in j.err:
            k = j.err.index("ERROR: AddressSanitizer")
            return j, "AddressSanitizer", j.err[k:k + 6000]
        if j.build == "tsan" and "WARNING: ThreadSanitizer" in j.err:
            k = j.err.index("WARNING: ThreadSanitizer")
            rep = j.err[k:k + 12000]
            if "/repo/src/" in rep or "apint::" in rep:
                return j, "ThreadSanitizer", rep
            unsure.append(rep)
            continue
        if j.rc == 3 and j.out and "hang" in j.out:
            rc, last = trace_tail(j, exes[j.build])
            if rc == 3:
                return j, "no termination", j.out["hang"] + "\nlast calls:\n" + "\n".join(last[-5:])
            unsure.append("hang not reproduced: " + j.out["hang"])
            continue
        if j.rc < 0 and j.rc != -9:
            rc, last = trace_tail(j, exes[j.build])
            if rc < 0 and rc != -9:
                return j, "crash", "the process died of signal %d, again in a rerun (%d); last calls:\n%s\n%s" % (-j.rc, -rc, "\n".join(last[-5:]), j.err[-1500:])
            unsure.append("signal %d not reproduced: %s" % (-j.rc, j.err[-1500:]))
            continue
        if j.rc != 0 or j.timed_out or not j.out:
            unsure.append("exit %s%s: %s" % (j.rc, " (time limit)" if j.timed_out else "", j.err[-1500:]))
            continue
        for k in j.out.get("known", []):
            if k not in known_ids:
                return j, "monitor", "unlisted defect: " + k
    if unsure:
        raise NoVerdict(unsure[0])
    return None

def known(pid):
    r = {}
    f = os.path.join(V, "known-findings.txt")
    for line in open(f):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            r[m.group(2)] = m.group(3).strip()
    return r

def violation(pid, tier, seed, job, kind, detail, cov):
    d = os.path.join(V, "out")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + ".replay.txt")
    with open(path, "w") as f:
        f.write("property: %s\nmonitor: %s\n" % (pid, kind))
        if job is not None:
            f.write("build: %s\nenvironment: %s\nrerun (in %s, after check.py built it): %s\n" % (job.build, job.env, H, " ".join(job.cmdline)))
        f.write("\n%s\n" % detail)
    print("%s: %s" % (kind, detail[:3000]))
    evidence(pid, tier, seed, cov, 1)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    sys.exit(1)

def evidence(pid, tier, seed, cov, violations):
    d = os.path.join(V, "evidence")
    os.makedirs(d, exist_ok=True)
    e = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - T0, 2), violations=violations)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(e, f, indent=1)

ASSUME = ["x86_64, 64-bit usize, the installed toolchains",
          "the reference model in harness/src/model.rs (self-tested against 128-bit machine arithmetic and algebraic laws on every run)",
          "held on the executions observed, not verified for all inputs"]

RULE = {
    "C01": "an evaluation is one arithmetic call compared with the reference model in value, width and both operands; distinct: (operation, call form, width class, digit-pattern class of both operands, outcome kind)",
    "C02": "an evaluation is one division or remainder call compared with schoolbook division of the model; dividends are built from chosen quotients, divisors and remainders so that every digit-estimate correction is met; distinct: (operation, form, width class, operand classes, outcome kind)",
    "C03": "an evaluation is one shift call compared bit by bit with the model; distinct: (operation, form, width class, value class, amount mod 64, outcome kind)",
    "C04": "an evaluation is one bitwise, bit-access or counting call compared with the model; distinct: (operation, form, width class, value classes or position mod 64, outcome kind)",
    "C05": "an evaluation is one cast or assignment compared with the model; distinct: (operation, form, width class, value class, target mod 64, outcome kind)",
    "C06": "an evaluation is one construction or primitive conversion compared with the model; distinct: (operation, width class, value class, outcome)",
    "C07": "an evaluation is one comparison, equality or hash on a pair or triple, compared with the order of the model values; distinct: (operation, form, width classes, value classes, outcome)",
    "C08": "an evaluation is one parse or print compared with an independent converter; distinct: (radix or format, length class, character class, outcome)",
    "C09": "an evaluation is one serialization or deserialization (valid, truncated, reordered, ill-typed, failing decoder) judged against the data-format rules; distinct: (format, stream shape, width class, outcome)",
    "C10": "an evaluation is one call in a random history; after it the changed value is compared through all observation channels with one built directly; distinct: (operation, form, width class, value class, outcome)",
    "C11": "an evaluation is one call, mostly with invalid arguments, whose error kind, error data and surviving operands are compared with the specification; distinct: (operation, form, width class, what is invalid, outcome)",
    "C12": "an evaluation is one library call executed under the guarded allocator, AddressSanitizer or Miri; distinct: (operation, form, width class, validity) and distinct history traces",
    "C13": "an evaluation is one call in a history over a pool with held clones and errors, after which every other live value is compared with its snapshot; distinct: (operation, form, width class, relation of the operands)",
    "C14": "an evaluation is one call with allocator counts before and after, or the release of one value with its block and byte counts; distinct: (operation, form, width classes, requirement)",
    "C15": "an evaluation is one random draw with a recording, constant, counting or panicking generator; distinct: (entry point, width, generator kind, outcome)",
    "C16": "an evaluation is one operator call compared with the named call on equal operands, including whether it panics; distinct: (operator, type, width class, operand classes, outcome)",
    "C17": "an evaluation is one call on Int or UInt compared with integer arithmetic under the type's sign interpretation; distinct: (operation, form, width class, value classes, outcome)",
    "C18": "an evaluation is one call executed in one build configuration; its outcome enters a digest per operation that must be the same in all configurations; distinct: (operation, configuration) digests compared",
    "C19": "an evaluation is one use of a shared integer by a thread, compared with the sequential result, under the plain build, ThreadSanitizer and Miri's race detector; distinct: (use, width classes)",
    "C20": "an evaluation is one construction of a width, radix, position or amount compared with the specification; distinct: (type, number)",
}

def aggregate(pid, jobs, exes):
    ev = 0
    per_build, counters, per_op, samples = collections.Counter(), collections.Counter(), collections.Counter(), []
    for j in jobs:
        if not j.out or "events" not in j.out:
            continue
        ev += j.out["events"]
        per_build[j.build] += j.out["events"]
        counters.update(j.out["counters"])
        per_op.update(j.out["per_op"])
        for s in j.out["samples"][:1]:
            if len(samples) < 6:
                samples.append("[%s] %s" % (j.build, s))
    exe = next((x for x in exes.values() if x and os.path.exists(x)), None)
    files = [j.dis for j in jobs if getattr(j, "dis", None) and os.path.exists(j.dis)]
    d = 0
    if exe and files:
        d = int(subprocess.run([exe, "merge"] + files, stdout=subprocess.PIPE, text=True).stdout.strip() or 0)
    lo = sorted(per_op.items(), key=lambda x: x[1])[:5]
    return dict(evaluations=ev, distinct_nontrivial=d, rule=RULE[pid], samples=samples or ["none recorded"],
                calls_per_build=dict(per_build), operations_observed=len(per_op), least_observed_operations=dict(lo),
                counters=dict(counters), runs=len([j for j in jobs if j.out]))

SCALE = dict(C01=5, C02=5, C03=12, C04=5, C05=8, C06=10, C07=3, C08=15, C09=15, C10=3, C11=10, C13=10, C14=10, C15=5, C16=3, C17=3, C20=8)  # per property multiplier of the quick workload

def main():
    pid = sys.argv[1]
    if pid == "--setup":
        # nothing to keep: every check builds what it needs; fail early if that cannot work
        ok, log, _ = build("dev")
        print(log[-2000:] if not ok else "harness builds")
        sys.exit(0 if ok else 2)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    old = os.path.join(V, "evidence", pid + ".json")
    if os.path.exists(old):
        os.remove(old)
    scratch = tempfile.mkdtemp(prefix="apint-check-")
    try:
        run(pid, tier, seed, scratch)
    except NoVerdict as e:
        print("NO VERDICT for %s: %s" % (pid, e))
        sys.exit(2)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def need(built):
    for n, (ok, log, path) in built.items():
        if not ok:
            raise NoVerdict("build %s failed:\n%s" % (n, log[-3000:]))
    return {n: b[2] for n, b in built.items()}

def miri_prepare(feats):
    e = env_base()
    e["MIRIFLAGS"] = MIRI_FLAGS
    fresh("miri", None, None, None)
    cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--no-default-features", "--features", feats, "--target-dir", tdir("miri"), "--"]
    p = subprocess.run(cmd + ["merge"], cwd=H, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout, cmd

def run(pid, tier, seed, scratch):
    thorough = tier == "thorough"
    if pid == "C18":
        return run_c18(tier, seed, scratch)
    secs = 420 if thorough else 45
    lits = literal_args()
    def std(builds, secs=secs, shards=8, extra=[], seedoff=0, mem=6 << 30):
        js = []
        for k, b in enumerate(builds):
            for i in range(shards):
                a = ["--prop", pid, "--seed", str(seed + 1000003 * k + seedoff), "--shard", str(i), "--shards", str(shards),
                     "--secs", str(secs), "--tier", tier, "--hang", "20", "--scale", str(SCALE.get(pid, 1))] + lits + extra
                js.append(Job(b, a, env=BUILDS[b][5] if b in BUILDS else {}, mem=mem, wall=secs + 200))
        return js
    if pid == "C19":
        return run_c19(tier, seed, scratch, std)
    # a smaller share of the same workload with the optional features off
    bare = {"C09": "release-serde", "C15": "release-rand"}.get(pid, "release-none")
    names = ["dev", "release", bare] + (["asan"] if pid == "C12" else [])
    miri = {}
    th = None
    if pid == "C12":
        th = threading.Thread(target=lambda: miri.update(r=miri_prepare("f_std,f_serde,f_rand,plain_alloc")))
        th.start()
    exes = need(build_all(names))
    if th:
        th.join()
    jobs = std(["dev", "release"], secs=(secs if pid != "C12" else secs // 2 if not thorough else secs))
    jobs += std([bare], secs=secs if pid != "C12" else secs // 2 if not thorough else secs, seedoff=55)[:2]
    if pid == "C12":
        # another sanitizer, another seed: same workload
        jobs += std(["asan"], secs=20 if not thorough else secs, seedoff=77, mem=None)
    run_jobs(jobs, exes, scratch)
    finish(pid, tier, seed, jobs, exes, scratch, thorough, miri.get("r"), 110 if not thorough else 500)

def miri_jobs(pid, seed, cmd, secs, n, limit, many=False):
    js = []
    # only the literals the baseline does not have: reading them is slow here
    lits = ["--literals", "/" + literal_args()[1].split("/")[1]]
    for i in range(n):
        e = {"MIRIFLAGS": MIRI_FLAGS + " -Zmiri-seed=%d" % (seed * 1000 + i) + (" -Zmiri-preemption-rate=0.1" if many else "")}
        js.append(Job("miri", ["--prop", pid, "--seed", str(seed + 31), "--shard", str(i), "--shards", str(n), "--secs", str(secs), "--limit", str(limit)] + lits,
                      env=e, mem=None, wall=secs + 300, cmd=cmd))
    return js

def finish(pid, tier, seed, jobs, exes, scratch, thorough, mir, mir_secs):
    bad = judge_or_defer(pid, jobs, exes)
    if bad:
        violation(pid, tier, seed, *bad, aggregate(pid, jobs, exes))
    if mir is not None:
        ok, log, cmd = mir
        if not ok:
            raise NoVerdict("miri build failed:\n" + log[-3000:])
        mj = miri_jobs(pid, seed, cmd, mir_secs, NCPU, 100000 if pid == "C12" else 100000, many=pid == "C19")
        run_jobs(mj, exes, scratch)
        bad = judge(pid, mj, exes)
        jobs = jobs + mj
        if bad:
            violation(pid, tier, seed, *bad, aggregate(pid, jobs, exes))
    cov = aggregate(pid, jobs, exes)
    if cov["evaluations"] < 1000 or cov["distinct_nontrivial"] < 20:
        raise NoVerdict("hardly anything was observed: %s" % cov)
    evidence(pid, tier, seed, cov, 0)
    seen = set(k for j in jobs if j.out for k in j.out.get("known", []))
    for k, what in known(pid).items():
        if k in seen:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
    print("%s held on %d evaluations (%d distinct), %.0f s" % (pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - T0))

def judge_or_defer(pid, jobs, exes):
    return judge(pid, jobs, exes)

def run_c19(tier, seed, scratch, std):
    thorough = tier == "thorough"
    miri = {}
    th = threading.Thread(target=lambda: miri.update(r=miri_prepare("f_std,f_serde,f_rand,plain_alloc,f_threads")))
    th.start()
    built = build_all(["dev-thr", "release-thr", "tsan"])
    th.join()
    ok, log, _ = built["dev-thr"]
    if not ok:
        m = re.search(r"error\[E0277\]: `?.*(cannot be sent between threads safely|cannot be shared between threads safely)", log)
        if m:
            ok2, log2, _ = build("dev")
            if ok2:
                violation("C19", tier, seed, None, "compiler", "a program that shares or sends integers between threads is rejected:\n" + log[m.start():m.start() + 3000],
                          dict(evaluations=1, distinct_nontrivial=1, rule=RULE["C19"], samples=[m.group(0)]))
    exes = need(built)
    jobs = std(["dev-thr", "release-thr"], secs=15 if not thorough else 300, shards=4) + std(["tsan"], secs=20 if not thorough else 400, shards=4, seedoff=77, mem=None)
    run_jobs(jobs, exes, scratch, width=4)
    finish("C19", tier, seed, jobs, exes, scratch, thorough, miri["r"], 40 if not thorough else 400)

def run_c18(tier, seed, scratch):
    thorough = tier == "thorough"
    lits = literal_args()
    names = ["dev", "release", "dev-none", "release-none", "unopt", "dev-std", "release-serde", "dev-rand",
             "dev-serde-rand", "release-std-rand", "unopt-std-serde"]  # all eight feature sets
    if thorough:
        names += ["unopt-none", "release-rand", "dev-serde", "release-std", "size"]
    built = {}
    for k in range(0, len(names), 4):
        built.update(build_all(names[k:k + 4]))
    exes = need(built)
    shards = 8
    jobs = []
    for n in names:
        for i in range(shards):
            a = ["--prop", "C18", "--seed", str(seed), "--shard", str(i), "--shards", str(shards), "--secs", "600", "--tier", tier, "--hang", "60"] + lits
            j = Job(n, a, wall=1200)
            j.sh = i
            jobs.append(j)
    run_jobs(jobs, exes, scratch)
    bad = judge("C18", [j for j in jobs if not (j.rc == 0 and j.out)], exes)
    rows, calls, tables = set(), 0, 0
    ref = {j.sh: j for j in jobs if j.build == names[0]}
    def cov():
        return dict(evaluations=calls, distinct_nontrivial=tables, rule=RULE["C18"], samples=samples[:5] or ["none"], configurations=names, operations_compared=len(rows), shards=shards)
    samples = []
    for j in jobs:
        if j.out:
            calls += sum(v[1] for v in j.out.values())
    if bad:
        j = bad[0]
        # a crash in one configuration only, or in all of them: either way no result
        violation("C18", tier, seed, *bad, cov())
    for n in names[1:]:
        common = set.intersection(*[set(j.out) for j in jobs if j.build in (n, names[0])])
        for r in sorted(common):
            rows.add(r)
            tables += 1
            if len(samples) < 5:
                samples.append("%s: digest %s over %d calls in %s and in %s" % (r, ref[0].out[r][0], ref[0].out[r][1], names[0], n))
            for j in jobs:
                if j.build == n and j.out[r] != ref[j.sh].out[r]:
                    o = []
                    for b in (names[0], n):
                        p = subprocess.run([exes[b]] + j.args + ["--row", r], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", cwd=H, env=env_base())
                        o.append(p.stdout.splitlines())
                    diff = next(((x, y) for x, y in zip(*o) if x != y), ("%d lines" % len(o[0]), "%d lines" % len(o[1])))
                    j.cmdline = [exes[n]] + j.args + ["--row", "'%s'" % r]
                    violation("C18", tier, seed, j, "configuration comparison", "%s differs\n in %s: %s\n in %s: %s" % (r, names[0], diff[0], n, diff[1]), cov())
    if len(rows) < 100:
        raise NoVerdict("only %d operations compared" % len(rows))
    evidence("C18", tier, seed, cov(), 0)
    print("C18 held: %d digests of %d operations in %d configurations, %d calls, %.0f s" % (tables, len(rows), len(names), calls, time.time() - T0))

if __name__ == "__main__":
    main()
