#!/usr/bin/env python3
"""Decides one property: builds the monitors against /repo's working tree, runs them, and
reports what they observed.

    check.py <ID> [quick|thorough]     exit 0: held; 1: violated; 2: no answer
    check.py --setup                   builds everything beforehand
"""
import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MON_REPO", "/repo")
TARGET = os.path.join(HERE, "target")
HARNESS = os.path.join(HERE, "harness")
NPROC = min(8, os.cpu_count() or 8)
TRIPLE = "x86_64-unknown-linux-gnu"
GB = 1 << 30

sys.path.insert(0, HERE)
from plan import PLAN  # noqa: E402


class Violation(Exception):
    def __init__(self, witness, replay):
        super().__init__(witness)
        self.witness, self.replay = witness, replay


class NoAnswer(Exception):
    pass


def clean_env(extra=None):
    e = {}
    for k in ("HOME", "USER", "LANG", "RUSTUP_HOME", "CARGO_HOME", "TERM", "LD_LIBRARY_PATH"):
        if k in os.environ:
            e[k] = os.environ[k]
    e.setdefault("HOME", "/root")
    e["PATH"] = os.pathsep.join(
        [p for p in os.environ.get("PATH", "").split(os.pathsep) if p]
        + ["/root/.cargo/bin", "/usr/local/cargo/bin", "/usr/local/bin", "/usr/bin", "/bin"])
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["XDG_CACHE_HOME"] = os.path.join(TARGET, "cache")
    e.update(extra or {})
    return e


# ---------------------------------------------------------------- building

def source_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, names in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        files += [os.path.join(root, n) for n in names]
    files += [os.path.join(REPO, n) for n in ("Cargo.toml", "Cargo.lock", "build.rs")]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def forget_stale(target, manifest, env, toolchain=()):
    """cargo trusts modification times; copies of the tree do not always keep them in order."""
    mark = os.path.join(target, ".source")
    now = source_hash()
    if os.path.exists(mark) and open(mark).read() == now:
        return
    if os.path.isdir(target):
        os.path.exists(mark) and os.remove(mark)
        subprocess.run(["cargo", *toolchain, "clean", "--offline", "--manifest-path", manifest,
                        "--target-dir", target, "-p", "rusty-systems"],
                       env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        # Whatever the clean above did not reach (other triples and profiles).
        for root, dirs, names in os.walk(target):
            for d in list(dirs):
                if d.startswith("rusty-systems-") and os.path.basename(root) == ".fingerprint":
                    shutil.rmtree(os.path.join(root, d), ignore_errors=True)
                    dirs.remove(d)
    os.makedirs(target, exist_ok=True)
    with open(mark, "w") as f:
        f.write(now)


def run_build(cmd, env, what, timeout=800):
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", timeout=timeout)
    if r.returncode != 0:
        raise NoAnswer(f"{what} does not build:\n{r.stdout[-4000:]}")


HARNESS_MANIFEST = os.path.join(HARNESS, "Cargo.toml")


def build_native():
    t = os.path.join(TARGET, "native")
    env = clean_env()
    forget_stale(t, HARNESS_MANIFEST, env)
    run_build(["cargo", "build", "--release", "--offline", "--locked", "--manifest-path", HARNESS_MANIFEST,
               "--target-dir", t], env, "the monitor")
    return os.path.join(t, "release", "mon")


def build_cli():
    t = os.path.join(TARGET, "cli")
    env = clean_env()
    manifest = os.path.join(REPO, "Cargo.toml")
    forget_stale(t, manifest, env)
    run_build(["cargo", "build", "--offline", "--locked", "--manifest-path", manifest, "--features", "lsystem",
               "--bin", "lsystem", "--target-dir", t], env, "the lsystem tool")
    return os.path.join(t, "debug", "lsystem")


def build_shim():
    """The library that makes the tool's reads and writes fail as planned."""
    so = os.path.join(TARGET, "faults.so")
    run_build(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(HARNESS, "shim", "faults.c"), "-ldl"],
              clean_env(), "the fault shim")
    return so


def build_sanitizer(kind):
    t = os.path.join(TARGET, kind)
    flags = {"tsan": "-Zsanitizer=thread", "asan": "-Zsanitizer=address",
             "msan": "-Zsanitizer=memory -Zsanitizer-memory-track-origins"}[kind]
    env = clean_env({"RUSTFLAGS": flags + " -Cdebuginfo=1"})
    forget_stale(t, HARNESS_MANIFEST, env, ("+nightly",))
    cmd = ["cargo", "+nightly", "build", "--release", "--offline", "--manifest-path", HARNESS_MANIFEST,
           "--target-dir", t, "--target", TRIPLE]
    if kind != "asan":
        # The standard library has to be instrumented too, or its synchronisation and its writes are invisible.
        cmd += ["-Zbuild-std"]
    run_build(cmd, env, f"the {kind} monitor")
    return os.path.join(t, TRIPLE, "release", "mon")


def miri_env(flags, extra=None):
    return clean_env({"MIRIFLAGS": flags, **(extra or {})})


def build_miri():
    t = os.path.join(TARGET, "miri")
    env = miri_env("-Zmiri-disable-isolation")
    forget_stale(t, HARNESS_MANIFEST, env, ("+nightly",))
    run_build(["cargo", "+nightly", "miri", "setup"], env, "Miri's standard library")
    run_build(["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--manifest-path", HARNESS_MANIFEST,
               "--target-dir", t, "--", "NOTHING"], env, "the monitor under Miri")


# ---------------------------------------------------------------- running

def cpu_and_sleep(pid):
    """CPU ticks of the process, and whether every thread of it is asleep."""
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        ticks = int(f[11]) + int(f[12])
        asleep = True
        for t in os.listdir(f"/proc/{pid}/task"):
            s = open(f"/proc/{pid}/task/{t}/stat").read().rsplit(")", 1)[1].split()[0]
            asleep = asleep and s in "SD"
        return ticks, asleep
    except (OSError, IndexError, ValueError):
        return None, False


TICK = os.sysconf("SC_CLK_TCK")


class Outcome:
    """How a monitored process ended: rc, or 'stuck' (asleep for ever), 'busy' (never ends
    although it computes), 'late' (wall clock)."""

    def __init__(self):
        self.rc = None
        self.end = "exit"
        self.err = ""
        self.index = None


def watched(cmd, env, progress=None, wall=600, case_cpu=90, memory=4 * GB, stuck_s=20, errfile=None):
    def limits():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if memory:
            resource.setrlimit(resource.RLIMIT_AS, (memory, memory))

    o = Outcome()
    with open(errfile, "wb") as err:
        p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=err, stderr=err, preexec_fn=limits,
                             cwd=TARGET)
    start = time.monotonic()
    idx, idx_ticks = None, 0
    still_since, still_ticks = None, None
    delay = 0.02
    while True:
        try:
            o.rc = p.wait(timeout=delay)
            break
        except subprocess.TimeoutExpired:
            pass
        delay = min(delay * 1.5, 0.5)
        now = time.monotonic()
        ticks, asleep = cpu_and_sleep(p.pid)
        if ticks is None:
            continue
        cur = None
        if progress:
            try:
                cur = open(progress, "rb").read()
            except OSError:
                pass
        if cur != idx:
            idx, idx_ticks = cur, ticks
        if case_cpu and progress and (ticks - idx_ticks) / TICK > case_cpu:
            o.end = "busy"
        if asleep and ticks == still_ticks:
            if still_since is not None and now - still_since > stuck_s:
                o.end = "stuck"
        else:
            still_since, still_ticks = now, ticks
        if now - start > wall:
            o.end = "late"
        if o.end != "exit":
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            break
    if progress:
        try:
            o.index = int(open(progress).read())
        except (OSError, ValueError):
            o.index = None
    with open(errfile, "rb") as f:
        o.err = f.read()[-20000:].decode("utf-8", "replace")
    return o


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.monotonic()
        self.work = os.path.join(TARGET, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.evals = 0
        self.distinct = set()
        self.counts, self.maxima, self.samples = {}, {}, []
        self.stages, self.notes, self.known = [], [], {}
        self.lock = threading.Lock()

        # A check has a quarter of an hour; the thorough tier has its time.
        self.deadline = self.start + (800 if tier == "quick" else 4 * 3600)

    def left(self):
        return self.deadline - time.monotonic()

    def note(self, text):
        with self.lock:
            self.notes.append(text)

    def add(self, out, prefix=""):
        with self.lock:
            self.evals += out["evals"]
            for k, v in out["counts"].items():
                self.counts[prefix + k] = self.counts.get(prefix + k, 0) + v
            for k, v in out["maxima"].items():
                self.maxima[prefix + k] = max(self.maxima.get(prefix + k, 0), v)
            self.samples += out["samples"]

    def replay(self, witness, cmd, extra=""):
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{self.tier}-{self.seed}.txt")
        with open(path, "w") as f:
            f.write(f"property {self.prop}, tier {self.tier}, VERIF_SEED={self.seed}\n"
                    f"rerun: {cmd}\n\n{witness}\n\n{extra}\n")
        return path


PRECONDITION = "unsafe precondition(s) violated"


def native(run, exe, cases=None, kind="native", env_extra=None, prop=None, memory=4 * GB, shards=NPROC,
           budget=None, wall=None, case_cpu=None, ub_only=False):
    """Runs the cases in shards and merges what they observed."""
    prop = prop or run.prop
    thorough = run.tier == "thorough"
    budget = budget or (600 if thorough else 120)
    wall = wall or budget + 200
    case_cpu = case_cpu or (300 if thorough else 60)
    left = run.left()
    if left < 30:
        run.notes.append(f"{kind} {prop}: skipped for lack of time")
        return
    budget, wall = min(budget, max(10, left - 60)), min(wall, left)
    env = clean_env(env_extra)
    if memory:
        # The limit is on addresses: hundreds of threads with heaps of their own would run out of them.
        env["MALLOC_ARENA_MAX"] = "8"

    def args(extra):
        a = [exe, prop, "--seed", str(run.seed), "--tier", run.tier, "--budget", str(budget)]
        if cases:
            a += ["--cases", str(cases)]
        return a + extra

    def shard(i, only=None, tag=""):
        base = os.path.join(run.work, f"{kind}{tag}-{prop}-{i}")
        extra = ["--out", base + ".json", "--progress", base + ".progress"]
        extra += ["--only", str(only)] if only is not None else ["--shard", str(i), "--nshards", str(shards)]
        cmd = args(extra)
        for f in (base + ".json", base + ".progress"):
            if os.path.exists(f):
                os.remove(f)
        o = watched(cmd, env, base + ".progress", wall=wall, case_cpu=case_cpu, memory=memory, errfile=base + ".err")
        return base, cmd, o

    def violated(witness, cmd, o, index):
        again = " ".join(args(["--only", str(index)])) if index is not None else " ".join(cmd)
        raise Violation(f"[{kind}] {witness}", run.replay(f"[{kind}] {witness}", again, o.err[-6000:]))

    def judge(i, base, cmd, o, again=False):
        if o.end == "exit" and o.rc in (0, 10):
            try:
                out = json.load(open(base + ".json"))
            except (OSError, ValueError) as e:
                raise NoAnswer(f"shard {i} left no result: {e}; {o.err[-2000:]}")
            if o.rc == 10 and ub_only and not out["witness"].startswith("undefined behaviour"):
                # Wrong, but not undefined: for the property's own check to say.
                run.note(f"{kind} {prop}: stopped in case {out['index']}: {out['witness'][:300]}")
            elif o.rc == 10:
                violated(f"case {out['index']}: {out['witness']}", cmd, o, out["index"])
            if again:
                return False
            run.add(out)
            with open(base + ".json.hashes", "rb") as f:
                b = f.read()
            with run.lock:
                run.distinct.update(b[k:k + 8] for k in range(0, len(b), 8))
            return True
        if o.end == "exit" and o.rc == 3:
            raise NoAnswer(f"the monitor itself failed: {o.err[-3000:]}")
        if ub_only and o.end == "exit" and o.rc == 77:
            at = max(o.err.find("WARNING: ThreadSanitizer"), o.err.find("ERROR: AddressSanitizer"),
                     o.err.find("WARNING: MemorySanitizer"), 0)
            violated(f"sanitizer report in case {o.index}: {o.err[at:at + 3000]}", cmd, o, o.index)
        if ub_only and o.end == "exit" and o.rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL):
            violated(f"case {o.index}: the process died ({o.rc}): {o.err[-1500:]}", cmd, o, o.index)
        if ub_only and o.end == "exit" and o.rc == -signal.SIGABRT and PRECONDITION in o.err:
            # The standard library's own checks of what unsafe code promises, on in these builds.
            at = o.err.find(PRECONDITION)
            violated(f"case {o.index}: {o.err[at:at + 1500]}", cmd, o, o.index)
        if ub_only:
            run.note(f"{kind} {prop}, shard {i}: no verdict in case {o.index} ({o.end}, {o.rc}): {o.err[-300:]}")
            return True
        if o.end == "late":
            raise NoAnswer(f"shard {i} of {kind} ran out of wall-clock time in case {o.index}")
        what = {"stuck": "every thread is asleep and none will ever wake: deadlock",
                "busy": "it does not finish"}.get(o.end) or f"the process died ({o.rc}): {o.err[-1500:]}"
        if o.index is None:
            raise NoAnswer(f"shard {i} of {kind} did not get to any case: {what} {o.err[-2000:]}")
        if again or o.end == "stuck":
            violated(f"case {o.index}: {what}", cmd, o, o.index)
        died = o.end == "exit" and o.rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGABRT) \
            and "memory allocation of" not in o.err
        for k in range(3):
            b2, c2, o2 = shard(i, only=o.index, tag=f"-again{k}")
            judge(i, b2, c2, o2, again=True)
        if died:
            # It does not happen every time, but no interleaving may end the process.
            violated(f"case {o.index}: {what}", cmd, o, o.index)
        if o.end == "busy":
            # Perhaps only after what went before, or when others run at the same time.
            b2, c2, o2 = shard(i, tag="-anew")
            if o2.end in ("busy", "stuck"):
                violated(f"case {o2.index}: {what}", c2, o2, None)
        raise NoAnswer(f"shard {i} of {kind}, case {o.index}: {what}, but not again when rerun")

    t0 = time.monotonic()
    with ThreadPoolExecutor(shards) as ex:
        results = list(ex.map(lambda i: shard(i), range(shards)))
    err = None
    for i, (base, cmd, o) in enumerate(results):
        try:
            judge(i, base, cmd, o)
        except NoAnswer as e:
            err = err or e
    if err:
        raise err
    run.stages.append(f"{kind} {prop}: {shards} processes, {time.monotonic() - t0:.1f} s")


def miri(run, scen, seeds, rates, extra_flags="", wall=700, args=(), ub_only=False):
    """Runs a scenario under Miri with many scheduler seeds. UB, data races and deadlocks end it."""
    t0 = time.monotonic()
    held = 0
    for r, rate in enumerate(rates):
        lo = (run.seed * 7919 + r * 1000003) % 1000000
        flags = (f"-Zmiri-disable-isolation -Zmiri-preemption-rate={rate} -Zmiri-ignore-leaks "
                 f"-Zmiri-many-seeds={lo}..{lo + seeds} {extra_flags}")
        errfile = os.path.join(run.work, f"miri-{scen}-{r}.err")
        cmd = ["cargo", "+nightly", "miri", "run", "--quiet", "--offline", "--locked", "--manifest-path",
               HARNESS_MANIFEST, "--target-dir", os.path.join(TARGET, "miri"), "--", "MIRI", scen,
               "--seed", str(run.seed), *map(str, args)]
        left = min(wall - (time.monotonic() - t0), run.left() - 10)
        if left < 20:
            run.notes.append(f"miri {scen}: rate {rate} skipped for lack of time")
            break
        o = watched(cmd, miri_env(flags), None, wall=left, memory=None, stuck_s=10**6, errfile=errfile)
        text = open(errfile, errors="replace").read()
        obs = re.findall(r"^OBS (.*)$", text, re.M)
        held += len(obs)
        for line in obs:
            run.distinct.add(hashlib.sha256(f"{scen} {line}".encode()).digest()[:8])
            for kv in line.split():
                if "=" in kv:
                    k, v = kv.split("=", 1)
                    if v.isdigit():
                        run.counts[f"miri {scen} {k}"] = run.counts.get(f"miri {scen} {k}", 0) + int(v)
        if len(run.samples) < 12:
            run.samples += [f"miri {scen} rate {rate}: {x}" for x in obs[:1]]
        replay_cmd = f"XDG_CACHE_HOME={TARGET}/cache MIRIFLAGS='{flags}' {' '.join(cmd)}"
        m = re.search(r"MON-VIOLATION (.*)", text)
        if m and ub_only and not m.group(1).startswith("undefined behaviour"):
            run.note(f"miri {scen}: stopped: {m.group(1)[:300]}")
            continue
        if m:
            w = f"[miri {scen}] {m.group(1)}"
            raise Violation(w, run.replay(w, replay_cmd, text[-6000:]))
        m = re.search(r"(Undefined Behavior: .*|.*unsafe precondition\(s\) violated.*)" if ub_only else r"(Undefined Behavior: .*|error: (?:the evaluated program deadlocked|deadlock|abnormal termination).*|.*the evaluated program deadlocked.*)", text)
        if m and "unsupported operation" not in m.group(1):
            w = f"[miri {scen}] {m.group(1)}"
            at = text.find(m.group(1))
            raise Violation(w, run.replay(w, replay_cmd, text[max(0, at - 500):at + 6000]))
        if o.end != "exit" or o.rc != 0:
            run.notes.append(f"miri {scen} at rate {rate}: inconclusive ({o.end}, {o.rc}): {text[-400:]}")
            if held == 0 and not ub_only:
                raise NoAnswer(f"Miri gave no verdict on {scen}: {o.end} {o.rc} {text[-3000:]}")
    run.evals += held
    run.counts[f"miri {scen} executions"] = run.counts.get(f"miri {scen} executions", 0) + held
    run.stages.append(f"miri {scen}: {held} executions at preemption rates {list(rates)}, {time.monotonic() - t0:.1f} s")


def sanitizer(run, kind, props, budget, cases=None):
    try:
        exe = build_sanitizer(kind)
    except (NoAnswer, subprocess.TimeoutExpired) as e:
        raise NoAnswer(f"{kind}: {e}")
    env = {"tsan": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1"},
           "asan": {"ASAN_OPTIONS": "halt_on_error=1:exitcode=77:detect_leaks=0:allocator_may_return_null=0"},
           "msan": {"MSAN_OPTIONS": "halt_on_error=1:exitcode=77"}}[kind]
    env["MON_SANITIZED"] = kind
    # Sanitizers need address space; find out first whether they can run here at all.
    probe = subprocess.run([exe, "NOTHING"], env=clean_env(env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=60)
    if probe.returncode != 0:
        run.notes.append(f"{kind} cannot start here: {probe.stdout[-300:]}")
        return
    for prop, n in props:
        native(run, exe, cases=n or cases, kind=kind, env_extra=env, prop=prop, memory=None, budget=budget,
               case_cpu=300, ub_only=True)


# ---------------------------------------------------------------- deciding

def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) signature=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def decide(prop, tier, seed):
    plan = PLAN[prop]
    run = Run(prop, tier, seed)
    verdict, witness, replay = "held", None, None
    try:
        for stage in plan["stages"]:
            what, opts = stage[0], dict(stage[1]) if len(stage) > 1 else {}
            mine = opts.pop(tier, {})
            for t in ("quick", "thorough"):
                opts.pop(t, None)
            if mine is None:
                continue
            opts.update(mine)
            if what == "native":
                env = {}
                if opts.pop("cli", False):
                    env["MON_CLI"] = build_cli()
                    env["MON_SHIM"] = build_shim()
                exe = build_native()
                native(run, exe, env_extra=env, **opts)
            elif what == "miri":
                build_miri()
                miri(run, **opts)
            elif what in ("tsan", "asan", "msan"):
                sanitizer(run, what, **opts)
            else:
                raise NoAnswer(f"unknown stage {what}")
        if run.evals == 0 or len(run.distinct) < plan.get("least", 2):
            raise NoAnswer(f"too little was observed: {run.evals} evaluations, {len(run.distinct)} distinct")
    except Violation as v:
        verdict, witness, replay = "violated", v.witness, v.replay
    except NoAnswer as e:
        verdict, witness = "none", str(e)
    except subprocess.TimeoutExpired as e:
        verdict, witness = "none", f"timed out: {e}"

    samples = run.samples[:10] or ["(none)"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": plan.get("level", "exploration"),
        "coverage": {
            "evaluations": run.evals,
            "distinct_nontrivial": len(run.distinct),
            "rule": plan["rule"],
            "samples": samples,
            "observed": run.counts, "largest": run.maxima,
            "stages": run.stages, "notes": run.notes,
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.monotonic() - run.start, 2),
        "violations": 1 if verdict == "violated" else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    if verdict != "violated":
        shutil.rmtree(run.work, ignore_errors=True)
    if verdict == "violated":
        print(f"{prop}: {witness[:3000]}")
        print(f"VIOLATION property={prop} replay={replay}", flush=True)
        return 1
    if verdict == "none":
        print(f"{prop}: no answer: {witness[:6000]}", flush=True)
        return 2
    print(f"{prop}: held on {run.evals} executions ({len(run.distinct)} distinct), {ev['wall_s']} s", flush=True)
    return 0


def main():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if sys.argv[1:2] == ["--setup"]:
            steps = [build_native, build_cli, build_miri, lambda: build_sanitizer("tsan"), lambda: build_sanitizer("asan"),
                     lambda: build_sanitizer("msan")]
            for s in steps:
                try:
                    s()
                except (NoAnswer, subprocess.TimeoutExpired) as e:
                    # The check that needs it will say so.
                    print(e)
            return 0
        prop = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        return decide(prop, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
