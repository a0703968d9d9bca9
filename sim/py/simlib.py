"""Common machinery of the checks: building, running one simulated execution,
plans, evidence, replay files and delta debugging."""
import atexit, fcntl, hashlib, json, math, os, random, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SIM = os.path.join(VERIF, "sim")
TARGET = os.path.join(VERIF, "target")
BIN = os.path.join(TARGET, "x86_64-unknown-linux-gnu", "debug")
REPO = "/repo"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
T0 = time.time()
DIGEST = os.environ.get("SIM_DIGEST")


class HarnessError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# ------------------------------------------------------------------ scratch
_scratch = None


def scratch():
    """One scratch directory per check process, removed at exit."""
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        try:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < (1 << 30):
                base = "/tmp"
        except OSError:
            base = "/tmp"
        # the name can enter a run (absolute paths), so it is the same one whenever it is free
        for k in range(100):
            _scratch = os.path.join(base, "qcdsim.w%02d" % k)
            try:
                os.mkdir(_scratch, 0o700)
                break
            except FileExistsError:
                pass
        else:
            _scratch = tempfile.mkdtemp(prefix="qcdsim.", dir=base)
        owner = os.getpid()

        def clean():
            if os.getpid() == owner:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


# ------------------------------------------------------------------ build
def build(bins, features=None, profile=None):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cmd = ["bash", os.path.join(SIM, "build.sh")]
        for b in bins:
            cmd += ["--bin", b]
        if profile:
            cmd += ["--profile", profile]
        if features == "core":
            cmd += ["--no-default-features"]
        env = dict(os.environ, SIM_OPS_FILE=os.path.join(TARGET, "ops_gen.rs"))
        if features == "core":
            subprocess.run([sys.executable, os.path.join(SIM, "gen_ops.py"), os.path.join(REPO, "qcd-sme/src"),
                            env["SIM_OPS_FILE"]], stdout=subprocess.DEVNULL)
        t = time.time()
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return r.stdout
        log("built %s%s in %.1fs" % (" ".join(bins), " (%s)" % profile if profile else "", time.time() - t))
        return None


# ------------------------------------------------------------------ log header
HNAMES = ("magic status loglen hash ticks events switches forced preempts hot vtime_ns "
          "threads futex_waits futex_wakes spurious deadlock escapes crash_fired").split()
FKINDS = "err eintr short zero torn full crash_before crash_mid crash_after stall eagain".split()
OPS = "openw write mkdir close sync meta openr read alloc spawn".split()
CLASSES = "data read diag mem thr out".split()
HTAIL = "schedhash nrec_sw nrec_ch clockjumps stalls dropped pairhash_n maxrunnable exitcode mutations".split()
STATUS = {0: "died", 1: "exit", 2: "signal", 3: "crash", 4: "deadlock", 5: "livelock"}


class Result:
    __slots__ = ("rc", "h", "log", "cl_events", "fired", "op_fired", "wall", "timeout", "stderr", "stdout")

    def lines(self, *prefix):
        return [l for l in self.log.split("\n") if l.startswith(prefix)]


def read_log(path):
    with open(path, "rb") as f:
        b = f.read(4096)
        n = len(HNAMES)
        h = dict(zip(HNAMES, struct.unpack_from("<%dQ" % n, b, 0)))
        off = 8 * n
        cl = struct.unpack_from("<8Q", b, off); off += 64
        fired = struct.unpack_from("<16Q", b, off); off += 128
        opf = struct.unpack_from("<16Q", b, off); off += 128
        h.update(zip(HTAIL, struct.unpack_from("<%dQ" % len(HTAIL), b, off)))
        txt = f.read(h["loglen"]).decode("utf-8", "replace")
    return h, dict(zip(CLASSES, cl)), {k: v for k, v in zip(FKINDS, fired) if v}, \
        {k: v for k, v in zip(OPS, opf) if v}, txt


def run(exe, args, plan, cwd, tag, env=None, timeout=120, keep_err=False, keep_out=False, stdin=None):
    """One simulated execution; a pure function of executable, cwd contents and plan."""
    s = scratch()
    planf = os.path.join(s, "plan." + tag)
    logf = os.path.join(s, "log." + tag)
    with open(planf, "w", errors="surrogateescape") as f:
        f.write("log %s\n" % logf)
        f.write(plan)
    e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LANG": "C", "SIM_PLAN": planf,
         "PYTHONPATH": os.path.join(SIM, "pystub"), "PYTHONDONTWRITEBYTECODE": "1",
         "PYTHONHASHSEED": "0", "PYTHONNOUSERSITE": "1"}
    if env:
        e.update(env)
    r = Result()
    t = time.time()
    r.timeout = False
    r.stderr = ""
    errf = open(os.path.join(s, "err." + tag), "w+") if keep_err else subprocess.DEVNULL
    outf = open(os.path.join(s, "out." + tag), "w+") if keep_out else subprocess.DEVNULL
    inp = subprocess.DEVNULL
    if stdin is not None:
        # all of it is in the pipe before the program starts
        inp, w = os.pipe()
        os.write(w, stdin)
        os.close(w)
    p = subprocess.Popen([exe] + args, cwd=cwd, env=e, stdin=inp,
                         stdout=outf, stderr=errf, start_new_session=True)
    if stdin is not None:
        os.close(inp)
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    r.stdout = ""
    if keep_out:
        outf.seek(0)
        r.stdout = outf.read()
        outf.close()
    if keep_err:
        errf.seek(0)
        r.stderr = errf.read()
        errf.close()
    r.wall = time.time() - t
    r.rc = p.returncode
    if r.rc == 99:
        raise HarnessError("simrt refused its plan: " + plan[:300])
    r.h, r.cl_events, r.fired, r.op_fired, r.log = read_log(logf)
    if r.h["magic"] != 0x53494d5254:
        raise HarnessError("no simulator log from " + exe)
    if DIGEST:
        # for ./check determinism: the event history of every run, in order
        with open(os.path.join(DIGEST, tag), "a") as f:
            f.write("%016x %d %d %s\n" % (r.h["hash"], r.h["ticks"], r.h["events"], hashlib.md5(r.log.encode()).hexdigest()))
    return r


def explicit_plan(plan, res):
    """The plan that replays `res` exactly: every context switch and every
    fired fault is listed, no random draw is left."""
    out = []
    for l in plan.split("\n"):
        if l and not l.startswith(("rate ", "mode ", "sw ", "ch ", "peerp ", "peermeta ", "peerhold ", "peerat ")):
            out.append(l)
    out.append("mode explicit")
    for l in res.log.split("\n"):
        if l.startswith(("sw ", "ch ", "peerat ")):
            out.append(l)
        elif l.startswith("rfire "):
            out.append("fault " + l[6:])
    return "\n".join(out) + "\n"


# ------------------------------------------------------------------ numbers
def hx(x):
    return "%x" % struct.unpack("<Q", struct.pack("<d", x))[0]


def unhx(s):
    return struct.unpack("<d", struct.pack("<Q", int(s, 16)))[0]


def normres(tokens):
    """Result tokens with NaNs made canonical."""
    out = []
    for t in tokens:
        if len(t) > 3:
            try:
                if math.isnan(unhx(t)):
                    t = "nan"
            except (ValueError, struct.error):
                pass
        out.append(t)
    return " ".join(out)


# ------------------------------------------------------------------ ddmin
def ddmin(items, test, budget):
    """Smallest sublist (1-minimal within the time budget) for which test holds."""
    n = 2
    while len(items) >= 1 and time.time() < budget:
        if len(items) == 1:
            if test([]):
                return []
            return items
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        hit = False
        for i in range(len(chunks)):
            if time.time() >= budget:
                return items
            cand = [x for j, c in enumerate(chunks) if j != i for x in c]
            if test(cand):
                items = cand
                n = max(2, n - 1)
                hit = True
                break
        if not hit:
            if size == 1:
                return items
            n = min(len(items), n * 2)
    return items


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                sig, _, what = l[len("finding: property=%s " % prop):].partition(" :: ")
                out.append((sig.strip(), what.strip()))
    return out


# ------------------------------------------------------------------ evidence
class Cover:
    """Aggregates what the executed runs covered."""

    def __init__(self):
        self.runs = 0
        self.ticks = 0
        self.switches = 0
        self.preempts = 0
        self.vtime = 0
        self.hot = 0
        self.fired = {}
        self.op_fired = {}
        self.sched = set()
        self.states = set()
        self.spurious = 0
        self.stalls = 0
        self.clockjumps = 0
        self.maxthreads = 0
        self.extra = {}
        self.nontrivial = set()

    def add(self, r, state=None):
        h = r.h
        self.runs += 1
        self.ticks += h["ticks"]
        self.switches += h["switches"]
        self.preempts += h["preempts"]
        self.vtime += h["vtime_ns"]
        self.hot += h["hot"]
        self.spurious += h["spurious"]
        self.stalls += h["stalls"]
        self.clockjumps += h["clockjumps"]
        self.maxthreads = max(self.maxthreads, h["threads"])
        for k, v in r.fired.items():
            self.fired[k] = self.fired.get(k, 0) + v
        for k, v in r.op_fired.items():
            self.op_fired[k] = self.op_fired.get(k, 0) + v
        self.sched.add(h["schedhash"])
        if state is not None:
            self.states.add(state)

    def bump(self, k, n=1):
        self.extra[k] = self.extra.get(k, 0) + n

    def merge(self, o):
        for k in ("runs", "ticks", "switches", "preempts", "vtime", "hot", "spurious", "stalls", "clockjumps"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.maxthreads = max(self.maxthreads, o.maxthreads)
        for n in ("fired", "op_fired", "extra"):
            d = getattr(self, n)
            for k, v in getattr(o, n).items():
                d[k] = d.get(k, 0) + v
        self.sched |= o.sched
        self.states |= o.states
        self.nontrivial |= o.nontrivial

    def dump(self):
        return dict(self.__dict__)


def write_evidence(prop, level, cover, rule, samples, wall, assumptions, stubs, violations=0, extra=None):
    hours = max(wall, 1e-9) / 3600
    cov = {
        "evaluations": cover.runs,
        "distinct_nontrivial": len(cover.nontrivial),
        "rule": rule,
        "samples": samples[:6] or ["(none)"],
        "runs_and_seeds_per_hour": int(cover.runs / hours),
        "scheduling_points": cover.ticks,
        "context_switches": cover.switches,
        "preemptions": cover.preempts,
        "static_data_accesses_seen": cover.hot,
        "simulated_time_s": round(cover.vtime / 1e9, 3),
        "distinct_interleavings": len(cover.sched),
        "distinct_interleavings_measure": "hash of the sequence of (chosen thread, scheduling point kind) of a run",
        "faults_injected": cover.fired,
        "faults_by_operation": cover.op_fired,
        "spurious_wakeups": cover.spurious,
        "stalls": cover.stalls,
        "clock_jumps": cover.clockjumps,
        "max_threads": cover.maxthreads,
        "real_components": stubs[0],
        "stubbed_components": stubs[1],
    }
    cov.update(cover.extra)
    if extra:
        cov.update(extra)
    d = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
         "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(wall, 2),
         "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))


def replay_path(prop):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s.json" % prop)


def rng(*parts):
    h = hashlib.sha256(":".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def ncpu():
    try:
        return max(1, len(os.sched_getaffinity(0)))
    except AttributeError:
        return os.cpu_count() or 1


def pin(i):
    try:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[i % len(cpus)]})
    except OSError:
        pass
