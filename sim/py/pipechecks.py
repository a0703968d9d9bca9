"""Deciders for the critical-temperature pipeline (C08..C14, C17): whole simulated runs
of the program in a scratch directory, with seeded schedules and injected faults."""
import json, math, multiprocessing, os, re, shutil, subprocess, sys, time
import simlib
from simlib import HarnessError, rng

EXE = os.path.join(simlib.BIN, "physical_tc")
REFPIPE = os.path.join(simlib.BIN, "refpipe")
OUTDIR = "target/tc_long_prop/physical_tc"
DEFAULTS = {
    "mg": 0.656, "om": 1e-5, "renpoint": 4.0, "mq": [0.35, 0.45, 1.5], "mqc": [0.125, 0.225, 1.2], "f0": -0.876,
    "fewtemps": [0.0, 0.1758, 0.0293], "moretemps": [0.0, 0.1758, 0.0117], "manytemps": [0.0, 0.1758, 0.00012],
    "fewchempots": [0.0, 0.8, 0.1], "morechempots": [0.0, 0.8, 0.025], "manychempots": [0.0, 0.8, 0.01],
    "momenta": [0.01, 3.0, 0.01]}
KEYS = list(DEFAULTS)
GRIDS = ["fewtemps", "moretemps", "manytemps", "fewchempots", "morechempots", "manychempots", "momenta"]


# ------------------------------------------------------------------ configurations
def num(x):
    s = repr(float(x))
    return s


def yaml(cfg, R=None):
    """The configuration as YAML; with R, in a random but equivalent form."""
    keys = list(KEYS)
    if R is not None and R.random() < .5:
        R.shuffle(keys)
    out = []
    if R is not None and R.random() < .3:
        out.append("# configuration of a simulated run")
    for k in keys:
        v = cfg[k]
        if isinstance(v, list):
            if R is not None and R.random() < .3:
                out.append(k + ":")
                out += ["  - " + num(x) for x in v]
            else:
                out.append("%s: [%s]" % (k, ", ".join(num(x) for x in v)))
        else:
            out.append("%s: %s" % (k, num(v)))
    return "\n".join(out) + "\n"


def grid(v):
    n = int(math.floor((v[1] - v[0]) / v[2] + .5))
    return [v[0] + v[2] * k for k in range(n + 1)]


def rnd_grid(R, lo, hi, n):
    """A grid of n+1 points whose step need not divide the range."""
    step = (hi - lo) / n
    if R.random() < .5:
        step = round(step, 3) or step
        top = lo + step * n
        f = R.choice([0, 0, .3, -.3, .45])
        top += f * step
        return [lo, round(top, 5), step]
    return [lo, hi, step]


def gen_cfg(R, size=0):
    """size 0: the cheapest that still exercises every stage; 2: larger."""
    c = {}
    j = lambda x, f: round(x * R.uniform(1 - f, 1 + f), R.choice([3, 4, 17]))
    c["mg"] = j(.656, .1)
    c["om"] = R.choice([1e-5, 1e-5, 1e-3, 2.5e-4])
    c["renpoint"] = R.choice([4.0, 4.0, 3.0, 2.5, j(4, .2)])
    c["mq"] = [j(.35, .15), j(.45, .15), j(1.5, .1)]
    c["mqc"] = [j(.125, .3), j(.225, .3), j(1.2, .1)]
    if R.random() < .15:
        c["mq"][0], c["mq"][1] = c["mq"][1], c["mq"][0]
    c["f0"] = j(-.876, .05)
    tmax = R.choice([.16, .1758, .2])
    lo = 0.
    c["manychempots"] = rnd_grid(R, 0., R.choice([.6, .8, .5]), R.randint(4, 6 + 2 * size))
    if R.random() < .2:
        lo = R.choice([.05, .1])
        c["manychempots"] = rnd_grid(R, lo, lo + .6, R.randint(4, 6 + 2 * size))
    top = grid(c["manychempots"])[-1]
    c["manytemps"] = rnd_grid(R, 0., tmax, R.randint(4, 6 + 4 * size))
    c["fewtemps"] = rnd_grid(R, 0., tmax, R.randint(1, 2 + size))
    c["moretemps"] = rnd_grid(R, 0., tmax, R.randint(1, 3 + size))
    if R.random() < .5:
        # a subset of the boundary's own grid: values exactly on it
        k = R.randint(1, 2)
        s = c["manychempots"][2] * k
        c["fewchempots"] = [lo, round(lo + s * R.randint(1, 2 + size), 12), s]
        if R.random() < .5:
            kt = R.randint(1, 3)
            st = c["manytemps"][2] * kt
            c["fewtemps"] = [0., st * max(1, int(tmax / st)), st]
    else:
        c["fewchempots"] = rnd_grid(R, lo, lo + R.choice([.3, .5, .8]), R.randint(1, 2 + size))
    c["morechempots"] = rnd_grid(R, lo, top, R.randint(1, 2 + size))
    c["momenta"] = R.choice([[.01, 1.51, .5], [.01, 2.01, .5], [.01, 3., 1.], [.02, 1.5, .4], [.05, .65, .1], [.01, 2.6, .3]])
    if R.random() < .15:
        c["fewtemps"] = [0., 0., .1]  # a single temperature
    if R.random() < .1:
        c["fewchempots"] = [lo, lo, .1]
    return c


# ------------------------------------------------------------------ reference pipeline
def refpipe(cfg, mode, tag):
    a = [mode]
    for k in ("mg", "om", "renpoint"):
        a.append(num(cfg[k]))
    for k in ("mq", "mqc"):
        a += [num(x) for x in cfg[k]]
    a.append(num(cfg["f0"]))
    for k in GRIDS:
        a += [num(x) for x in cfg[k]]
    # bounded in steps, not in time: an integral that does not converge ends the attempt
    p = simlib.run(REFPIPE, a, "seed 1\nmode seeded\npolicy none\nncpu 1\nmaxtick 60000000\nroot %s\n" % os.path.join(
        simlib.scratch(), "none"), simlib.scratch(), tag + ".rp", keep_out=True)
    if p.rc or p.h["status"] != 1:
        return None
    return parse_ref(p.stdout)


def parse_ref(text):
    m = {"files": {}, "plots": {}, "margin": math.inf, "bound": []}
    cur = None
    for l in text.split("\n"):
        w = l.split(" ")
        if not l:
            continue
        if w[0] == "F":
            m["tables"] = m.get("tables", 0) + 1
            cur = m["files"][w[1]] = {"fmt": w[2:4], "rows": []}
        elif w[0] == "R":
            cur["rows"].append((float(w[1]), float(w[2])))
        elif w[0] == "L":
            m["files"][w[1]] = {"list": [float(x) for x in l.split(" ", 2)[2].strip("[]").split(",")]}
        elif w[0] == "P":
            cur = m["plots"][w[1]] = {"text": {}, "series": []}
        elif w[0] == "X":
            cur["text"][w[1]] = l.split(" ", 2)[2]
        elif w[0] == "S":
            i = l.index(" [")
            a, b = l[i + 1:].split("] [")
            f = lambda s: [float(x) for x in s.strip("[]").split(",") if x.strip()]
            lab = l[2:i]
            cur["series"].append((None if lab == "-" else lab, f(a), f(b)))
        elif w[0] == "M":
            m["margin"] = float(w[1])
        elif w[0] == "T":
            m["bound"] = [float(x) for x in l[2:].strip("[]").split(",") if x.strip()]
    return m


def usable(m):
    """No decision of the pipeline hangs on rounding, and the diagram is a diagram."""
    return m is not None and m["margin"] > 1e-7 and len(m["bound"]) >= 1


# checks whose property promises that an undisturbed run of a usable configuration succeeds
MUST_RUN = ("C08", "C10", "C12", "C14")


# ------------------------------------------------------------------ running
def snap(root):
    """Every file, link and directory below root."""
    out = {}
    for b, ds, fs in os.walk(root):
        for d in ds:
            p = os.path.join(b, d)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = ("l", os.readlink(p))
            else:
                out[os.path.relpath(p, root)] = ("d", b"")
        for f in fs:
            p = os.path.join(b, f)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = ("l", os.readlink(p))
            else:
                try:
                    with open(p, "rb") as fh:
                        out[os.path.relpath(p, root)] = ("f", fh.read())
                except OSError:
                    out[os.path.relpath(p, root)] = ("?", b"")
    return out


def outputs(s):
    return {k: v[1] for k, v in s.items() if v[0] == "f" and k.startswith(OUTDIR + "/")}


def fresh(tag):
    d = os.path.join(simlib.scratch(), "w." + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "run"))
    return d


def put(root, files):
    for p, c in files.items():
        q = os.path.join(root, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f:
            f.write(c if isinstance(c, bytes) else c.encode())


QUIET = "mode seeded\npolicy none\nncpu 1\nmaxtick 4000000000\n"


def binary(name, prof):
    """A third of the scenarios runs the program as shipped: optimised, no debug
    assertions, a panic ends the process."""
    return os.path.join(os.path.dirname(simlib.BIN), "rel", name) if prof == "rel" else os.path.join(simlib.BIN, name)


def run_step(d, step, tag, plan=None, timeout=100, prof=None):
    run = os.path.join(d, step.get("where", "run"))
    p = (plan or step["plan"]) + "root %s\n" % run
    if step.get("tol"):
        p += "tol %g\nmaxiter %d\n" % (step["tol"], step.get("maxiter", 20))
    env = dict(step.get("env") or {})
    return simlib.run(binary(step.get("exe", "physical_tc"), prof), step.get("args", []), p, run, tag, env=env, timeout=timeout,
                      stdin=step["stdin"].encode() if "stdin" in step else None)


PEERS = {}


def peer_file(peer, prof, tag):
    """The calls of another program that shares the working directory, recorded while it ran alone."""
    k = (json.dumps(peer, sort_keys=True), prof, tag)
    if k not in PEERS:
        while len(PEERS) > 30:
            os.unlink(PEERS.pop(next(iter(PEERS))))
        f = os.path.join(simlib.scratch(), "peer.%s.%d" % (tag, len(PEERS)))
        while os.path.exists(f):
            f += "_"
        d = fresh(tag + ".peer")
        if peer.get("cfg"):
            put(os.path.join(d, "run"), {"config.yml": yaml(peer["cfg"])})
        run_step(d, dict(peer, plan="seed 1\n" + QUIET + "peerlog %s\n" % f), tag + ".peer", prof=prof)
        PEERS[k] = f
    return PEERS[k]


class Refs:
    """Fault-free single-worker runs in an empty directory, cached."""

    def __init__(self, tag):
        self.tag = tag
        self.c = {}
        self.pipe = {}
        self.scans = {}
        self.n = 0
        self.prof = None

    def scan(self, exe, tol, maxiter, check=True):
        """Undisturbed run of a parameter-scan program: (result, outputs, objection to them or None)."""
        k = (exe, tol, maxiter, self.prof, check)
        if k not in self.scans:
            self.n += 1
            d = fresh(self.tag + ".ref")
            r = run_step(d, {"exe": exe, "plan": "seed 1\n" + QUIET + "fault mem alloc err 900000000000\n", "tol": tol,
                             "maxiter": maxiter}, self.tag + ".ref", prof=self.prof)
            out = scan_outputs(snap(d), exe)
            v = ended(r)
            if v:
                v = None if r.h["status"] == 5 or r.timeout else "undisturbed run: " + v
            elif check:
                v = scan_against(exe, tol, maxiter, out, self.tag)
                v = v and "undisturbed run: " + v
            self.scans[k] = (r, out, v)
        return self.scans[k]

    def headers(self, k):
        """Undisturbed header generation for crate k: (result, headers, objection or None)."""
        if k not in self.scans:
            self.n += 1
            files, names = crate_files(k)
            s = {"prep": {}, "crates": [k], "steps": [{"exe": "genheaders", "crate": k, "cargo": "cargo.sh",
                                                      "plan": "seed 1\n" + QUIET + "fault mem alloc err 900000000000\n"}]}
            _, r, post = execute(s, self.tag + ".ref")[0]
            out = header_outputs(post)
            v = ended(r) or headers_complete(out, names) or headers_usable(out, self.tag, None if k % 40 else repo_pyx())
            if len(self.scans) > 40:
                self.scans.clear()
            self.scans[k] = (r, out, v and "undisturbed build: " + v)
        return self.scans[k]

    def run(self, cfg, tol):
        k = (json.dumps(cfg), tol, self.prof)
        if k not in self.c:
            self.n += 1
            d = fresh(self.tag + ".ref")
            put(os.path.join(d, "run"), {"config.yml": yaml(cfg)})
            r = run_step(d, {"plan": "seed 1\n" + QUIET + "fault mem alloc err 900000000000\n", "tol": tol}, self.tag + ".ref",
                         prof=self.prof)
            self.c[k] = (r, outputs(snap(os.path.join(d, "run"))))
            if len(self.c) > 60:
                self.c.pop(next(iter(self.c)))
        return self.c[k]

    def model(self, cfg):
        k = json.dumps(cfg)
        if len(self.pipe) > 200:
            self.pipe.clear()
        if k not in self.pipe:
            m = refpipe(cfg, "interp", self.tag)
            self.pipe[k] = m if usable(m) else None
        return self.pipe[k]


def sched_lines(R, ticks, mild=False):
    pol = R.choice(["uniform", "uniform", "pct", "rr"])
    gap = math.exp(R.uniform(math.log(40 if not mild else 2000), math.log(200000)))
    gap = max(gap, ticks / 6000.)
    p = ["seed %d" % R.getrandbits(48), "policy %s" % pol, "gap %.1f" % gap, "hotp %g" % R.choice([0, 0, .02, .3]),
         "wakep %g" % R.choice([.1, .5]), "spurp %g" % R.choice([0, .1, .4]), "stallp %g" % R.choice([0, 0, .1]),
         "stalllen %d" % R.choice([500, 20000, 200000]), "pctd %d" % R.randint(1, 8),
         "pctest %d" % int(ticks * R.choice([.3, 1, 2])), "ncpu %d" % R.randint(1, 8),
         "clockjump %d" % R.choice([0, 1])]
    return "\n".join(p) + "\n"


def quiet_lines(R):
    return "seed %d\npolicy none\nncpu %d\n" % (R.getrandbits(48), R.choice([1, 1, 2, 4]))


# ------------------------------------------------------------------ scenarios
# scenario: {"prop", "kind", "prep": {path below the scratch directory: text}, "links": {...},
#            "steps": [{"cfg", "tol", "plan", "args", "env", "files"}], ...}
LONG = ("C08", "C09", "C10", "C13", "C14", "C17")


def lengthen(R, c):
    """Some files several times longer than the programs' 8 KiB output buffers."""
    if R.random() < .7:
        lo, n = R.choice([.01, .02]), R.choice([230, 300, 420, 640])
        c["momenta"] = [lo, round(lo + .007 * n, 6), .007]
        st = c["fewtemps"][2]
        c["fewtemps"] = [0., st * R.choice([0, 1, 1, 2]), st]
        g = c["fewchempots"]
        c["fewchempots"] = [g[0], g[0] + g[2] * R.choice([0, 0, 1]), g[2]]
    else:
        # a diagram of hundreds of chemical potentials: long tables
        g = c["manychempots"]
        n = R.choice([260, 400, 700])
        c["manychempots"] = [g[0], g[1], (g[1] - g[0]) / n]
        t = c["manytemps"]
        c["manytemps"] = [0., t[1], (t[1] - t[0]) / R.choice([2, 3])]
    return c


def enlarge(R, c):
    """One or two of the grids beyond the sizes at which work is commonly split."""
    for g in R.sample(["momenta", "manytemps", "fewtemps", "moretemps", "manychempots", "morechempots"], R.choice([1, 1, 2])):
        n = R.choice([17, 33, 40, 65, 100, 130]) if g == "momenta" else R.choice([17, 33, 40, 65])
        lo, hi = c[g][0], c[g][0] + c[g][2] * round((c[g][1] - c[g][0]) / c[g][2])
        if hi > lo:
            c[g] = [lo, hi, (hi - lo) / n]
    return c


def base_cfg(prop, i, refs, size=0, tol=1e-4):
    """The usable configuration shared by a block of runs."""
    k = i // 8
    for a in range(60):
        R = rng(simlib.SEED, prop, "cfg", k, a)
        c = gen_cfg(R, size)
        if prop in LONG and k % 9 == 5:
            c = lengthen(R, c)
        if prop == "C12" and k % 7 == 3:
            c = enlarge(R, c)
        if prop in ("C08", "C12", "C14") and k % 4 == 2:
            # more temperatures than workers, the maximum often at or near the last
            c["manytemps"] = rnd_grid(R, 0., R.choice([.05, .07, .09, .11, .2]), R.choice([7, 11, 14, 17, 23]))
        if refs.model(c) is None:
            continue
        if prop in MUST_RUN or refs.run(c, tol)[0].rc == 0:
            return c
    return None


def mild_plan(R, ref):
    t = ref.h["ticks"]
    p = sched_lines(R, t) if R.random() < .7 else quiet_lines(R)
    return p + "maxtick %d\n" % (60 * t + 60000000)


ENVCH = [{}, {}, {}, {"RAYON_NUM_THREADS": "1"}, {"RAYON_NUM_THREADS": "2"}, {"RAYON_NUM_THREADS": "3"},
         {"RAYON_NUM_THREADS": "5"}, {"RAYON_NUM_THREADS": "13"}, {"RAYON_NUM_THREADS": "0"}]


def pick_tol(i):
    return 1e-4 if i % 16 < 12 else 1e-7


def gen_C08(R, i, refs):
    tol = pick_tol(i)
    c = base_cfg("C08", i, refs, tol=tol)
    if c is None:
        return None
    ref, _ = refs.run(c, tol)
    plan = sched_lines(R, ref.h["ticks"]) + "maxtick %d\n" % (60 * ref.h["ticks"] + 60000000)
    return {"prep": {"run/config.yml": yaml(c)}, "steps": [{"cfg": c, "tol": tol, "plan": plan, "env": R.choice(ENVCH)}]}


ERRS = {"write": [5, 28, 122, 27], "openw": [13, 28, 24, 5, 30], "mkdir": [13, 28, 5, 30]}


def opened(ref):
    """Positions right after each opening for writing, and the end."""
    return [int(l[7:]) for l in ref.lines("opened ")] + [ref.cl_events["data"]]


def rand_fault(R, ref, mem=True):
    """One failure of a file operation, an allocation or a thread start."""
    ev = ref.cl_events
    u = R.random()
    at = R.randrange(ev["data"] + 1)
    more = [(op, int(l[7:])) for op in ("meta", "sync") for l in ref.lines(op + "op ")]
    if more and R.random() < .25:
        # renames, removals and syncs, if the program makes any
        op, k = R.choice(more)
        return "fault data %s err %d" % (op, max(0, k - 1))
    if R.random() < .3:
        # around the first and last operations on a file
        at = max(0, R.choice(opened(ref)) + R.choice([-3, -2, -1, -1, 0, 0, 1]))
    if u < .40:
        return "fault data write %s %d" % (R.choice(["err", "err", "torn", "zero", "full"]), at)
    if u < .62:
        return "fault data %s %s %d" % (R.choice(["openw", "openw", "mkdir"]), R.choice(["err", "full"]), at)
    if u < .68:
        return "fault data write %s %d" % (R.choice(["short", "eintr"]), at)
    if u < .74:
        return "fault data close err %d" % at
    if u < .80:
        return "fault thr spawn %s %d" % (R.choice(["eagain", "err"]), R.randrange(max(1, ev["thr"])))
    if mem and ev["mem"]:
        return "fault mem alloc err %d" % R.randrange(ev["mem"] + 1)
    return "fault data * err %d" % at


def gen_C09(R, i, refs):
    tol = 1e-4
    c = base_cfg("C09", i, refs, tol=tol)
    if c is None:
        return None
    ref, _ = refs.run(c, tol)
    plan = mild_plan(R, ref)
    for _ in range(R.choice([1, 1, 1, 2, 3])):
        plan += rand_fault(R, ref) + "\n"
    if R.random() < .1:
        plan += "rate data write %s %g\n" % (R.choice(["err", "torn", "zero"]), R.choice([.003, .02]))
    s = {"prep": {"run/config.yml": yaml(c)}, "steps": [{"cfg": c, "tol": tol, "plan": plan, "env": R.choice(ENVCH)}]}
    if R.random() < .3:
        # leftovers of an earlier, complete run of another configuration with the same file names
        c2 = variant(R, c)
        s["steps"].insert(0, {"cfg": c2, "tol": tol, "plan": "seed 3\n" + QUIET, "files": {"run/config.yml": yaml(c2)}, "setup": 1})
        s["steps"][1]["files"] = {"run/config.yml": yaml(c)}
    return s


def variant(R, c):
    """Another configuration whose output files have (mostly) the same names."""
    c2 = json.loads(json.dumps(c))
    u = R.random()
    if u < .5:
        p = c2["momenta"]
        c2["momenta"] = [p[0], p[0] + p[2] * (len(grid(p)) + R.randint(0, 4)), p[2]]
    elif u < .7:
        c2["momenta"] = [.01, .51, .5]
    if R.random() < .5:
        c2["mq"] = [round(x * R.uniform(.95, 1.05), 4) for x in c2["mq"]]
        c2["f0"] = round(c2["f0"] * R.uniform(.97, 1.03), 4)
    if R.random() < .4:
        g = c2["manychempots"]
        c2["manychempots"] = [g[0], g[0] + g[2] * (len(grid(g)) + R.randint(0, 2)), g[2]]
    if R.random() < .25:
        c2["fewchempots"] = [c2["fewchempots"][0], c2["fewchempots"][1] + c2["fewchempots"][2], c2["fewchempots"][2]]
    return c2


def kill_fault(R, ref):
    u = R.random()
    n = ref.cl_events["data"]
    if u < .75:
        return "fault data %s %s %d\n" % (R.choice(["*", "*", "write", "openw"]),
                                        R.choice(["crash_before", "crash_after"]), R.randrange(max(1, n)))
    if u < .9:
        return "fault data write crash_mid %d\n" % R.randrange(max(1, n))
    return "crashtick %d\n" % R.randrange(1, ref.h["ticks"])


def gen_C10(R, i, refs):
    tol = 1e-4
    c = base_cfg("C10", i, refs, tol=tol)
    if c is None:
        return None
    ref, _ = refs.run(c, tol)
    steps = []
    for _ in range(R.choice([1, 1, 1, 2, 2, 3])):
        cc = c if R.random() < .5 else variant(R, c)
        if cc is not c and (refs.model(cc) is None or refs.run(cc, tol)[0].rc != 0):
            cc = c
        rr = refs.run(cc, tol)[0]
        u = R.random()
        plan = mild_plan(R, rr)
        if u < .75:
            plan += kill_fault(R, rr)
        elif u < .85:
            plan += rand_fault(R, rr) + "\n"
        steps.append({"cfg": cc, "tol": tol, "plan": plan, "files": {"run/config.yml": yaml(cc)}})
    steps.append({"cfg": c, "tol": tol, "plan": mild_plan(R, ref), "files": {"run/config.yml": yaml(c)}, "final": 1})
    return {"prep": {}, "steps": steps}


NAMES = ["run/config.yml", "run/my config.yml", "run/cfg/a.yml", "outside/b.yml", "run/x.yaml", "run/config.yml.bak",
         "run/target/c.yml", "run/cfg/config.yml"]


def malformed(R, c):
    """A configuration text that no reading makes complete."""
    t = yaml(c).split("\n")
    u = R.choice(["drop", "word", "short", "cut", "empty", "bad", "bytes", "scalar", "midcut"])
    k = R.choice(KEYS)
    ix = next(n for n, l in enumerate(t) if l.startswith(k + ":"))
    if u == "drop":
        del t[ix]
    elif u == "word":
        t[ix] = k + ": " + ("[a, b, c]" if isinstance(c[k], list) else "heavy")
    elif u == "short":
        k = R.choice(GRIDS + ["mq", "mqc"])
        ix = next(n for n, l in enumerate(t) if l.startswith(k + ":"))
        t[ix] = "%s: [%s]" % (k, ", ".join(num(x) for x in c[k][:2]))
    elif u == "cut":
        t = t[:R.randrange(0, len(KEYS))]
    elif u == "midcut":
        x = "\n".join(t)
        return u, x[:R.randrange(1, x.index("momenta") + 3)]
    elif u == "empty":
        return u, R.choice(["", "\n", "# nothing\n"])
    elif u == "bad":
        t[ix] = k + ": [0.1, 0.2"
    elif u == "bytes":
        return u, "\n".join(t) + "\n\xff\xfe\x80: 1\n"
    elif u == "scalar":
        return u, "just text\n"
    return u, "\n".join(t) + "\n"


def gen_C11(R, i, refs):
    tol = 1e-4
    c = base_cfg("C11", i, refs, tol=tol)
    if c is None:
        return None
    ref, _ = refs.run(c, tol)
    plan = mild_plan(R, ref)
    kind = R.choice(["named", "named", "default", "rerun", "rerun", "malformed", "malformed", "openerr", "openerr", "readerr",
                     "missing", "directory", "transient", "odd"])
    s = {"mode": kind, "prep": {}}
    name = R.choice(NAMES[1:]) if kind not in ("default",) else "run/config.yml"
    if kind in ("openerr", "readerr", "malformed", "transient") and R.random() < .5:
        name = "run/config.yml"
    arg = os.path.relpath("/" + name, "/run")
    step = {"cfg": c, "tol": tol, "plan": plan}
    text = yaml(c, R)
    if R.random() < .2:
        text = "# " + "x" * R.choice([100, 5000, 9000, 20000]) + "\n" + text
    decoy = variant(R, c)
    decoy["mg"] = round(decoy["mg"] * 1.01, 4)
    if name != "run/config.yml" and R.random() < .7:
        s["prep"]["run/config.yml"] = yaml(decoy)
    if R.random() < .4:
        s["prep"]["run/" + OUTDIR + "/config.yml"] = yaml(decoy)
    if name != "run/config.yml" or R.random() < .3:
        step["args"] = [arg if R.random() < .7 else "ABS:" + name]
    if kind == "malformed":
        s["how"], text = malformed(R, c)
        step["plan"] += "maxtick %d\n" % (3 * ref.h["ticks"] + 20000000)
    elif kind == "openerr":
        step["plan"] += "fault read openr err 0 %d\nmaxtick %d\n" % (R.choice([5, 13, 24, 23, 40, 1, 12, 75]), 3 * ref.h["ticks"] + 20000000)
    elif kind == "readerr":
        step["plan"] += "fault read read err %d %d\nmaxtick %d\n" % (R.choice([1, 1, 2]), R.choice([5, 12, 116, 21]), 3 * ref.h["ticks"] + 20000000)
    elif kind == "transient":
        step["plan"] += "rate read read short %g\nrate read read eintr %g\nrate read openr eintr .5\nmaxrate 400\n" % (R.choice([.2, .8]), R.choice([0, .3]))
    elif kind == "missing":
        # nothing under that name: built-in values, whatever else lies around; stopped early
        step["plan"] += "crashtick %d\n" % R.choice([30000000, 60000000])
        step["cfg"] = DEFAULTS
        text = None
        if name == "run/config.yml":
            step.pop("args", None)
    elif kind == "directory":
        text = None
        s["prep"][name + "/inside"] = "x"
        step["plan"] += "maxtick %d\n" % (3 * ref.h["ticks"] + 20000000)
    elif kind == "odd":
        # the same numbers in other spellings
        text = re.sub(r"\b(\d+)\.0\b", lambda m: R.choice([m.group(1), m.group(0), m.group(1) + ".", m.group(1) + ".00"]), yaml(c))
        text = text.replace("1e-05", R.choice(["1e-5", "1.0E-5", "0.00001", "1e-05"]))
    if text is not None:
        s["prep"][name] = text
    s["steps"] = [step]
    s["target"] = name
    if kind == "rerun":
        nxt = {"cfg": c, "tol": tol, "plan": mild_plan(R, ref), "recorded": R.choice(["inplace", "inplace", "copy", "default"])}
        s["steps"].append(nxt)
        if R.random() < .3:
            s["steps"].append(dict(nxt, plan=mild_plan(R, ref)))
    return s


def gen_C12(R, i, refs):
    c = base_cfg("C12", i * 8, refs, size=R.choice([0, 0, 1, 1, 2]), tol=None)
    if c is None:
        return None
    unusual = None
    if i % 64 == 3:
        # grids of temperatures that do not start at zero
        unusual = "late"
        for g in ("fewtemps", "moretemps", "manytemps"):
            d = (c[g][1] - c[g][0]) / 3
            if d > 0:
                c[g] = [c[g][0] + d / 2, c[g][1], d / 2]
            else:
                c[g] = [.05, .05, .1]
    elif i % 64 == 35:
        # chemical potentials that agree in the digits the file names show
        unusual = "fine"
        a = c["fewchempots"][0]
        c["fewchempots"] = [a, a + 8e-5, 2e-5]
    pts = len(grid(c["manytemps"])) * len(grid(c["manychempots"])) + len(grid(c["fewtemps"])) * len(grid(c["fewchempots"])) * len(grid(c["momenta"]))
    t = 200000 + 90000 * pts
    plan = (sched_lines(R, t) if R.random() < .3 else quiet_lines(R)) + "maxtick %d\n" % (60 * t + 60000000)
    s = {"prep": {"run/config.yml": yaml(c, R)}, "steps": [{"cfg": c, "tol": None, "plan": plan}]}
    if unusual:
        s["unusual"] = unusual
    return s


LEVELS = ["off", "error", "warn", "info", "debug", "trace", "physical_tc=debug", "physical_tc=off,trace", "qcd_sme=trace", "", "info,rayon=off", "loud", "=,,=", "foo=bar=baz", "info/["]


def gen_C13(R, i, refs):
    tol = 1e-4
    c = base_cfg("C13", i, refs, tol=tol)
    if c is None:
        return None
    ref, _ = refs.run(c, tol)
    plan = mild_plan(R, ref)
    env = {}
    if R.random() < .6:
        env["RUST_LOG"] = R.choice(LEVELS)
    if R.random() < .2:
        env["RUST_LOG_STYLE"] = R.choice(["always", "never", "auto"])
    n = max(2, ref.cl_events["diag"])
    for _ in range(R.choice([0, 1, 1, 2])):
        k = R.choice(["err", "err", "eintr", "short", "stall", "zero"])
        plan += "rate diag write %s %g %d\n" % (k, R.choice([.01, .1, .5, 1]) if k != "eintr" else R.choice([.05, .5]),
                                             R.choice([0, 32, 5, 28, 9, 11]) if k == "err" else 0)
    for _ in range(R.choice([0, 0, 1, 3])):
        plan += "fault diag write %s %d\n" % (R.choice(["err", "short", "zero", "stall"]), R.randrange(n))
    s = {"prep": {"run/config.yml": yaml(c)}, "steps": [{"cfg": c, "tol": tol, "plan": plan, "env": env}]}
    if R.random() < .08:
        # a directory or a configuration that has no printable name
        st = s["steps"][0]
        if env.get("RUST_LOG") in ("foo=bar=baz", "info/["):
            env.pop("RUST_LOG")
        if R.random() < .5:
            st["where"] = R.choice(["run\udcff", "r\udce9sum\udce9/run", "caf\u00e9 run", "run\\x"]).replace("/", "_")
        else:
            st["stdin"], st["args"] = yaml(c), [R.choice(["/dev/stdin", "/dev/fd/0", "/proc/self/fd/0"])]
        s["steps"].insert(0, dict(st, plan=quiet_lines(R), env={"RUST_LOG": "off"}, silent=True))
    return s


def gen_C14(R, i, refs):
    tol = pick_tol(i)
    c = base_cfg("C14", i, refs, tol=tol)
    if c is None:
        return None
    ref, _ = refs.run(c, tol)
    plan = mild_plan(R, ref)
    env = dict(R.choice(ENVCH))
    if R.random() < .85:
        for cl, op in (("data", "write"), ("data", "openw"), ("read", "read"), ("read", "openr"), ("diag", "write")):
            if R.random() < .5:
                plan += "rate %s %s eintr %g\n" % (cl, op, R.choice([.02, .2, .5]))
            if op in ("write", "read") and R.random() < .6:
                plan += "rate %s %s short %g\n" % (cl, op, R.choice([.05, .3, .9]))
            if R.random() < .2:
                plan += "rate %s %s stall %g\n" % (cl, op, R.choice([.02, .2]))
        plan += "maxrate %d\n" % R.choice([20, 200, 2000])
    for _ in range(R.choice([0, 0, 1, 2])):
        plan += "fault data write %s %d\n" % (R.choice(["short", "eintr"]), R.randrange(ref.cl_events["data"] + 1))
    return {"prep": {"run/config.yml": yaml(c)}, "steps": [{"cfg": c, "tol": tol, "plan": plan, "env": env}]}


def gen_C17s(R, refs):
    """The parameter-scan programs."""
    exe = R.choice(["one_mass_overall", "two_masses_overall"])
    st = {"exe": exe, "tol": .1, "maxiter": 3}
    ref, out = alone(st, refs)
    prep = {}
    for p in ("run/notes.txt", "run/target/other.txt", "run/target/tc_long_prop/tc.out", "outside/z.txt", "run/tc.out", "run/config.yml",
              "run/" + OUTDIR + "/tc_nf_2+1.out", "run/" + OUTDIR + "/data/x", "run/" + SCANDIR + exe + "/earlier.png",
              "run/" + SCANDIR + exe + "/tc.out.bak", "run/" + SCANDIR + exe + "/sub/file"):
        if R.random() < .5:
            prep[p] = "precious %d\n" % R.randrange(1000)
    for k in out:
        if R.random() < .2:
            prep[k] = "stale\n" * R.randint(0, 40)
    st["plan"] = mild_plan(R, ref)
    u = R.random()
    if u < .3:
        st["plan"] += kill_fault(R, ref)
    elif u < .7:
        for _ in range(R.choice([1, 2])):
            st["plan"] += table_fault(R, ref) + "\n"
    return {"prep": prep, "steps": [st]}


def gen_C17(R, i, refs):
    if i % 8 == 5:
        return gen_C17s(R, refs)
    tol = 1e-4
    c = base_cfg("C17", i, refs, tol=tol)
    if c is None:
        return None
    ref, out = refs.run(c, tol)
    name = R.choice(NAMES)
    prep = {}
    for p in ("run/notes.txt", "run/data/keep.out", "run/target/other.txt", "run/target/tc_long_prop/tc.out", "outside/z.txt",
              "run/target/tc_long_prop/one_mass_overall/tc.out", "run/config.yml~", "run/tc_nf_2+1.out"):
        if R.random() < .5:
            prep[p] = "precious %d\n" % R.randrange(1000)
    for p in ("old.png", "data/nf_2+1_glulongprop_t_9.0000_mu_0.0000.out", "data/nf_2+1_m1_glulongprop_t_0.0000_mu_0.3400.out",
              "tc_nf_2+1+1.out", "config.yml.old", "sub/dir/file", "data/.hidden", "nf_2+1_mu_7.7000.png", "tc_nf_2+1.out.tmp", "data/readme"):
        if R.random() < .5:
            prep["run/" + OUTDIR + "/" + p] = "earlier %d\n" % R.randrange(1000)
    if R.random() < .4:
        # stale versions of files this run rewrites
        for k in out:
            if R.random() < .5:
                prep["run/" + k] = "stale\n" * R.randint(0, 40)
    prep[name] = yaml(c, R)
    step = {"cfg": c, "tol": tol, "plan": mild_plan(R, ref)}
    if name != "run/config.yml":
        step["args"] = [os.path.relpath("/" + name, "/run") if R.random() < .7 else "ABS:" + name]
        if R.random() < .5:
            prep["run/config.yml"] = "precious: 1\n"
    u = R.random()
    if u < .3:
        step["plan"] += kill_fault(R, ref)
    elif u < .7:
        for _ in range(R.choice([1, 2])):
            step["plan"] += rand_fault(R, ref) + "\n"
    s = {"prep": prep, "steps": [step]}
    if R.random() < .3:
        c2 = variant(R, c)
        s["steps"].append({"cfg": c2, "tol": tol, "plan": mild_plan(R, ref), "args": ["again.yml"], "files": {"run/again.yml": yaml(c2)}})
    return s


SCANDIR = "target/tc_long_prop/"
SCANTOLS = [(.1, 3)] * 9 + [(.1, 6), (1e-3, 5), (1e-10, 4)]


def scan_outputs(snapshot, exe):
    p = "run/" + SCANDIR + exe + "/"
    return {k[len(p):]: v[1] for k, v in snapshot.items() if v[0] == "f" and k.startswith(p)}


def scan_against(exe, tol, maxiter, out, tag):
    """First disagreement with the reference tables and figures."""
    p = simlib.run(REFPIPE, ["tables", exe.split("_")[0], "100", "8"],
                   "seed 1\n%stol %g\nmaxiter %d\nroot %s\n" % (QUIET, tol, maxiter, os.path.join(simlib.scratch(), "none")),
                   simlib.scratch(), tag + ".rp", keep_out=True)
    if p.rc or p.h["status"] != 1:
        raise HarnessError("the reference tables did not come about")
    rows = [(float(l.split(" ")[1]), l.split(" ", 2)[2]) for l in p.stdout.split("\n") if l.startswith("W ")]
    got = out.get("tc.out", b"").decode("latin-1").split("\n")
    if got[-1] != "" or len(got) - 1 != len(rows):
        return "tc.out has %d rows instead of %d" % (len(got) - 1, len(rows))
    for n, (g, (gap, e)) in enumerate(zip(got, rows)):
        if g != e and not (gap < 1e-9 and g.split("\t")[:-1] == e.split("\t")[:-1]):
            return "tc.out row %d is %r instead of %r" % (n + 1, g[:80], e)
    plots = parse_ref(p.stdout)["plots"]
    for k in sorted(set(plots) | (set(out) - {"tc.out"})):
        if k not in plots or k not in out:
            return "%s %s" % ("missing figure" if k in plots else "unexpected file", k)
        x = plot_diff(k, plots[k], out[k])
        if x:
            return x
    return None


def gen_C15(R, i, refs):
    exe = R.choice(["one_mass_overall", "two_masses_overall"])
    tol, mi = R.choice(SCANTOLS)
    ref, out, _ = refs.scan(exe, tol, mi)
    n = R.choice([1, 1, 1, 1, 2, 2, 3])
    steps = []
    for k in range(n):
        plan = mild_plan(R, ref)
        if k == n - 1 and n > 1:
            pass
        elif R.random() < .3:
            plan += kill_fault(R, ref)
        elif n > 1 or R.random() < .75:
            for _ in range(R.choice([1, 1, 2])):
                plan += table_fault(R, ref) + "\n"
        steps.append({"exe": exe, "tol": tol, "maxiter": mi, "plan": plan, "env": R.choice(ENVCH)})
    prep = {}
    t = "run/" + SCANDIR + exe + "/"
    if R.random() < .35:
        # leftovers of a run with other parameters, longer or shorter
        prep[t + "tc.out"] = "".join("9\t0.%03d\t0.000\t0.123\n" % k for k in range(R.choice([0, 3, 100, 400])))
    if R.random() < .2:
        prep["run/target/other.txt"] = "x"
    return {"prep": prep, "steps": steps}


def alone(prog, refs):
    """What a program does when it has the working directory for itself: (result, outputs below the output tree)."""
    if prog["exe"] == "physical_tc":
        r, out = refs.run(prog["cfg"], prog["tol"])
        return r, {"run/" + k: v for k, v in out.items()}
    r, out, _ = refs.scan(prog["exe"], prog["tol"], prog["maxiter"], check=False)
    return r, {"run/" + SCANDIR + prog["exe"] + "/" + k: v for k, v in out.items()}


def gen_C19(R, i, refs):
    c = base_cfg("C19", i, refs)
    if c is None:
        return None
    progs = {"physical_tc": {"exe": "physical_tc", "cfg": c, "tol": 1e-4},
             "one_mass_overall": {"exe": "one_mass_overall", "tol": .1, "maxiter": 3},
             "two_masses_overall": {"exe": "two_masses_overall", "tol": .1, "maxiter": 3}}
    # the parameter scans are the slower ones
    x = R.choice(["physical_tc"] * 5 + ["one_mass_overall", "two_masses_overall"])
    y = x if R.random() < .25 else R.choice([n for n in progs if n != x])
    ref, _ = alone(progs[x], refs)
    plan = mild_plan(R, ref)
    st = dict(progs[x], peer=dict(progs[y]))
    u = R.random()
    if y != x and u < .2:
        plan += kill_fault(R, ref)
    elif y != x and u < .4:
        plan += "peermax %d\n" % R.choice([1, 2, 3, 4, 6, 10, 25, 60, 200])
        st["peercut"] = True
    elif u < .5:
        plan += "rate data write %s .05\n" % R.choice(["short", "eintr"])
    plan += "peerp %g\npeerburst %d\n" % (R.choice([.03, .1, .3, .6, 1]), R.choice([1, 1, 1, 2, 4, 12, 60]))
    plan += "peermeta %g\npeerhold %g\n" % (R.choice([0, .2, .5]), R.choice([0, .2, .5]))
    if R.random() < .3:
        plan += "peerfrom %d\n" % R.randrange(2 + (ref.cl_events["data"] + ref.cl_events["read"]) // 2)
    st["plan"] = plan
    prep = {"run/config.yml": yaml(c)}
    if R.random() < .2:
        prep["run/" + SCANDIR + "notes.txt"] = "precious\n"
    return {"prep": prep, "steps": [st]}


def oracle_C19(s, st, r, post, refs):
    ref, out = alone(st, refs)
    pref, pout = alone(st["peer"], refs)
    if ended(ref) or ended(pref) or r.h["status"] == 5:
        return "INVALID", 0
    e = ended(r)
    who = "%s beside %s" % (st["exe"], "itself" if st["exe"] == st["peer"]["exe"] else st["peer"]["exe"])
    if e and not r.h["crash_fired"]:
        return "%s: %s" % (who, e), 1
    files = {k: v[1] for k, v in post.items() if v[0] == "f"}
    f = next((l for l in r.log.split("\n") if l.startswith("peerfail")), None)
    if f:
        return "%s: the other run would have failed, %s" % (who, f[9:]), 1
    if not e:
        v = diff_outputs(out, files)
        if v:
            return "%s: successful run, but %s" % (who, v), 1
    if not st.get("peercut"):
        v = diff_outputs(pout, files)
        if v:
            return "%s: the other run's %s" % (who, v), 1
    for k, v in s["prep"].items():
        if files.get(k) != enc(v) and files.get(k) != v.encode():
            return "%s: %s was altered" % (who, k), 1
    return None, len(out) + len(pout)


def table_fault(R, ref):
    """As rand_fault, but the table's own few writes get their share."""
    if R.random() < .35:
        n = ref.cl_events["data"]
        return "fault data write %s %d" % (R.choice(["err", "zero", "full", "torn"]), n - 1 - R.choice([0, 0, 0, 1, 2, 5, R.randrange(n)]))
    return rand_fault(R, ref)


def oracle_C15(st, pre, r, post, refs, last):
    exe = st["exe"]
    ref, out, v = refs.scan(exe, st["tol"], st["maxiter"])
    if v:
        return v, 1
    if ended(ref) or r.h["status"] == 5:
        return "INVALID", 0
    got, before, t = scan_outputs(post, exe), scan_outputs(pre, exe), touched(r)
    e = ended(r)
    if e == "deadlock":
        return "neither succeeds nor exits: deadlock", 1
    disturbed = r.fired or r.h["crash_fired"]
    if e and not disturbed:
        return "no failure and no kill, but the run ended: %s" % e, 1
    tab = got.get("tc.out", b"")
    if not e:
        if tab != out["tc.out"]:
            return "exit status 0, but tc.out differs: %d bytes of %d%s" % (
                len(tab), len(out["tc.out"]), "" if out["tc.out"].startswith(tab) else ", and not a prefix"), 1
        for k in out:
            if got.get(k) != out[k]:
                return "exit status 0, but %s %s" % (k, "differs" if k in got else "is missing"), 1
        return None, 1 + len(out)
    if SCANDIR + exe + "/tc.out" in t:
        if not out["tc.out"].startswith(tab):
            return "after %s, tc.out is not a prefix of the correct table" % e, 1
    elif got.get("tc.out") != before.get("tc.out"):
        return "after %s, tc.out changed although never opened" % e, 1
    return None, 1


HDR = "run/target/debug/include/"
HEADERS = ("qcd_sme.h", "qcd_sme.hpp", "qcd_sme.pxd")


def real_crate():
    """The sources the build script reads, and the names the library built from them exports."""
    base = os.path.join(simlib.REPO, "qcd-sme")
    files = {}
    for b, _, fs in os.walk(os.path.join(base, "src")):
        for f in sorted(fs):
            with open(os.path.join(b, f)) as fh:
                files["run/qcd-sme/" + os.path.relpath(os.path.join(b, f), base)] = fh.read()
    so = os.path.join(simlib.BIN, "deps/libqcd_sme.so")
    p = subprocess.run(["nm", "-D", "--defined-only", so], capture_output=True, text=True)
    names = [l.split()[2] for l in p.stdout.splitlines() if len(l.split()) == 3 and l.split()[1] == "T"]
    names = sorted(n for n in names if not n.startswith(("_", "rust_")))
    if p.returncode or not names:
        raise HarnessError("no exported names: " + p.stderr[:300])
    return files, names


def toy_crate(R):
    """A small crate with the same type names."""
    files, names, mods = {}, [], []
    nm = R.randint(0, 3)
    for k in range(nm + 1):
        t = ["// part %d" % k]
        if k:
            t.append("use crate::{C, R};")
        for j in range(R.choice([1, 2, 5, 60 if R.random() < .2 else 8])):
            n = "f%d_%d" % (k, j)
            a = ["%s: %s" % (x, R.choice(["R", "R", "C", "u32"])) for x in ("om", "p", "beta", "mu")[:R.randint(0, 4)]]
            if R.random() < .5:
                t.append("/// Function %s." % n)
            t.append('#[no_mangle]\npub extern "C" fn %s(%s) -> %s {\n    todo!()\n}' % (n, ", ".join(a), R.choice(["R", "C", "C"])))
            names.append(n)
        if k:
            mods.append("m%d" % k)
            files["run/qcd-sme/src/m%d%s.rs" % (k, "/mod" if R.random() < .3 else "")] = "\n".join(t) + "\n"
        else:
            t = ["mod m%d;" % (i + 1) for i in range(nm)] + ["pub type R = f64;", "pub type C = num::Complex<R>;"] + t
            # make sure that the complex type is in use
            t.append('#[no_mangle]\npub extern "C" fn last(z: C) -> C {\n    z\n}')
            names.append("last")
            files["run/qcd-sme/src/lib.rs"] = "\n".join(t) + "\n"
    return files, sorted(names)


def crate_files(k):
    R = rng(simlib.SEED, "C16", "crate", k)
    files, names = real_crate() if k % 40 == 0 else toy_crate(R)
    files["run/qcd-sme/Cargo.toml"] = '[package]\nname = "qcd-sme"\nversion = "0.3.2"\nedition = "2021"\n\n[dependencies]\nnum = "0.4"\n'
    files["run/Cargo.lock"] = 'version = 3\n\n[[package]]\nname = "qcd-sme"\nversion = "0.3.2"\n'
    meta = {"packages": [{"name": "qcd-sme", "version": "0.3.2", "id": "qcd-sme 0.3.2 (path+file://@D@/run/qcd-sme)",
                          "license": None, "license_file": None, "description": None, "source": None, "dependencies": [],
                          "targets": [{"kind": ["lib"], "crate_types": ["lib"], "name": "qcd-sme",
                                       "src_path": "@D@/run/qcd-sme/src/lib.rs", "edition": "2021", "doc": True, "doctest": True, "test": True}],
                          "features": {}, "manifest_path": "@D@/run/qcd-sme/Cargo.toml", "metadata": None, "publish": None,
                          "authors": [], "categories": [], "keywords": [], "readme": None, "repository": None, "edition": "2021",
                          "links": None}],
            "workspace_members": ["qcd-sme 0.3.2 (path+file://@D@/run/qcd-sme)"], "resolve": None,
            "target_directory": "@D@/run/target", "version": 1, "workspace_root": "@D@/run", "metadata": None}
    files["meta.json"] = json.dumps(meta)
    files["cargo.sh"] = "#!/bin/sh\n/bin/cat @D@/meta.json\n"
    files["cargo_fail.sh"] = "#!/bin/sh\n/bin/cat @D@/meta.json\nexit 101\n"
    files["cargo_cut.sh"] = "#!/bin/sh\n/usr/bin/head -c 300 @D@/meta.json\n"
    files["run/target/keep.txt"] = "x\n"
    return files, names


def gen_C16(R, i, refs):
    k = i // 8
    ref, out, v = refs.headers(k)
    steps = []
    n = R.choice([1, 1, 2, 2, 3])
    for j in range(n):
        st = {"exe": "genheaders", "crate": k, "cargo": "cargo.sh", "plan": quiet_lines(R) + "maxtick %d\n" % (20 * ref.h["ticks"] + 60000000)}
        u = R.random()
        if j == n - 1 and n > 1 and R.random() < .7:
            st["final"] = 1
            if R.random() < .3:
                st["plan"] += "rate read read eintr .2\nrate read read short .5\nrate data write eintr .2\nrate data write short .5\nmaxrate 400\n"
        elif u < .35:
            st["plan"] += kill_fault(R, ref)
        elif u < .75:
            st["plan"] += rand_fault(R, ref) + "\n"
        elif u < .95:
            st["plan"] += "fault read %s err %d %d\n" % (R.choice(["openr", "read", "*"]), R.randrange(1, ref.cl_events["read"] + 1), R.choice([5, 13, 24, 12]))
        else:
            st["cargo"] = R.choice(["cargo_fail.sh", "cargo_cut.sh", "nothing.sh"])
        if j and R.random() < .2 and not st.get("final"):
            # the sources changed since
            st["crate"] = k + 1
        steps.append(st)
    prep = {}
    if R.random() < .4:
        for h in HEADERS:
            u = R.random()
            full = out.get(h, b"").decode()
            if u < .3:
                prep[HDR + h] = full[:R.randrange(len(full) + 1)]
            elif u < .5:
                prep[HDR + h] = full + "// junk\n" * R.choice([1, 4000])
            elif u < .6:
                prep[HDR + h] = ""
    return {"prep": prep, "steps": steps, "crates": sorted({st["crate"] for st in steps})}


def header_outputs(snapshot):
    return {k[len(HDR):]: v[1] for k, v in snapshot.items() if v[0] == "f" and k.startswith(HDR)}


def headers_complete(out, names):
    """Independent of the build script: every exported function, in every header, no generic left."""
    for h in HEADERS:
        t = out.get(h, b"").decode("utf-8", "replace")
        got = sorted(re.findall(r"\b(\w+)\([^;{}]*\);" if not h.endswith("pxd") else r"\b(\w+)\([^;]*?\);", t))
        if sorted(set(got)) != sorted(set(names)):
            d = sorted(set(got) ^ set(names))
            return "%s: %s" % (h, ", ".join(d[:4]))
        if "Complex<" in t or "Complex[" in t:
            return "%s: the complex type is left undefined" % h
        if not re.search(r"\bstruct Complex\b", t):
            return "%s: no complex type" % h
    return None


def repo_pyx():
    try:
        with open(os.path.join(simlib.REPO, "python/pyqcd_sme_so.pyx")) as f:
            return f.read()
    except OSError:
        return "cimport qcd_sme\n"


def headers_usable(out, tag, pyx=None):
    """The compilers the headers are made for accept each by itself."""
    d = os.path.join(simlib.scratch(), "hdr." + tag)
    os.makedirs(d, exist_ok=True)
    put(d, {h: out[h] for h in HEADERS})
    put(d, {"u.c": '#include "qcd_sme.h"\n', "u.cc": '#include "qcd_sme.hpp"\n'})
    jobs = [("qcd_sme.h", ["gcc", "-fsyntax-only", "u.c"]), ("qcd_sme.hpp", ["g++", "-fsyntax-only", "u.cc"])]
    if pyx:
        put(d, {"u.pyx": pyx})
        jobs.append(("qcd_sme.pxd", ["cython", "-3", "-I", ".", "u.pyx", "-o", "u_pyx.c"]))
    try:
        for h, cmd in jobs:
            if shutil.which(cmd[0]):
                p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=120)
                if p.returncode:
                    e = [l for l in (p.stderr + p.stdout).split("\n") if "rror" in l or h in l]
                    return "%s is not usable: %s" % (h, (e or [p.stderr])[0][:200])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None


def oracle_C16(s, n, st, r, post, refs):
    ref, out, v = refs.headers(st["crate"])
    if v:
        return v, 1
    if r.h["status"] == 5:
        return "INVALID", 0
    e = ended(r)
    if e == "deadlock":
        return "neither succeeds nor fails: deadlock", 1
    if e and st.get("final"):
        return "undisturbed build after %d earlier ones: %s" % (n, e), 1
    if e and not r.fired and not r.h["crash_fired"] and st["cargo"] == "cargo.sh":
        return "no failure and no kill, but: %s" % e, 1
    if not e:
        if st["cargo"] != "cargo.sh":
            return "the package metadata is not available, but the build step succeeds", 1
        got = header_outputs(post)
        for h in HEADERS:
            if got.get(h) != out[h]:
                return "exit status 0, but %s %s" % (h, "differs" if h in got else "is missing"), 1
        return None, 3
    return None, 1


GEN = {"C19": gen_C19, "C16": gen_C16, "C15": gen_C15, "C08": gen_C08, "C09": gen_C09, "C10": gen_C10, "C11": gen_C11, "C12": gen_C12, "C13": gen_C13, "C14": gen_C14, "C17": gen_C17}


# ------------------------------------------------------------------ execution
def enc(t):
    return t.encode("latin-1") if any(ord(c) > 127 for c in t) else t


def execute(s, tag):
    """Runs the scenario; returns [(state before, result, state after)]."""
    d = fresh(tag)
    put(d, {k: enc(v) for k, v in s["prep"].items()})
    out = []
    crate = None
    for st in s["steps"]:
        step = dict(st)
        if "crate" in st:
            if st["crate"] != crate:
                crate = st["crate"]
                shutil.rmtree(os.path.join(d, "run/qcd-sme"), ignore_errors=True)
                put(d, {k: v.replace("@D@", d) for k, v in crate_files(crate)[0].items()})
                for q in ("cargo.sh", "cargo_fail.sh", "cargo_cut.sh"):
                    os.chmod(os.path.join(d, q), 0o755)
            step["env"] = {"CARGO": os.path.join(d, st["cargo"]), "CARGO_MANIFEST_DIR": os.path.join(d, "run/qcd-sme")}
        if st.get("files"):
            put(d, st["files"])
        if st.get("recorded"):
            rec = OUTDIR + "/config.yml"
            src = os.path.join(d, "run", rec)
            if not os.path.exists(src):
                break
            if st["recorded"] == "inplace":
                step["args"] = [rec]
            else:
                nm = "recorded.yml" if st["recorded"] == "copy" else "config.yml"
                with open(src, "rb") as f:
                    b = f.read()
                put(os.path.join(d, "run"), {nm: b})
                step["args"] = [nm] if nm != "config.yml" else []
        if step.get("args"):
            step["args"] = [os.path.join(d, a[4:]) if a.startswith("ABS:") else a for a in step["args"]]
        pre = snap(d)
        there = os.path.join(d, step.get("where", "run"))
        os.rename(os.path.join(d, "run"), there)
        if "peer" in step:
            step["plan"] += "peer %s\n" % peer_file(step["peer"], s.get("prof"), tag)
        r = run_step(d, step, tag, prof=s.get("prof"))
        os.rename(there, os.path.join(d, "run"))
        out.append((pre, r, snap(d)))
        if r.timeout:
            break
    return out


def diff_outputs(ref, got):
    """First difference between the reference outputs and those found."""
    for k in sorted(ref):
        if k not in got:
            return "%s is missing" % k
        if got[k] != ref[k]:
            a, b = ref[k].decode("latin-1").split("\n"), got[k].decode("latin-1").split("\n")
            for n, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    return "%s differs at line %d: %r instead of %r" % (k, n + 1, y[:120], x[:120])
            return "%s has %d bytes instead of %d" % (k, len(got[k]), len(ref[k]))
    return None


def run_outputs(snapshot):
    return {k[4:]: v[1] for k, v in snapshot.items() if v[0] == "f" and k.startswith("run/" + OUTDIR + "/")}


def parse_yaml(b):
    """The flat subset of YAML the program writes."""
    out, key = {}, None
    for l in b.decode("utf-8", "replace").split("\n"):
        if not l.strip() or l.lstrip().startswith("#") or l.strip() == "---":
            continue
        m = re.match(r"\s*-\s*(\S+)\s*$", l)
        if m and key:
            out[key].append(float(m.group(1)))
            continue
        m = re.match(r"(\w+):\s*(.*?)\s*$", l)
        if not m:
            return None
        key, v = m.groups()
        if v == "":
            out[key] = []
        elif v.startswith("["):
            out[key] = [float(x) for x in v.strip("[]").split(",")]
        else:
            out[key] = float(v)
    return out


def same_cfg(b, c):
    try:
        d = parse_yaml(b)
    except ValueError:
        return "unreadable"
    if d is None:
        return "unreadable"
    for k in KEYS:
        if k not in d:
            return "no value for " + k
        x, y = d[k], c[k]
        if (list(x) if isinstance(x, list) else x) != ([float(v) for v in y] if isinstance(y, list) else float(y)):
            return "%s is %r instead of %r" % (k, x, y)
    return None


def ended(r):
    """How a run ended, in words; None if it exited successfully."""
    st = r.h["status"]
    if st == 1 and r.rc == 0:
        return None
    return {1: "exit status %d" % r.rc, 2: "killed by a signal", 3: "injected kill", 4: "deadlock", 5: "no end in sight", 0: "died"}[st]


STUCK = (4, 5)


def good_run(r, post, refout, what):
    """Violation if a run that must succeed with the reference outputs did not."""
    e = ended(r)
    if e:
        return "%s: %s" % (what, e)
    df = diff_outputs(refout, run_outputs(post))
    return "%s: successful run, but %s" % (what, df) if df else None


def touched(r):
    t = set()
    for l in r.log.split("\n"):
        if l.startswith("mut "):
            w = l.split(" ")
            if w[1].startswith("open"):
                if w[-1] == "0":
                    t.add(" ".join(w[2:-1]))
            elif w[1] == "rename":
                t |= set(w[2:])
            else:
                t.add(" ".join(w[2:]).strip())
    return t


def order_check(c, out):
    """Rows in momentum / chemical potential order."""
    ps, mus = grid(c["momenta"]), grid(c["manychempots"])
    for k, b in sorted(out.items()):
        n = os.path.basename(k)
        rows = b.decode("latin-1").split("\n")[:-1]
        try:
            x = [float(l.split("\t")[0]) for l in rows] if "prop_t_" in n or n.startswith(("tc_nf", "tcd2_")) and "fit" not in n and n.endswith(".out") else None
        except ValueError:
            return "%s has a malformed row" % k
        if x is None:
            continue
        exp = ps if "prop_t_" in n else mus[2:-2] if n.startswith("tcd2") else mus
        if len(x) != len(exp) or any(abs(a - b) > 6e-5 for a, b in zip(x, exp)):
            return "%s has rows for %r instead of %r" % (k, x[:12], exp[:12])
    return None


def oracle(s, hist, refs):
    """(violation or None, number of facts checked)."""
    prop = s["prop"]
    refs.prof = s.get("prof")
    facts = 0
    for n, (pre, r, post) in enumerate(hist):
        if r.timeout:
            return "INVALID", 0
        st = s["steps"][n]
        if st.get("setup"):
            continue
        if st.get("exe") and prop == "C17":
            refr, refout = alone(st, refs)
            if refr.rc != 0:
                return "INVALID", 0
            refout = {k[4:]: v for k, v in refout.items()}
        elif prop not in ("C11", "C12", "C15", "C16", "C19"):
            refr, refout = refs.run(st["cfg"], st["tol"])
            if refr.rc != 0:
                if prop in MUST_RUN and not refr.timeout and refr.h["status"] != 5:
                    return "undisturbed run: " + str(ended(refr)), 1
                return "INVALID", 0
        facts += 1
        stuck = r.h["status"] == 4
        if prop == "C08":
            if r.h["status"] == 5:
                return "INVALID", 0
            v = good_run(r, post, refout, "%s threads, no faults" % r.h["threads"]) or order_check(st["cfg"], run_outputs(post))
            facts += len(refout)
            if v:
                return v, facts
        elif prop == "C09":
            if r.h["status"] == 5:
                return "INVALID", 0
            if stuck:
                return "after a failure the program neither succeeds nor exits: deadlock", facts
            if not ended(r):
                df = diff_outputs(refout, run_outputs(post))
                facts += len(refout)
                if df:
                    return "exit status 0, but %s" % df, facts
        elif prop == "C10":
            if r.h["status"] == 5:
                return "INVALID", 0
            got, before, t = run_outputs(post), run_outputs(pre), touched(r)
            if st.get("final"):
                v = good_run(r, post, refout, "rerun over leftovers")
                if v:
                    return v, facts
            for k, b in sorted(got.items()):
                facts += 1
                if k in refout and k in t:
                    if not refout[k].startswith(b):
                        return "after %s, %s is not a prefix of its correct content: %r" % (ended(r) or "the run", k, b[:120]), facts
                elif k in refout and b != before.get(k, b""):
                    return "after %s, %s changed although never opened" % (ended(r), k), facts
            for k in before:
                if k in refout and k not in got and k not in t:
                    return "after %s, %s is gone although never opened" % (ended(r), k), facts
        elif prop == "C11":
            v, f = oracle_C11(s, n, st, pre, r, post, refs)
            facts += f
            if v:
                return v, facts
        elif prop == "C12":
            v, f = unusual_C12(s, st, r, post, refs) if s.get("unusual") else oracle_C12(st, r, post, refs)
            facts += f
            if v:
                return v, facts
        elif prop == "C15":
            v, f = oracle_C15(st, pre, r, post, refs, n == len(hist) - 1)
            facts += f
            if v:
                return v, facts
        elif prop == "C19":
            v, f = oracle_C19(s, st, r, post, refs)
            facts += f
            if v:
                return v, facts
        elif prop == "C16":
            v, f = oracle_C16(s, n, st, r, post, refs)
            facts += f
            if v:
                return v, facts
        elif prop == "C13":
            if r.h["status"] == 5:
                return "INVALID", 0
            if st.get("silent") and ended(r):
                # a program that cannot work here, log or no log
                return "INVALID", 0
            v = good_run(r, post, refout, "RUST_LOG=%s, log output disturbed" % (st.get("env") or {}).get("RUST_LOG", "(unset)"))
            if ended(r) and r.h["status"] < 3 and "stdin" not in st and not r.cl_events["read"] + r.cl_events["data"]:
                v = v.replace(ended(r), "failure before reading any file")
            facts += len(refout)
            if v:
                return v, facts
        elif prop == "C14":
            v = good_run(r, post, refout, "only transient faults")
            facts += len(refout)
            if v:
                return v, facts
        elif prop == "C17":
            if r.h["escapes"]:
                e = next((l for l in r.log.split("\n") if l.startswith("escape")), "")
                return "the program wrote outside its output directory: %s" % re.sub(r"/\S*qcdsim\.\w+/", "", e), facts
            own = SCANDIR + st["exe"] if st.get("exe") else OUTDIR
            ok = tuple(["run/" + own + "/"])
            anc = {"run/target", "run/target/tc_long_prop", "run/" + own}
            did = touched(r)
            for k, v in sorted(pre.items()):
                facts += 1
                mine = k[4:] in refout
                if k not in s["prep"] and k.startswith(ok) and not mine and (k in post or k[4:] in did):
                    # left behind by an earlier run of this history and rewritten, perhaps renamed
                    if k in post or any(l.startswith("mut open") and " %s " % k[4:] in l for l in r.log.split("\n")):
                        continue
                if post.get(k) != v and not mine:
                    return "%s was %s" % (k, "removed" if k not in post else "altered"), facts
                if mine and k not in post:
                    return "%s was removed and not rewritten" % k, facts
            for k in sorted(post):
                if k not in pre and not k.startswith(ok) and k not in anc:
                    return "%s was created" % k, facts
            for p in sorted(did):
                facts += 1
                q = "run/" + p
                if not q.startswith(ok) and q not in anc:
                    return "the program mutated %s" % p, facts
    return None, facts


def oracle_C11(s, n, st, pre, r, post, refs):
    mode = s["mode"]
    rec = post.get("run/" + OUTDIR + "/config.yml")
    wrote = OUTDIR + "/config.yml" in touched(r)
    inplace = st.get("recorded") == "inplace"
    c = st["cfg"]
    if mode == "missing":
        if wrote and rec and rec[1].count(b"\n") >= 34:
            e = same_cfg(rec[1], DEFAULTS)
            if e:
                return "no configuration file: recorded %s" % e, 1
            return None, 1
        if r.h["status"] in (1, 2) and ended(r):
            return "no configuration file: %s instead of the built-in values" % ended(r), 1
        return None, 0
    refr, refout = refs.run(c, st["tol"])
    what = {"malformed": "malformed configuration (%s)" % s.get("how"), "openerr": "configuration file that cannot be opened",
            "readerr": "configuration file that cannot be read", "directory": "directory in place of the configuration file"}.get(mode)
    if what:
        if mode in ("openerr", "readerr") and not r.fired:
            what = None
    if what:
        got = run_outputs(post)
        started = sorted(k for k in touched(r) if "glulongprop" in k or k.startswith(OUTDIR + "/tc_"))
        if not ended(r):
            if mode == "readerr" and not diff_outputs(refout, got):
                return None, 1
            return what + ": exit status 0", 1
        if started and r.h["status"] in (1, 2, 3, 5) and (mode != "readerr" or not rec or same_cfg(rec[1], c)):
            return what + ": the program computed results anyway (%s)" % started[0], 1
        if wrote and rec and mode != "malformed":
            e = same_cfg(rec[1], c)
            if e and rec[1].count(b"\n") >= 34:
                return what + ": the program went on; it recorded that %s" % e, 1
        return None, 1
    if r.h["status"] == 5:
        if wrote and rec and rec[1].count(b"\n") >= 34 and same_cfg(rec[1], c):
            return "recorded configuration: %s" % same_cfg(rec[1], c), 1
        return None, 0
    w = "recorded configuration as input" if n else "configuration %s" % s["target"]
    e = ended(r)
    if e:
        return "%s: %s" % (w, e), 1
    e = same_cfg(rec[1], c) if rec else "no recorded configuration"
    if e:
        return "%s: recorded: %s" % (w, e), 1
    df = diff_outputs(refout, run_outputs(post))
    return ("%s: %s" % (w, df) if df else None), 2 + len(refout)


# ------------------------------------------------------------------ C12
def close(a, b, rel=1e-8, ab=1e-12):
    return a == b or abs(a - b) <= max(ab, rel * max(abs(a), abs(b)))


def display_ok(tok, fmt):
    if fmt == "4":
        return re.fullmatch(r"-?\d+\.\d{4}", tok) is not None
    if not re.fullmatch(r"-?\d+(\.\d+)?", tok):
        return False
    from decimal import Decimal
    x = format(Decimal(repr(float(tok))), "f")
    x = x[:-2] if x.endswith(".0") else x
    return x == tok


def parse_calls(b):
    out = []
    for l in b.decode("utf-8", "replace").split("\n"):
        m = re.match(r"(\w+)\((.*)\)$", l)
        if m:
            out.append((m.group(1), m.group(2)))
    return out


def plot_series(b):
    """[(kind, x, y, label)] and {title, xlabel, ...} of a recorded figure."""
    ser, txt = [], {}
    for name, a in parse_calls(b):
        if name in ("plot", "scatter"):
            m = re.match(r"\[(.*?)\], \[(.*?)\](.*)$", a)
            if not m:
                continue
            f = lambda t: [float(x) for x in t.split(",") if x]
            lab = re.search(r"label='(.*?)'", m.group(3))
            ser.append((name, f(m.group(1)), f(m.group(2)), lab.group(1).replace("\\\\", "\\") if lab else None))
        elif name in ("title", "xlabel", "ylabel"):
            txt[name] = a.strip("'").replace("\\\\", "\\")
    return ser, txt


def seq_close(a, b, rel=1e-8, ab=1e-12):
    return len(a) == len(b) and all(close(x, y, rel, ab) for x, y in zip(a, b))


def against(m, out):
    """First disagreement of the outputs with one reading of the reference pipeline."""
    facts = 0
    exp = set(OUTDIR + "/" + k for k in list(m["files"]) + list(m["plots"])) | {OUTDIR + "/config.yml"}
    for k in sorted(exp - set(out)):
        return "%s is missing" % k, facts
    for k in sorted(set(out) - exp):
        return "unexpected file %s" % k, facts
    params = None
    for k, f in m["files"].items():
        t = out[OUTDIR + "/" + k].decode("utf-8", "replace")
        if "list" in f:
            try:
                params = [float(x) for x in t.strip().strip("[]").split(",")]
            except ValueError:
                return "%s does not hold a list of numbers" % k, facts
            if not t.startswith("[") or not t.endswith("]\n") or t.count("\n") != 1:
                return "%s is not one bracketed list" % k, facts
            if len(params) != 9:
                return "%s has %d parameters instead of 9" % (k, len(params)), facts
            continue
        rows = t.split("\n")
        if rows[-1] != "" or len(rows) - 1 != len(f["rows"]):
            return "%s has %d rows instead of %d" % (k, len(rows) - 1, len(f["rows"])), facts
        for n, (l, (x, y)) in enumerate(zip(rows, f["rows"])):
            w = l.split("\t")
            facts += 1
            if len(w) != 2 or not display_ok(w[0], f["fmt"][0]) or not display_ok(w[1], f["fmt"][1]):
                return "%s row %d is malformed: %r" % (k, n + 1, l[:80]), facts
            for tok, val, fm in ((w[0], x, f["fmt"][0]), (w[1], y, f["fmt"][1])):
                ok = close(float(tok), val, ab=1e-9) if fm == "any" else abs(float(tok) - val) <= .50001e-4
                if not ok:
                    return "%s row %d is %r instead of %r, %r" % (k, n + 1, l[:80], x, y), facts
    for k, f in m["plots"].items():
        facts += len(f["text"]) + len(f["series"])
        x = plot_diff(k, f, out[OUTDIR + "/" + k], params)
        if x:
            return x, facts
    return None, facts


def plot_diff(k, f, b, params=None):
    """First disagreement of a recorded figure with the reference figure."""
    ser, txt = plot_series(b)
    for q, v in f["text"].items():
        if txt.get(q) != v:
            return "%s has %s %r instead of %r" % (k, q, txt.get(q), v)
    if len(ser) != len(f["series"]):
        return "%s has %d series instead of %d" % (k, len(ser), len(f["series"]))
    for n, ((kind, x, y, lab), (elab, ex, ey)) in enumerate(zip(ser, f["series"])):
        rel, ab = 1e-8, 1e-9
        if k.endswith("_fit.png") and n == 1:
            rel, ab = 1e-3, 1e-4
            if params and not seq_close(y, [sum(c * v ** i for i, c in enumerate(params)) for v in x], 1e-6, 1e-8):
                return "%s: the curve is not the polynomial with the recorded parameters" % k
        if elab is not None and lab != elab:
            return "%s series %d has label %r instead of %r" % (k, n + 1, lab, elab)
        if not seq_close(x, ex) or not seq_close(y, ey, rel, ab):
            return "%s series %d is %r over %r instead of %r over %r" % (k, n + 1, y[:6], x[:6], ey[:6], ex[:6])
    return None


def oracle_C12(st, r, post, refs):
    e = ended(r)
    if e:
        return ("INVALID" if r.h["status"] == 5 else "usable configuration: " + e), 0
    out = run_outputs(post)
    v = None
    for mode in ("interp", "scan"):
        m = refs.model(st["cfg"]) if mode == "interp" else refpipe(st["cfg"], mode, refs.tag)
        if not usable(m):
            return "INVALID", 0
        x, f = against(m, out)
        if x is None:
            return None, f
        v = v or x
    return v, f


def unusual_C12(s, st, r, post, refs):
    """Configurations a user may write although the program was not made for them:
    it may reject them, or compute what they ask for."""
    e = ended(r)
    if e:
        return ("INVALID" if r.h["status"] == 5 else None), 1
    out = run_outputs(post)
    v = None
    for mode in ("interp", "scan"):
        m = refpipe(st["cfg"], mode + ("-first" if s["unusual"] == "late" else ""), refs.tag)
        if not usable(m):
            return "INVALID", 0
        x, f = against(m, out)
        if s["unusual"] == "fine":
            n = sum(1 for k in out if "/data/" in k)
            want = m["tables"] - 4
            if n == want:
                return None, f
            if x is None:
                return "points of a grid closer than 0.0001 share output files: %d tables for %d points" % (n, want), f
        elif x is None:
            return None, f
        else:
            z = refpipe(st["cfg"], mode, refs.tag)
            if not usable(z):
                return "INVALID", 0
            if against(z, out)[0] is None:
                return "the first temperature of a grid that starts above zero is computed as zero: %s" % x, f
        v = v or x
    return "unusual grid (%s): %s" % (s["unusual"], v), f


# ------------------------------------------------------------------ search
COUNTS = {"C08": 2000, "C09": 3200, "C10": 1200, "C11": 2600, "C12": 640, "C13": 2600, "C14": 2200, "C15": 1400, "C16": 1600, "C17": 3000, "C19": 3000}


def build_for(prop):
    bins = ["one_mass_overall", "two_masses_overall", "refpipe"] if prop == "C15" else ["genheaders"] if prop == "C16" else ["physical_tc", "refpipe"] + (
        ["one_mass_overall", "two_masses_overall"] if prop in ("C17", "C19") else [])
    err = simlib.build(bins) or prop != "C16" and simlib.build([b for b in bins if b != "refpipe"], profile="rel")
    if err:
        sys.stdout.write(err[-4000:])
        raise HarnessError("the program does not build")


def scenario(prop, i, refs):
    R = rng(simlib.SEED, prop, i)
    refs.prof = "rel" if prop != "C16" and (i >> 6) % 3 == 1 else None
    s = GEN[prop](R, i, refs)
    if s is not None:
        s["prop"] = prop
        s["prof"] = refs.prof
    return s


def confirm_stuck(s, refs, tag):
    """A run that exceeded its step budget counts only if a fair schedule does too."""
    s2 = json.loads(json.dumps(s))
    for st in s2["steps"]:
        st["plan"] = re.sub(r"policy \w+", "policy uniform", st["plan"])
        st["plan"] = re.sub(r"gap [\d.]+", "gap 20000", st["plan"])
        st["plan"] = re.sub(r"stallp [\d.]+", "stallp 0", st["plan"])
        st["plan"] = re.sub(r"maxtick \d+", lambda m: "maxtick %d" % (4 * int(m.group(0).split()[1])), st["plan"])
    v, _ = oracle(s2, execute(s2, tag), refs)
    return v if v and v != "INVALID" else None, s2


def worker(a):
    wid, prop, n, step, deadline = a
    simlib.pin(wid)
    cov = simlib.Cover()
    tag = "%s.%d" % (prop, wid)
    refs = Refs(tag)
    bad, samples, facts, inv = [], [], 0, 0
    kinds = {}
    cfgs, found = set(), set()
    known = simlib.known_findings(prop)
    stop = os.path.join(simlib.scratch(), "enough")
    # blocks of eight consecutive indices share a configuration
    idx = [i for i in range(n) if (i // 8) % step == wid] if prop != "C12" else range(wid, n, step)
    for i in idx:
        if time.time() > deadline or os.path.exists(stop):
            break
        s = scenario(prop, i, refs)
        if s is None:
            inv += 1
            continue
        hist = execute(s, tag)
        v, f = oracle(s, hist, refs)
        if v == "INVALID":
            inv += 1
            continue
        facts += f
        for _, r, _ in hist:
            cov.add(r)
            e = ended(r) or "success"
            cov.extra.setdefault("endings", {})
            kinds[e] = kinds.get(e, 0) + 1
            if prop == "C19":
                cov.bump("calls_of_the_other_program_placed", sum(int(l.split(" ")[2]) for l in r.log.split("\n") if l.startswith("peerat ")))
            if r.h["preempts"] or r.fired or r.h["crash_fired"]:
                cov.nontrivial.add(r.h["hash"])
        last = s["steps"][-1]
        cfgs.add(json.dumps(last["cfg"]) if "cfg" in last else "%s %s" % (last["exe"], [last.get(q) for q in ("tol", "maxiter", "crate")]))
        k = v and next((w for sig, w in known if sig in v), None)
        if k:
            found.add(k)
        elif v:
            if hist[-1][1].h["status"] == 5:
                v, s = confirm_stuck(s, refs, tag)
                if not v:
                    continue
            bad.append((i, v, s))
            if len(bad) >= 2:
                open(stop, "w").close()
                break
        elif not samples and any(r.fired for _, r, _ in hist):
            r = hist[0][1]
            samples.append("seed index %d: %d run(s), %d threads, %d switches, faults %s, ended: %s" % (
                i, len(hist), r.h["threads"], r.h["switches"], json.dumps(r.fired), [ended(x[1]) or "success" for x in hist]))
    cov.extra.pop("endings", None)
    return cov, bad, samples, facts, inv, kinds, cfgs, refs.n, found


def vclass(v):
    """Class of a violation, kept while minimising."""
    return re.sub(r"[\d.]+", "#", v)[:18]


def minimise(s, v, secs):
    refs = Refs("min")
    end = time.time() + secs
    tag = "min"

    def fails(s2):
        try:
            hist = execute(s2, tag)
            x, _ = oracle(s2, hist, refs)
        except HarnessError:
            return None
        if x and x != "INVALID" and vclass(x) == vclass(v):
            return x, hist
        return None

    got = fails(s)
    if not got:
        return s, v, None
    cur = json.loads(json.dumps(s))
    # drop whole runs of the history
    k = 0
    while k < len(cur["steps"]) - 1 and time.time() < end:
        c2 = json.loads(json.dumps(cur))
        f = c2["steps"][k].get("files")
        del c2["steps"][k]
        g = fails(c2)
        if g:
            cur, got = c2, g
        else:
            k += 1
    # drop files prepared beforehand
    for p in list(cur["prep"]):
        if time.time() > end:
            break
        if p in ("run/config.yml", s.get("target")):
            continue
        c2 = json.loads(json.dumps(cur))
        del c2["prep"][p]
        g = fails(c2)
        if g:
            cur, got = c2, g
    # no schedule, where none is needed
    for k in range(len(cur["steps"])):
        c2 = json.loads(json.dumps(cur))
        c2["steps"][k]["plan"] = re.sub(r"policy \w+", "policy none", re.sub(
            r"(?m)^(gap|hotp|spurp|stallp|wakep|pctd|pctest|stalllen|clockjump) .*\n", "", c2["steps"][k]["plan"]))
        g = fails(c2)
        if g:
            cur, got = c2, g
    # explicit faults and switches, then fewer of each
    for k in range(len(cur["steps"])):
        if k >= len(got[1]):
            break
        c2 = json.loads(json.dumps(cur))
        c2["steps"][k]["plan"] = simlib.explicit_plan(cur["steps"][k]["plan"], got[1][k][1])
        g = fails(c2)
        if not g:
            continue
        cur, got = c2, g
        lines = cur["steps"][k]["plan"].split("\n")
        for pre in (("fault ",), ("peerat ",), ("sw ",), ("ch ",)):
            var = [l for l in lines if l.startswith(pre)]
            rest = [l for l in lines if l and not l.startswith(pre)]

            def test(keep):
                c3 = json.loads(json.dumps(cur))
                c3["steps"][k]["plan"] = "\n".join(rest + keep) + "\n"
                return bool(fails(c3))
            if var:
                var = simlib.ddmin(var, test, min(end, time.time() + secs / 3))
            lines = rest + var
        c3 = json.loads(json.dumps(cur))
        c3["steps"][k]["plan"] = "\n".join(l for l in lines if l) + "\n"
        g = fails(c3)
        if g:
            cur, got = c3, g
    return cur, got[0], got[1]


def hist_hash(hist):
    return "-".join("%016x" % r.h["hash"] for _, r, _ in hist)


def write_replay(s, v, hist):
    path = simlib.replay_path(s["prop"])
    with open(path, "w") as f:
        json.dump({"kind": "pipe", "property": s["prop"], "violation": v, "scenario": s,
                   "faults": [[l for l in st["plan"].split("\n") if l.startswith(("fault", "rate", "crashtick"))] for st in s["steps"]],
                   "history_hash": hist_hash(hist) if hist else None, "reproduce": "/verif/check replay %s" % path}, f, indent=1)
        f.write("\n")
    return path


def replay(d):
    s = d["scenario"]
    hist = execute(s, "replay")
    v, _ = oracle(s, hist, Refs("replay"))
    return (None if v == "INVALID" else v), hist_hash(hist)


RULE = ("each case is one scenario of whole program runs (configuration, files present, schedule, faults, kills) derived from "
        "(VERIF_SEED, property, index); non-trivial when a preemption, fault or kill happened, distinct by the hash of the run's "
        "complete event history")


def check(prop):
    build_for(prop)
    t0 = time.time()
    nw = simlib.ncpu()
    thorough = simlib.TIER == "thorough"
    n = COUNTS[prop] * (60 if thorough else 1)
    limit = float(os.environ.get("SIM_SECS", "7200" if thorough else "170"))
    simlib.scratch()
    with multiprocessing.Pool(nw) as pool:
        res = pool.map(worker, [(w, prop, n, nw, t0 + limit) for w in range(nw)], chunksize=1)
    cov = simlib.Cover()
    bad, samples, facts, inv, kinds, cfgs, nref = [], [], 0, 0, {}, set(), 0
    found = set()
    for c, b, sm, fa, iv, kd, cf, rn, fd in res:
        found |= fd
        cov.merge(c)
        bad += b
        samples += sm
        facts += fa
        inv += iv
        for k, x in kd.items():
            kinds[k] = kinds.get(k, 0) + x
        cfgs |= cf
        nref += rn
    simlib.log("%s: %d runs, %d facts, %d configurations, %d invalid, %d violating; endings %s; faults %s" % (
        prop, cov.runs, facts, len(cfgs), inv, len(bad), kinds, cov.fired))
    if not cov.runs:
        raise HarnessError("no scenario could be run: " + ("the undisturbed program fails" if inv else "out of time"))
    for k in sorted(found):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    out = sorted(bad, key=lambda b: b[0])
    if out:
        i, v, s = out[0]
        simlib.log("violation at seed index %d: %s" % (i, v))
        s2, v2, h2 = minimise(s, v, 60)
        path = write_replay(s2, v2, h2)
        again = [replay(json.load(open(path))) for _ in range(2)]
        simlib.log("minimised to %d run(s), faults %s; replays: %s" % (
            len(s2["steps"]), [[l for l in st["plan"].split("\n") if l.startswith(("fault", "rate", "crashtick"))] for st in s2["steps"]],
            "identical" if again[0] == again[1] and again[0][0] else "NOT identical"))
        print("  " + v2)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    simlib.write_evidence(
        prop, "exploration", cov, RULE, samples, time.time() - t0,
        ["file system: the kernel's, inside a scratch directory; failures injected at the libc boundary",
         "the reference of a comparison is a fault-free single-worker run of the same build in an empty directory"],
        (["qcd-sme/build.rs (main program)", "cbindgen", "regex"], ["scheduler, clock, randomness (simrt)",
         "cargo metadata (a script with a canned answer)", "the crate read: small generated ones, the real one in 1 of 40"]) if prop == "C16" else
        ([("one_mass_overall, two_masses_overall" if prop == "C15" else "physical_tc") + " (main program)", "tc_long_prop", "qcd-sme", "rayon", "env_logger", "serde_yml", "peroxide", "CPython interpreter"],
         ["scheduler, futexes, clock, randomness, CPU count (simrt)", "matplotlib (records every plotting call)"]),
        len(out), {"checked_facts": facts, "configurations": len(cfgs), "run_endings": kinds, "invalid_scenarios": inv,
                   "reference_runs": nref})
    return 1 if out else 0
