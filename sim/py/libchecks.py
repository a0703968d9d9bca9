"""Checks C01-C07: seeded simulation of the library harness (libsim)."""
import json, math, multiprocessing, os, re, struct, subprocess, sys, time
import simlib
from simlib import hx, unhx, rng, normres, HarnessError

LIBSIM = os.path.join(simlib.BIN, "libsim")
# a third of the scenarios runs a release build (no debug assertions) instead
RELEASE = os.path.join(os.path.dirname(simlib.BIN), "relu", "libsim")


def exe(s):
    return RELEASE if s.get("prof") == "relu" else LIBSIM


FACTORY = {0: 3, 1: 1, 2: 0.5, 3: 1e-10, 4: 50, 5: 1e-5}
SETNAME = {0: "colours", 1: "fermions", 2: "quark mass", 3: "tolerance", 4: "iteration limit", 5: "regulator"}


class Op:
    __slots__ = ("i", "name", "base", "var", "kinds", "args", "ret", "cheap", "mod", "fn")


_ops = None


def ops():
    global _ops
    if _ops is None:
        r = subprocess.run([LIBSIM, "--list"], stdout=subprocess.PIPE, text=True, timeout=60)
        if r.returncode:
            raise HarnessError("libsim --list failed")
        _ops = []
        for l in r.stdout.split("\n"):
            if not l:
                continue
            i, name, kinds, args, ret = l.split()
            o = Op()
            o.i, o.name, o.kinds, o.args, o.ret = int(i), name, kinds, args.split(","), ret
            o.base, _, o.var = name.partition("#")
            o.mod, _, o.fn = o.base.rpartition("::")
            o.cheap = not (("thermal" in o.base and "common" not in o.mod and not o.fn.endswith("_i")
                            and not o.fn.startswith("tlog")) or o.fn.startswith("chemical"))
            _ops.append(o)
    return _ops


_groups = {}


def slow_root(o):
    """Root searches over integrals: affordable with loose settings only."""
    return o.fn.startswith("chemical_potential") and "zero_temp" not in o.fn


def group(kind):
    """Named lists of functions the generators draw from."""
    if kind in _groups:
        return _groups[kind]
    a = ops()
    if kind == "all":
        g = a
    elif kind == "cfg":
        g = [o for o in a if "f" in o.kinds and "p" not in o.kinds]
    elif kind == "cfgp":
        g = [o for o in a if "f" in o.kinds]
    elif kind == "cheap":
        g = [o for o in a if o.cheap and "f" not in o.kinds]
    elif kind == "top":
        g = [o for o in a if o.mod.startswith(("qcd::", "ym::")) and "p" not in o.kinds]
    elif kind == "default":
        # everything that takes neither a method nor a configuration
        g = [o for o in a if "f" not in o.kinds and "i" not in o.kinds and "p" not in o.kinds]
    elif kind == "settings":
        g = [o for o in group("default") if ((o.mod.startswith("qcd::")) or not o.cheap) and not slow_root(o)]
    elif kind == "fuse":
        g = [o for o in a if "p" in o.kinds]
    _groups[kind] = g
    return g


def pairs_method():
    by = {o.name: o for o in ops()}
    out = []
    for o in ops():
        if "i" in o.kinds:
            for suf in ("_w_method", "_with_method"):
                if o.fn.endswith(suf):
                    d = by.get(o.name.replace(suf, ""))
                    if d:
                        out.append((d, o))
    return out


def pairs_config():
    by = {o.name: o for o in ops()}
    out = []
    for o in ops():
        if o.fn.endswith("_w_field_config") and "p" not in o.kinds:
            n = o.base.replace("_w_field_config", "")
            v = o.var if len(o.var) < 2 else (o.var[0] if o.var[1] == "r" else None)
            if v is None:
                continue
            d = by.get(n + ("#" + v if v else ""))
            if d:
                out.append((d, o))
    return out


# ------------------------------------------------------------------ arguments
def base_point(R):
    pt = {}
    for n in ("om", "p", "m", "mq", "q", "m1", "m2", "en", "s"):
        pt[n] = round(math.exp(R.uniform(math.log(.08), math.log(3.))), R.choice([2, 3, 15]))
        if pt[n] == 0:
            pt[n] = .1
    pt["beta"] = round(math.exp(R.uniform(0, 3)), R.choice([1, 3, 15]))
    pt["mu"] = round(R.choice([0., R.uniform(0, 1), R.uniform(0, 2), -R.uniform(0, 1)]), R.choice([1, 3, 15]))
    pt["f0"] = round(R.uniform(-1, 1), R.choice([1, 3, 15]))
    pt["g0"] = round(R.uniform(-1, 1), R.choice([1, 3, 15]))
    pt["xi"] = R.choice([0., 1., R.uniform(0, 1)])
    pt["n"] = round(R.uniform(.05, 1), 3)
    pt["delta"] = R.uniform(-1, 1)
    pt["eps"] = 1e-3
    pt["ln_s"] = R.uniform(-1, 2)
    pt["ln_s_pl_1"] = R.uniform(-1, 2)
    pt["im"] = R.choice([0., R.uniform(.01, .5), -R.uniform(.01, .5)])
    return pt


def arg_vec(o, pt, R=None):
    v = []
    for k, n in zip(o.kinds, o.args):
        if k in "if":
            continue
        x = pt.get(n, .7)
        if n not in pt:
            x = pt[n] = .3 + (len(n) % 5) * .37
        v.append(x)
        if k == "c":
            v.append(pt["im"])
    return v


def perturb(v, R):
    """A neighbouring argument list: what a wrong cache key would confuse."""
    v = list(v)
    if not v:
        return v
    k = R.randrange(len(v))
    m = R.randrange(12)
    x = v[k]
    if m <= 2:
        v[k] = x * R.choice([.5, 2., 1.25, .9])
    elif m == 3:
        v[k] = x * (1 + 2 ** -R.choice([20, 30, 40, 50]))
    elif m == 4:
        v[k] = x + R.choice([1e-3, 1e-6, 1e-9, 1e-12])
    elif m == 5:
        v[k] = -x if k else x
    elif m == 6 and len(v) > 1:
        j = R.randrange(len(v))
        v[k], v[j] = v[j], v[k]
    elif m == 7:
        v[k] = x * 1.5
        j = R.randrange(len(v))
        v[j] = v[j] * 1.125
    elif m == 8 and len(v) > 1:
        # keep the sum of two arguments, or their product
        j = (k + 1) % len(v)
        if R.random() < .5:
            v[k], v[j] = x + .125, v[j] - .125
        else:
            v[k], v[j] = x * 2, v[j] / 2
    elif m == 9:
        v[k] = float(round(x, 1)) or .2
    elif m == 10:
        v[k] = x * 3.
    return v


def fix_args(o, v):
    """Keeps arguments where the integrals behave (positive temperatures, masses)."""
    w = []
    i = 0
    for k, n in zip(o.kinds, o.args):
        if k in "if":
            continue
        x = v[i]
        if n in ("beta", "m", "mq", "m1", "m2", "q", "p", "en", "s", "n"):
            x = abs(x)
            if x < 1e-3:
                x = .1
            if n == "beta":
                x = min(max(x, .2), 60.)
            else:
                x = min(x, 20.)
        if n == "mu" and abs(x) > 8:
            x = .5
        if k == "u":
            x = float(int(abs(x)) % 9)
        w.append(x)
        i += 1
        if k == "c":
            w.append(max(-4., min(4., v[i])))
            i += 1
    return w


METH_CHEAP = [(0, 1e-3, 8), (0, 1e-2, 5), (1, 1e-3, 6), (2, 1e-2, 4), (3, 1e-3, 5), (6, 1e-3, 8), (4, 1e-2, 6), (7, 1e-3, 6)]


def ev(o, v, slot=-1, meth=(0, 1e-3, 8), fuse=-1, tok="e"):
    return "%s %d %d %s %d %d %d %s" % (tok, slot, meth[0], hx(meth[1]), meth[2], fuse, o.i,
                                        " ".join(hx(x) for x in v))


def cfg_lines(slot, c):
    nc, g, qs = c
    return "cn %d %d %s %d %s" % (slot, nc, hx(g), len(qs), " ".join("%d %s" % (n, hx(m)) for n, m in qs))


def rand_cfg(R):
    nc, g = R.choice([1, 2, 3, 3, 4, 5, 7]), round(R.uniform(.3, 1.2), R.choice([2, 15]))
    qs = [(R.choice([0, 1, 1, 2, 3]), round(R.uniform(.05, 1.2), R.choice([2, 15]))) for _ in range(R.choice([0, 1, 1, 2, 2, 3, 4]))]
    if R.random() < .25:
        # coincidences: with the factory settings, among the masses, with the gluon
        g = R.choice([g, .656, .5, 1.])
        qs = [(R.choice([n, 1]), R.choice([m, .5, g, qs[0][1], .35])) for n, m in qs]
        nc = R.choice([nc, 3])
    if R.random() < .03:
        qs = [(R.choice([1, 2]), round(R.uniform(.05, 1.2), 2)) for _ in range(R.choice([8, 13]))]
    return nc, g, qs


def rand_ctx(R, cheap=True):
    c = {}
    if R.random() < .8:
        c[0] = R.choice([1, 2, 3, 4, 5, 6])
        c[1] = R.choice([0, 1, 2, 3, 5])
        c[2] = round(R.uniform(.1, 1.), 3)
    c[3] = R.choice([1e-2, 1e-3, 1e-3, 1e-4, 1e-6] if cheap else [1e-3, 1e-6, 1e-8])
    c[4] = R.choice([2, 4, 6, 8, 10])
    if R.random() < .5:
        c[5] = R.choice([1e-3, 1e-4, 3e-5, 1e-2])
    return c


def set_line(k, v):
    return "set %d %s" % (k, hx(float(v)))


# ------------------------------------------------------------------ references
class Refs:
    """Isolated reference results: each block runs in a pristine process."""

    def __init__(self):
        self.caches = {}
        self.use({})
        self.n = 0

    def use(self, s):
        """References for scenario s come from the build that runs it."""
        self.exe = exe(s)
        self.cache = self.caches.setdefault(self.exe, {})

    def get(self, blocks):
        """blocks: list of tuples of lines; the result of the last step of each."""
        todo = [b for b in dict.fromkeys(blocks) if b not in self.cache]
        if todo:
            if len(self.cache) > 200000:
                self.cache.clear()
                todo = list(dict.fromkeys(blocks))
            inp = "".join("\n".join(b) + "\nend\n" for b in todo)
            env = {"PATH": "/usr/bin:/bin"}
            try:
                r = subprocess.run([self.exe, "--ref"], input=inp, env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, text=True, timeout=60 + len(todo) * .2)
            except subprocess.TimeoutExpired:
                raise HarnessError("reference evaluation does not return")
            cur = None
            k = 0
            for l in r.stdout.split("\n"):
                if l.startswith("o "):
                    cur = normres(l.split()[5:])
                elif l.startswith("r "):
                    cur = l.split(" ", 5)[5]
                elif l.startswith("done"):
                    st = int(l.split()[1])
                    self.cache[todo[k]] = cur if st == 0 else "CRASH %d" % st
                    cur = None
                    k += 1
            if k != len(todo):
                raise HarnessError("reference process ended early")
            self.n += len(todo)
        return [self.cache[b] for b in blocks]


# ------------------------------------------------------------------ scenario
# {"prop", "slots", "sigs", "threads": [[line]], "meta": {...}}
def scn_text(s):
    out = ["slots %d" % s["slots"], "sigs %d" % s["sigs"]]
    for t in s["threads"]:
        out.append("thread")
        out += t
    return "\n".join(out) + "\n"


def model(s):
    """Sequential model: replays the scenario's settings and configurations in one
    legal order (accesses to each are ordered by program order and signals) and
    gives the state in force at every step, or None if the scenario gets stuck."""
    st = dict(FACTORY)
    slots = {}
    sig = set()
    pos = [0] * len(s["threads"])
    at = {}
    progress = True
    while progress:
        progress = False
        for t, steps in enumerate(s["threads"]):
            while pos[t] < len(steps):
                l = steps[pos[t]]
                w = l.split()
                k = w[0]
                try:
                    if k == "wait" and int(w[1]) not in sig:
                        break
                    if k == "sig":
                        sig.add(int(w[1]))
                    elif k == "set":
                        v = unhx(w[2])
                        st[int(w[1])] = int(v) if int(w[1]) in (0, 1, 4) else v
                    elif k == "sets":
                        v = unhx(w[4 + (int(w[2]) - 1) % int(w[3])])
                        st[int(w[1])] = int(v) if int(w[1]) in (0, 1, 4) else v
                    elif k == "cn":
                        n = int(w[4])
                        slots[int(w[1])] = [int(w[2]), unhx(w[3]),
                                            [(int(w[5 + 2 * i]), unhx(w[6 + 2 * i])) for i in range(n)]]
                    elif k == "cc":
                        c = slots[int(w[2])]
                        slots[int(w[1])] = [c[0], c[1], list(c[2])]
                    elif k == "cd":
                        slots.pop(int(w[1]), None)
                    elif k == "en":
                        slots[int(w[1])][0] = int(w[2])
                    elif k == "eg":
                        slots[int(w[1])][1] = unhx(w[2])
                    elif k == "ep":
                        slots[int(w[1])][2].append((int(w[2]), unhx(w[3])))
                    elif k == "eo":
                        if slots[int(w[1])][2]:
                            slots[int(w[1])][2].pop()
                    elif k == "eq":
                        slots[int(w[1])][2][int(w[2])] = (int(w[3]), unhx(w[4]))
                    elif k == "es":
                        q = slots[int(w[1])][2]
                        a, b = int(w[2]), int(w[3])
                        q[a], q[b] = q[b], q[a]
                    elif k == "er":
                        n = int(w[2])
                        slots[int(w[1])][2] = [(int(w[3 + 2 * i]), unhx(w[4 + 2 * i])) for i in range(n)]
                    elif k == "em":
                        a, b = int(w[1]), int(w[2])
                        if a == b:
                            return None
                        slots[a][2], slots[b][2] = slots[b][2], []
                except (KeyError, IndexError):
                    return None
                if k in ("e", "ex"):
                    sl = int(w[1])
                    c = slots.get(sl)
                    if sl >= 0 and c is None:
                        return None
                    at[(t, pos[t])] = (dict(st), (c[0], c[1], tuple(c[2])) if c else None)
                elif k in ("get", "rd"):
                    at[(t, pos[t])] = (dict(st), None)
                pos[t] += 1
                progress = True
    for t, steps in enumerate(s["threads"]):
        if pos[t] < len(steps):
            return None
    s["_final"] = st
    return at


def eval_block(line, settings, cfg, only=None):
    """Reference block: settings set directly, configuration freshly built, one evaluation."""
    b = []
    for k in range(6):
        if (only is None or k in only) and settings[k] != FACTORY[k]:
            b.append(set_line(k, settings[k]))
    w = line.split()
    if w[0] == "ex":
        w[0] = "e"
    if cfg is not None:
        b.append(cfg_lines(0, cfg))
        w[1] = "0"
    b.append(" ".join(w))
    return tuple(b)


def lib_plan(R, s):
    est = 2000
    for t in s["threads"]:
        for l in t:
            if l[0] == "e" and l.split(None, 1)[0] in ("e", "ex"):
                est += 400 if ops()[int(l.split()[6])].cheap else 20000
            elif l.startswith("rd"):
                est += 60 * int(l.split()[1])
            else:
                est += 150
    pol = R.choice(["uniform", "uniform", "pct", "rr"])
    gap = math.exp(R.uniform(math.log(15), math.log(60000)))
    gap = max(gap, est / 2500.)
    hot = R.choice([0, 0, .02, .2, .8])
    p = ["seed %d" % R.getrandbits(48), "policy %s" % pol, "gap %.1f" % gap, "hotp %g" % hot,
         "wakep %g" % R.choice([.1, .5]), "spurp %g" % R.choice([0, .1, .4]),
         "stallp %g" % R.choice([0, 0, .1]), "stalllen %d" % R.choice([500, 20000]),
         "pctd %d" % R.randint(1, 8), "pctest %d" % int(est * R.choice([.3, 1, 2])), "ncpu %d" % R.randint(1, 8),
         "maxtick %d" % (40000000 if s["prop"] in ("C03", "C04") else 600000000), "root %s" % os.path.join(simlib.scratch(), "none")]
    return "\n".join(p) + "\n"


def run_scn(s, plan, tag):
    f = os.path.join(simlib.scratch(), "scn." + tag)
    with open(f, "w") as fh:
        fh.write(scn_text(s))
    return simlib.run(exe(s), [f], plan, simlib.scratch(), tag, timeout=100)


def parse_hist(r):
    o = {}
    ended = False
    died = set()
    other = []
    for l in r.log.split("\n"):
        if l.startswith(("o ", "r ")):
            w = l.split(" ", 5)
            o[(int(w[1]), int(w[2]))] = (int(w[3]), int(w[4]), w[5])
        elif l.startswith(("rd ", "bad ", "badret ", "s ")):
            other.append(l)
        elif l == "end":
            ended = True
        elif l.startswith("died "):
            died.add(int(l.split()[1]))
    return o, ended, died, other


def describe(line):
    w = line.split()
    if w[0] in ("e", "ex"):
        o = ops()[int(w[6])]
        a = " ".join("%.17g" % unhx(x) for x in w[7:])
        return "%s(%s)%s" % (o.name, a, " fuse %s" % w[5] if int(w[5]) >= 0 else "")
    return line


def shown(tok):
    w = tok.split()
    try:
        return w[0] + " " + " ".join("%.17g" % unhx(x) if x != "nan" else x for x in w[1:])
    except ValueError:
        return tok


# ------------------------------------------------------------------ generators
def gen_handoff(R, nthreads, items):
    """Distributes a serial list of steps over threads, with a signal/wait pair at
    every change of thread, so the order is total while threads still interleave."""
    threads = [[] for _ in range(nthreads)]
    cur = 0
    nsig = 0
    for it in items:
        if R.random() < .45:
            nxt = R.randrange(nthreads)
            if nxt != cur:
                threads[cur].append("sig %d" % nsig)
                threads[nxt].append("wait %d" % nsig)
                nsig += 1
                cur = nxt
        threads[cur].append(it)
    return threads, nsig


def noise_eval(R):
    o = R.choice(group("cheap"))
    return ev(o, fix_args(o, arg_vec(o, base_point(R))), meth=R.choice(METH_CHEAP))


def pick(R, g):
    """A function, by module first so that small modules are not drowned."""
    key = "mods%d" % id(g)
    if key not in _groups:
        d = {}
        for o in g:
            d.setdefault(o.mod, []).append(o)
        _groups[key] = d
    d = _groups[key]
    if R.random() < .5:
        return R.choice(d[R.choice(sorted(d))])
    return R.choice(g)


def gen_C01(R):
    pt = base_point(R)
    c = [rand_cfg(R) for _ in range(2)]
    head = [cfg_lines(i, x) for i, x in enumerate(c)]
    ctx = {3: R.choice([1e-2, 1e-3, 1e-3, 1e-5]), 4: R.choice([3, 5, 8])}
    if R.random() < .3:
        ctx[5] = R.choice([1e-3, 1e-4])
    head += [set_line(k, v) for k, v in ctx.items()]

    def rset():
        k = R.randrange(3)
        if k == 2:
            return set_line(2, R.choice([0., .1, 2., 100., float("nan")]))
        return set_line(k, R.choice([0, 1, 2, 3, 4, 6, 17, 1000]))
    nt = R.choice([1, 2, 2, 3, 4])
    threads = [list(head)]
    g = group("cfg") if R.random() < .8 else group("cfgp")
    fam = [pick(R, g) for _ in range(R.choice([1, 2, 3]))]
    # evaluations on thread 0, after changes made by the same thread, and racing setters
    threads[0] += [rset() for _ in range(R.choice([0, 1, 2]))]
    threads[0].append("sig 0")
    for _ in range(R.choice([2, 3, 5])):
        o = R.choice(fam)
        v = arg_vec(o, pt)
        if R.random() < .5:
            v = perturb(v, R)
        threads[0].append(ev(o, fix_args(o, v), R.randrange(2)))
        if R.random() < .4:
            threads[0].append(rset())
    for t in range(1, nt):
        st = ["wait 0"]
        if R.random() < .4:
            for _ in range(R.choice([1, 2])):
                o = R.choice(fam)
                st.append(ev(o, fix_args(o, arg_vec(o, pt)), R.randrange(2)))
        for _ in range(R.choice([3, 10, 30])):
            st.append(rset())
            if R.random() < .1:
                st.append("y")
        threads.append(st)
    return {"prop": "C01", "slots": 2, "sigs": 1, "threads": threads, "meta": {"free": [0, 1, 2]}}


def gen_C02(R):
    pt = base_point(R)
    nslots = R.choice([1, 2, 3, 4])
    items = []
    cfgs = {}
    g = group("cfg")
    fam = [pick(R, g) for _ in range(R.choice([1, 1, 2, 3]))]
    items += [set_line(3, R.choice([1e-2, 1e-3])), set_line(4, R.choice([3, 6]))]
    if R.random() < .3:
        items.append(set_line(0, R.choice([2, 4])))
    cfgs[0] = list(rand_cfg(R))
    cfgs[0][2] = list(cfgs[0][2])
    items.append(cfg_lines(0, cfgs[0]))

    def evalit(s):
        o = R.choice(fam)
        v = arg_vec(o, pt)
        if R.random() < .15:
            v = perturb(v, R)
        items.append(ev(o, fix_args(o, v), s))
    if R.random() < .7:
        evalit(0)
    for _ in range(R.choice([3, 6, 10, 16])):
        s = R.choice(sorted(cfgs))
        q = cfgs[s][2]
        a = R.randrange(13)
        nf, mq = R.choice([0, 1, 2, 3]), round(R.uniform(.05, 1.2), R.choice([2, 15]))
        if a == 0:
            cfgs[s][0] = R.choice([1, 2, 3, 4, 5])
            items.append("en %d %d" % (s, cfgs[s][0]))
        elif a == 1:
            cfgs[s][1] = round(R.uniform(.3, 1.2), R.choice([2, 15]))
            items.append("eg %d %s" % (s, hx(cfgs[s][1])))
        elif a == 2 and len(q) < 5:
            q.append((nf, mq))
            items.append("ep %d %d %s" % (s, nf, hx(mq)))
        elif a == 3 and q:
            q.pop()
            items.append("eo %d" % s)
        elif a in (4, 5) and q:
            i = R.randrange(len(q))
            what = R.randrange(3)
            e = (nf if what != 1 else q[i][0], mq if what != 0 else q[i][1])
            q[i] = e
            items.append("eq %d %d %d %s" % (s, i, e[0], hx(e[1])))
        elif a == 6 and len(q) > 1:
            i, j = R.randrange(len(q)), R.randrange(len(q))
            q[i], q[j] = q[j], q[i]
            items.append("es %d %d %d" % (s, i, j))
        elif a == 7:
            n = rand_cfg(R)[2]
            cfgs[s][2] = list(n)
            items.append("er %d %d %s" % (s, len(n), " ".join("%d %s" % (x, hx(y)) for x, y in n)))
        elif a in (8, 9):
            d = R.randrange(nslots)
            if d != s:
                cfgs[d] = [cfgs[s][0], cfgs[s][1], list(q)]
                items.append("cc %d %d" % (d, s))
        elif a == 10 and len(cfgs) > 1:
            d = R.choice([x for x in cfgs if x != s])
            cfgs[d][2], cfgs[s][2] = q, []
            items.append("em %d %d" % (d, s))
        elif a == 11:
            d = R.randrange(nslots)
            cfgs[d] = list(rand_cfg(R))
            cfgs[d][2] = list(cfgs[d][2])
            items.append(cfg_lines(d, cfgs[d]))
        for s2 in sorted(cfgs):
            if R.random() < (.5 if s2 == s else .25):
                evalit(s2)
    for s in sorted(cfgs):
        evalit(s)
    nt = R.choice([1, 2, 3])
    threads, nsig = gen_handoff(R, nt, items)
    # another thread evaluates its own configuration meanwhile
    if R.random() < .4:
        c = rand_cfg(R)
        st = ["wait %d" % nsig, cfg_lines(nslots, c)]
        for _ in range(3):
            o = R.choice(fam)
            st.append(ev(o, fix_args(o, arg_vec(o, pt)), nslots))
            if R.random() < .5:
                st.append("en %d %d" % (nslots, R.choice([1, 2, 5])))
        threads.append(st)
        # only after the integration settings are made
        k = max(i for i, l in enumerate(threads[0]) if l.startswith("set")) if any(
            l.startswith("set") for l in threads[0]) else -1
        if all(not l.startswith("set") for t in threads[1:] for l in t):
            threads[0].insert(k + 1, "sig %d" % nsig)
            nsig += 1
        else:
            threads.pop()
    return {"prop": "C02", "slots": nslots + 1, "sigs": nsig + 1, "threads": threads, "meta": {}}


def rand_setting(R, st, sane=True):
    k = R.choice([0, 0, 1, 1, 2, 3, 4, 5])
    if k in (0, 1):
        v = R.choice([1, 2, 3, 4, 5, 6, 8]) if sane else R.choice([0, 1, 2, 3, 4294967295, 2147483648, 65536, 17])
        if k == 1 and R.random() < .2:
            v = 0
    elif k == 2:
        v = round(R.uniform(.1, 2), 3) if sane else R.choice([0., -1., 1e308, 5e-324, float("inf")])
    elif k == 3:
        v = R.choice([1e-2, 1e-3, 1e-4, 1e-6, 1e-10]) if sane else R.choice([5e-324, 1e-300, 1e300, float("inf"), 1., 1e-15])
    elif k == 4:
        v = R.choice([2, 4, 6, 8, 10, 50]) if sane else R.choice([0, 1, 4294967295, 1000])
    else:
        v = R.choice([1e-2, 1e-3, 1e-4, 1e-5]) if sane else R.choice([5e-324, 1e-300, 1., 1e300, float("inf")])
    if R.random() < .15:
        v = FACTORY[k]
    st[k] = v
    return set_line(k, v)


def burst(R, st, sane=True):
    """Very many changes of one setting between two reads: counters that wrap."""
    k = R.choice([0, 1, 2, 3, 4, 5])
    vals = []
    while len(vals) < 2:
        t = dict(st)
        rand_setting(R, t, sane)
        if t[k] != st[k]:
            vals.append(float(t[k]))
    n = R.choice([16, 64, 128, 255, 256, 256, 257, 512, 768, 1024, 4096, 65536])
    v = vals[(n - 1) % 2]
    st[k] = int(v) if k in (0, 1, 4) else v
    g = ["get %d" % k] + (["get 6"] if R.random() < .3 else [])
    return g + ["sets %d %d 2 %s %s" % (k, n, hx(vals[0]), hx(vals[1]))] + g


def cap_integral(R, st, items):
    """Never evaluates with both a tight tolerance and a deep limit except rarely."""
    if st[3] < 1e-7 and st[4] > 10 and R.random() < .85:
        st[3] = R.choice([1e-3, 1e-4])
        items.append(set_line(3, st[3]))


def gen_C03(R):
    st = dict(FACTORY)
    items = []
    pt = base_point(R)
    extreme = R.random() < .25
    fam = [pick(R, group("settings")) for _ in range(R.choice([1, 2, 3]))]
    pc = pairs_config()
    cross = []
    for _ in range(R.choice([4, 8, 14])):
        for _ in range(R.choice([1, 1, 2, 4])):
            items.append(rand_setting(R, st, not extreme))
        for _ in range(R.choice([1, 2, 7])):
            items.append("get %d" % R.randrange(7))
        if R.random() < .05:
            b = burst(R, st, not extreme)
            if R.random() < .7:
                items.append(b)
            else:
                items += b
        if not extreme:
            cap_integral(R, st, items)
            for _ in range(R.choice([0, 1, 2])):
                o = R.choice(fam)
                v = arg_vec(o, pt)
                if R.random() < .2:
                    v = perturb(v, R)
                items.append(ev(o, fix_args(o, v)))
            if R.random() < .5 and st[3] <= 1e-2:
                d, o = R.choice(pc)
                v = fix_args(d, arg_vec(d, pt))
                # positions of m and mq among the arguments of the single-mass function
                cross.append((d, o, v, dict(st)))
                items.append(("X", d, o, v, dict(st)))
    nt = R.choice([1, 2, 3, 4])
    flat = []
    for it in items:
        flat.append(it)
    # expand cross checks into two adjacent evaluations
    out = []
    for it in flat:
        if isinstance(it, tuple):
            _, d, o, v, s0 = it
            names = []
            i = 0
            m = mq = None
            w = []
            for k, n in zip(d.kinds, d.args):
                vals = [v[i]] if k != "c" else [v[i], v[i + 1]]
                i += len(vals)
                if n == "m":
                    m = vals[0]
                elif n == "mq":
                    mq = vals[0]
                else:
                    w += vals
            if m is None:
                # vacuum functions measure masses in units of the gluon mass
                m = R.choice([1., .5, .656])
                mq_dim = mq * m
            else:
                mq_dim = mq
            out.append("#X")
            out.append(cfg_lines(0, (s0[0], m, [(s0[1], mq_dim)])))
            out.append(ev(d, v))
            out.append(ev(o, w, 0))
        else:
            out.append(it)
    # "#X" marks must stay together with the three lines after them
    threads = [[] for _ in range(nt)]
    cur = 0
    nsig = 0
    i = 0
    xs = []
    while i < len(out):
        n = 1
        chunk = out[i] if isinstance(out[i], list) else [out[i]]
        if out[i] == "#X":
            chunk = out[i + 1:i + 4]
            n = 4
        if R.random() < .4:
            nxt = R.randrange(nt)
            if nxt != cur:
                threads[cur].append("sig %d" % nsig)
                threads[nxt].append("wait %d" % nsig)
                nsig += 1
                cur = nxt
        if n == 4:
            xs.append([cur, len(threads[cur]) + 1])
        threads[cur] += chunk
        i += n
    if R.random() < .4 and not extreme:
        threads.append([ev(o, fix_args(o, arg_vec(o, base_point(R)))) for o in
                        (R.choice([x for x in group("cheap") if x.mod.startswith(("ym", "common"))]) for _ in range(3))])
    return {"prop": "C03", "slots": 1, "sigs": nsig, "threads": threads, "meta": {"cross": 1}}


def gen_C04(R):
    st = dict(FACTORY)
    items = []
    pt = base_point(R)
    pm = pairs_method()
    pp = R.sample(pm, R.choice([1, 2]))
    chain = [gen_chain(R) for _ in range(1)] if R.random() < .5 else []
    n = R.choice([1, 3, 5])
    for j in range(n):
        if j or R.random() < .7:
            for _ in range(R.choice([1, 2, 3])):
                k = R.choice([3, 4])
                v = R.choice([1e-1, 1e-2, 1e-3, 1e-4, 1e-6, 1e-8, 1e-9]) if k == 3 else R.choice([1, 2, 3, 5, 8, 12, 49, 51])
                if R.random() < .2:
                    v = FACTORY[k]
                st[k] = v
                items.append(set_line(k, v))
            if R.random() < .3:
                st[5] = R.choice([1e-2, 1e-3])
                items.append(set_line(5, st[5]))
        if st[3] < 1e-5 and st[4] > 8 and (st[3], st[4]) != (FACTORY[3], FACTORY[4]):
            st[4] = R.choice([1, 3, 5, 7])
            items.append(set_line(4, st[4]))
        factory = (st[3], st[4]) == (FACTORY[3], FACTORY[4])
        for d, o in pp:
            if slow_root(d) and (st[3] < 1e-5 or st[4] > 12):
                continue
            v = arg_vec(d, pt)
            if R.random() < .3:
                v = perturb(v, R)
            v = fix_args(d, v)
            items.append("#P")
            items.append(ev(d, v))
            items.append(ev(o, v, meth=LOOSE if factory and loosened(d) else (0, float(st[3]), st[4])))
        for ch in chain:
            items.append("#P")
            items.append(("chain", ch, dict(st)))
    nt = R.choice([1, 2, 3])
    # explicit-method evaluations go on any thread; the order is total
    seq = []
    for it in items:
        if it == "#P":
            continue
        if isinstance(it, tuple):
            seq += chain_lines(it[1], it[2], pt)
        else:
            seq.append(it)
    threads, nsig = gen_handoff(R, nt, seq)
    return {"prop": "C04", "slots": 1, "sigs": nsig, "threads": threads, "meta": {}}


# the documented exception: with factory settings these may use a looser tolerance
LOOSE = (0, 1e-6, 50)


def loosened(o):
    return "zero_matsubara" in o.base and ("::gluon" in o.base or "gluon__" in o.base)


# top-level thermal functions recomposed from their parts with explicit methods
PREF = 16. * math.pi * math.pi / 3.


def chains():
    """(top-level dressing_*_inv function, vacuum function, glue part, quark part)"""
    if "chains" in _groups:
        return _groups["chains"]
    by = {o.name: o for o in ops()}
    out = []
    for lim in ("", "zero_matsubara::", "zero_momentum::"):
        for pol in "lt":
            for zt in ("", "_zero_temp"):
                top = by.get("qcd::thermal::%sgluon::dressing_%s_inv%s_landau#r" % (lim, pol, zt)) or \
                    by.get("qcd::thermal::%sgluon::dressing_%s_inv%s_landau" % (lim, pol, zt))
                cfg = by.get("qcd::thermal::%sgluon::dressing_%s_inv%s_landau_w_field_config#r" % (lim, pol, zt)) or \
                    by.get("qcd::thermal::%sgluon::dressing_%s_inv%s_landau_w_field_config#rr" % (lim, pol, zt)) or \
                    by.get("qcd::thermal::%sgluon::dressing_%s_inv%s_landau_w_field_config" % (lim, pol, zt))
                low = "low_level::oneloop::thermal::gluon::" + lim
                q = [o for o in ops() if o.base == low + "polarization_quark_%s_thermal_part%s_landau_w_method" % (pol, zt)
                     and set(o.var) <= {"r"}]
                g = [o for o in ops() if o.base == low + "polarization_glue_%s_thermal_part_landau_w_method" % pol
                     and set(o.var) <= {"r"}] if not zt else [None]
                vac = by.get("qcd::gluon::dressing_inv_landau#r")
                if top and cfg and q and g and vac:
                    out.append((top, cfg, vac, g[0], q[0], lim))
            ym = by.get("ym::thermal::%sgluon::dressing_%s_inv_landau#r" % (lim, pol)) or \
                by.get("ym::thermal::%sgluon::dressing_%s_inv_landau" % (lim, pol))
            g = [o for o in ops() if o.base == "low_level::oneloop::thermal::gluon::" + lim +
                 "polarization_glue_%s_thermal_part_landau_w_method" % pol and set(o.var) <= {"r"}]
            vac = by.get("ym::gluon::dressing_inv_landau#r")
            if ym and g and vac:
                out.append((ym, None, vac, g[0], None, lim))
        gh = by.get("ym::thermal::%sghost::dressing_inv_landau#r" % lim) or by.get("ym::thermal::%sghost::dressing_inv_landau" % lim)
        g = [o for o in ops() if o.base == "low_level::oneloop::thermal::ghost::" + lim + "self_energy_thermal_part_landau_w_method"
             and set(o.var) <= {"r"}]
        vac = by.get("ym::ghost::dressing_inv_landau#r")
        if gh and g and vac:
            out.append((gh, None, vac, g[0], None, lim))
    _groups["chains"] = out
    return out


def gen_chain(R):
    return R.randrange(len(chains()))


def chain_lines(ci, st, pt):
    top, cfg, vac, g, q, lim = chains()[ci]
    pt = dict(pt)
    pt["mu"] = abs(pt["mu"])
    if st[1] == 0 and q is not None:
        pass
    om = 0. if lim == "zero_matsubara::" else pt["om"]
    p = 0. if lim == "zero_momentum::" else pt["p"]
    s = (om * om + p * p) / (pt["m"] * pt["m"])
    meth = (0, float(st[3]), st[4])
    if lim and "matsubara" in lim and loosened(top) and (st[3], st[4]) == (FACTORY[3], FACTORY[4]):
        meth = LOOSE

    def a(o):
        q2 = dict(pt)
        if o is vac:
            q2["s"] = s
            q2["mq"] = pt["mq"] / pt["m"]
        return fix_args(o, arg_vec(o, q2)) if o is not vac else arg_vec(o, q2)
    pt2 = {k: v for k, v in pt.items()}
    out = [ev(top, fix_args(top, arg_vec(top, pt2)), tok="e"),
           ev(vac, a(vac))]
    if g is not None:
        out.append(ev(g, a(g), meth=meth))
    if q is not None:
        out.append(ev(q, a(q), meth=meth))
        out.append(cfg_lines(0, (st[0], pt["m"], [(st[1], pt["mq"])])))
        out.append(ev(cfg, fix_args(cfg, arg_vec(cfg, pt2)), 0))
    return out


def gen_C05(R):
    kind = R.choice(["conc", "conc", "conc", "hist", "hist", "panic", "panic", "long", "fresh"])
    if R.random() < .04:
        kind = "many"
    ctx = rand_ctx(R)
    head = [set_line(k, v) for k, v in ctx.items()]
    pts = [base_point(R) for _ in range(R.choice([1, 1, 2]))]
    c = [rand_cfg(R) for _ in range(2)]
    if R.random() < .4:
        # near-identical configurations
        c[1] = (c[0][0], c[0][1], [(n, m * R.choice([1., 1.5])) for n, m in c[0][2]])
    head += [cfg_lines(i, x) for i, x in enumerate(c)]

    def one(o, fuse=-1, tok="e"):
        v = arg_vec(o, R.choice(pts))
        if R.random() < .55:
            v = perturb(v, R)
        return ev(o, fix_args(o, v), R.randrange(2) if "f" in o.kinds else -1, R.choice(METH_CHEAP), fuse, tok)
    gk = R.choice(["all", "all", "top", "top", "cfg"])
    threads = [head]
    nt = R.choice([2, 2, 3, 4])
    if kind in ("conc", "panic", "fresh"):
        fam = [pick(R, group(gk)) for _ in range(R.choice([1, 1, 2, 3]))]
        if R.random() < .3:
            # variants of one function: real, complex, foreign interface
            b = fam[0].fn
            fam += [o for o in ops() if o.fn == b or o.fn.endswith("__" + b)][:4]
        if kind == "panic":
            f = pick(R, group("fuse"))
            sib = [o for o in ops() if o.base == f.base]
            same = [o for o in group(gk) if o.mod == f.mod][:40]
            fam = [f] + sib + ([R.choice(same)] if same else []) + fam[:1]
        threads[0].append("sig 0")
        for t in range(nt):
            st = [] if t == 0 else ["wait 0"]
            if kind == "fresh" and t > 1:
                st.append("wait %d" % (t - 1))
            for _ in range(R.choice([2, 3, 5, 8])):
                o = R.choice(fam)
                if "p" in o.kinds and R.random() < .6:
                    st.append(one(o, int(math.exp(R.uniform(0, math.log(600 if o.cheap else 60000))))))
                else:
                    st.append(one(o))
            if kind == "fresh":
                st.append("sig %d" % (t + 1))
            if kind == "panic" and t and R.random() < .4:
                o = fam[0]
                st.append(one(o, int(math.exp(R.uniform(0, math.log(600 if o.cheap else 20000)))), "ex"))
            if t == 0:
                threads[0] += st
            else:
                threads.append(st)
        nsig = nt + 2
    elif kind == "many":
        # more threads than any fixed number of shared slots is likely to have
        fam = [pick(R, group("cheap")) for _ in range(R.choice([1, 2]))] + ([pick(R, group(gk))] if R.random() < .3 else [])
        nt = R.choice([9, 12, 17, 24])
        threads[0].append("sig 0")
        for t in range(nt):
            st = ["wait 0"] if t else []
            for _ in range(R.choice([1, 2, 3])):
                st.append(one(R.choice(fam)))
            if t == 0:
                threads[0] += st
            else:
                threads.append(st)
        nsig = 1
    elif kind == "hist":
        fam = [pick(R, group(gk)) for _ in range(R.choice([2, 4, 8]))]
        seq = [one(R.choice(fam)) for _ in range(R.choice([12, 25]))]
        seq += seq[:3]
        threads, nsig = gen_handoff(R, R.choice([1, 2]), head + seq)
    else:
        # long histories of one cheap function: bounded caches, counters
        fam = [pick(R, [o for o in group("cheap") if "p" not in o.kinds]) for _ in range(R.choice([1, 2]))]
        base = [one(o) for o in fam for _ in range(2)]
        seq = list(base)
        n = R.choice([80, 300, 700, 1400])
        for k in range(n):
            o = R.choice(fam)
            v = arg_vec(o, pts[0])
            j = R.randrange(len(v)) if v else 0
            if v:
                v[j] = v[j] * (1 + (k + 1) * 1e-3)
            seq.append(ev(o, fix_args(o, v)))
            if k % 97 == 96:
                seq.append(R.choice(base))
        seq += base
        threads = [head + seq]
        nsig = 1
    return {"prop": "C05", "slots": 2, "sigs": nsig + 1, "threads": threads, "meta": {"kind": kind}}


def bits(n):
    return struct.unpack("<d", struct.pack("<Q", n))[0]


BADV = [0., -0., -1e-10, -1., float("-inf"), float("nan"), -5e-324, -1e-5, -1e308, -1e-3, -2e-16,
        bits(0xfff8000000000000), bits(0x7ff8000000000001), bits(0xffffffffffffffff), bits(0x7ff0000000000001), bits(0xfff4000000000000)]


def gen_C06(R):
    good = []
    st = dict(FACTORY)
    t0 = []
    for _ in range(R.choice([0, 1, 2])):
        k = R.choice([3, 5])
        v = R.choice([1e-2, 1e-3, 2e-3, 1e-4] if k == 3 else [1e-3, 1e-4, 2e-5])
        st[k] = v
        t0.append(set_line(k, v))
    t0.append(set_line(4, 6))
    if 3 not in [int(l.split()[1]) for l in t0 if l.startswith("set 3")] or True:
        if st[3] == FACTORY[3]:
            st[3] = 1e-3
            t0.append(set_line(3, 1e-3))
    t0.append("sig 0")
    pt = base_point(R)
    zm = [o for o in group("settings") if "zero_matsubara" in o.base and not o.cheap]
    fam = [R.choice(zm), pick(R, group("settings"))]
    nr = R.choice([1, 2, 3])
    threads = [t0]
    bk = R.choice([3, 5])

    def badline():
        k = R.choice([3, 5])
        # among others the mirror image of the value in force
        return "bad %d %s" % (k, hx(R.choice(BADV + [-st[k], -10 ** R.uniform(-12, 2)])))
    who = R.randrange(nr + 1)
    for t in range(1, nr + 2):
        s = ["wait 0"]
        if t == nr + 1:
            # the rejected call
            for _ in range(R.choice([0, 0, 1, 3])):
                s.append(R.choice(["y", "get 3", "get 5", noise_eval(R)]))
            s.append(badline())
            s.append(badline())
        else:
            for _ in range(R.choice([2, 5, 10])):
                a = R.random()
                if a < .6:
                    s.append("rd %d" % R.choice([20, 100, 400]))
                else:
                    o = R.choice(fam)
                    s.append(ev(o, fix_args(o, arg_vec(o, pt))))
            if R.random() < .2:
                s.append(badline())
        threads.append(s)
    if who == 0 and R.random() < .5:
        threads[0].append(badline())
    elif R.random() < .5:
        threads[0].append("rd 200")
    return {"prop": "C06", "slots": 1, "sigs": 1, "threads": threads, "meta": {"good": {str(k): v for k, v in st.items()}}}


def rootline(R):
    cx = R.random() < .5
    fid = R.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7])
    par = [round(R.uniform(-2, 2), 3) for _ in range(3)]
    if fid == 0 and abs(par[0]) < .05:
        par[0] = 1.
    if fid == 2:
        par = [R.random(), R.choice([1e-9, 1e-4, 1e-2, 1., 10.])]
    if fid == 4:
        par = [R.choice([0., 1e-12, 1e-5, .3, float("nan"), float("inf")]), R.choice([0., 1e-5, 1., float("nan")])]
    if fid == 3:
        par = [R.uniform(-1, 1)]
    z0 = R.uniform(.05, 3.)
    g = [z0, R.uniform(-.5, .5) if cx else 0., z0 + R.choice([.1, 1e-3, -.02, 1., 1e-9]), R.uniform(-.5, .5) if cx else 0.]
    if R.random() < .1:
        g[2] = R.choice([float("nan"), 1e300, float("inf")])
    tol = R.choice([1e-12, 1e-8, 1e-5, 1e-3, .1, 1., 5e-324, 1e300])
    mi = R.choice([0, 1, 2, 3, 5, 10, 30])
    inj = []
    if R.random() < .25:
        # a single not-a-number, after which the function looks perfectly well again
        k = R.choice([1, 1, 2, 3])
        inj.append("%d %s" % (k, R.choice(["nan", "nanim"])))
        inj.append("%d %s" % (k + R.choice([1, 1, 1, 2]), R.choice(["zero", "tiny"])))
    for _ in range(R.choice([0, 1, 1, 2, 3])):
        inj.append("%d %s" % (R.randrange(0, max(3, min(mi + 2, 14))),
                              R.choice(["nan", "nan", "nanim", "inf", "ninf", "infim", "panic", "panic", "zero", "tiny",
                                        "attol", "denorm", "huge", "retiny", "prev", "nest", "neg"])))
    return "root %s %d %s %s %d %d %s %d %s" % ("c" if cx else "r", fid, " ".join(hx(x) for x in g), hx(tol), mi, len(par),
                                              " ".join(hx(x) for x in par), len(inj), " ".join(inj))


def gen_C07(R):
    nt = R.choice([1, 1, 2, 3])
    pool = [rootline(R) for _ in range(R.choice([2, 4]))]
    threads = []
    for t in range(nt):
        threads.append([R.choice(pool) if R.random() < .7 else rootline(R) for _ in range(R.choice([3, 6, 12]))])
    return {"prop": "C07", "slots": 1, "sigs": 1, "threads": threads, "meta": {}}


def calcline(R, near=None):
    """near: a line whose point, or a neighbouring point, another function is tried at."""
    kind = R.choice([0, 0, 1, 2, 2, 3])
    cx = kind >= 2 or R.random() < .6
    fid = R.choice([0, 1, 1, 2, 3, 5, 6, 7, 8, 8, 8, 8])
    par = [round(R.uniform(-2, 2), 3) for _ in range(3)]
    if fid == 2:
        par = [R.random(), R.choice([1e-4, 1e-2, 1., 10.])]
    if fid == 3:
        par = [R.uniform(-1, 1)]
    z = [R.uniform(.05, 3.) if fid == 3 else R.uniform(-2, 2), R.uniform(-.5, .5) if cx and R.random() < .7 else 0.]
    if fid == 8 and R.random() < .7:
        z = [par[0] + R.choice([0., 0., 1e-9, -1e-6]), 0.]
    eps = R.choice([1e-12, 1e-12, 1e-9, 1e-6, 1e-3, .1, 1.])
    if near:
        w = near.split()
        z, eps = [unhx(w[4]), unhx(w[5])], unhx(w[8])
        if R.random() < .5:
            kind, cx = int(w[1]), w[2] == "c"
        d = (eps if kind in (0, 2) else 1e-12) * R.choice([0, 0, 1, -1, 2, -2])
        if kind >= 2:
            cx = True
            z[1] += d
        else:
            z[0] += d
        if not cx:
            z[1] = 0.
    inj = []
    for _ in range(R.choice([0, 0, 1, 1, 2])):
        inj.append("%d %s" % (R.choice([0, 0, 1, 1, 2]), R.choice(["nan", "nanim", "inf", "panic", "panic", "zero", "denorm", "huge", "prev", "nest", "neg"])))
    return "calc %d %s %d %s %s %d %d %s %d %s" % (kind, "c" if cx else "r", fid, " ".join(hx(x) for x in z + [0., 0.]), hx(eps), 0, len(par),
                                                 " ".join(hx(x) for x in par), len(inj), " ".join(inj))


def gen_C18(R):
    nt = R.choice([1, 2, 3, 4])
    pool = [calcline(R) for _ in range(R.choice([2, 4]))]
    pool += [calcline(R, R.choice(pool)) for _ in range(R.choice([2, 4]))] + [rootline(R)]
    threads = []
    for _ in range(nt):
        t = []
        for _ in range(R.choice([3, 6, 12])):
            u = R.random()
            last = t[-1] if t and t[-1].startswith("calc") else None
            t.append(R.choice(pool) if u < .5 else calcline(R, last) if u < .75 else calcline(R))
        threads.append(t)
    return {"prop": "C18", "slots": 1, "sigs": 1, "threads": threads, "meta": {}}


GEN = {"C18": gen_C18, "C01": gen_C01, "C02": gen_C02, "C03": gen_C03, "C04": gen_C04, "C05": gen_C05, "C06": gen_C06, "C07": gen_C07}


# ------------------------------------------------------------------ oracles
def close(a, b, rel, ab=0.):
    """Same result up to rounding; tokens as emitted."""
    x, y = a.split(), b.split()
    if "PANIC" in (x[0], y[0]) or len(x) != len(y):
        return a == b
    u = [unhx(t) if t != "nan" else math.nan for t in x[1:]]
    v = [unhx(t) if t != "nan" else math.nan for t in y[1:]]
    if any(map(math.isnan, u + v)):
        return [math.isnan(t) for t in u] == [math.isnan(t) for t in v]
    if any(map(math.isinf, u + v)):
        return u == v
    n = math.hypot(*u) if u else 0
    m = math.hypot(*v) if v else 0
    d = math.hypot(*[p - q for p, q in zip(u, v)]) if u else 0
    return d <= rel * max(n, m, 1e-300) + ab


def health(s, r, ended, died):
    """Reasons why the run itself (not a value) is wrong."""
    if r.timeout:
        return "the run never finished (%d scheduling points)" % r.h["ticks"]
    if r.h["status"] == 4:
        return "deadlock: every thread is blocked"
    if r.h["status"] == 5:
        return "no termination within %d scheduling points" % r.h["ticks"]
    if not ended:
        return "the process died (exit %s, status %s)" % (r.rc, simlib.STATUS.get(r.h["status"]))
    return None


def expected_evals(s, at, only=None):
    """(position, line, block) of every evaluation in the scenario."""
    out = []
    for t, steps in enumerate(s["threads"]):
        for i, l in enumerate(steps):
            if l.split(None, 1)[0] in ("e", "ex"):
                st, cfg = at[(t, i)]
                out.append(((t, i), l, eval_block(l, st, cfg, only)))
    return out


def oracle_values(s, r, refs, only=None, sample=None):
    """Every evaluation equals its isolated reference, bit for bit."""
    at = model(s)
    if at is None:
        return "INVALID", None
    o, ended, died, _ = parse_hist(r)
    ex = expected_evals(s, at, only)
    if len(ex) > 120:
        # long histories: first, last and every 23rd, plus everything the generator repeats
        keep = set(range(8)) | set(range(len(ex) - 12, len(ex))) | set(range(0, len(ex), 23))
        ex = [e for k, e in enumerate(ex) if k in keep]
    want = refs.get([b for _, _, b in ex])
    if any(w is None or w.startswith("CRASH") for w in want):
        return "INVALID", None
    h = health(s, r, ended, died)
    bad = []
    for ((t, i), l, b), w in zip(ex, want):
        g = o.get((t, i))
        if g is None:
            if w == "PANIC" and l.startswith("ex"):
                continue
            if h is None and t not in died:
                h = "thread %d has no result for step %d" % (t, i)
            continue
        v = normres(g[2].split())
        if v != w:
            bad.append(("%s gave %s instead of %s" % (describe(l), shown(v), shown(w)), (t, i)))
    for t in died:
        if not any(l.startswith("ex ") for l in s["threads"][t]):
            h = h or "thread %d was terminated by a panic" % t
    if bad:
        return bad[0][0] + (" [settings %s]" % describe_ctx(s, at, bad[0][1])), len(bad)
    if h:
        return h, 1
    return None, len(ex)


def describe_ctx(s, at, k):
    st, cfg = at[k]
    return "nc=%s nf=%s tol=%g iter=%s reg=%g config=%s" % (st[0], st[1], st[3], st[4], st[5], cfg)


def get_tok(k, st):
    if k in (0, 1, 4):
        return "U %d" % st[k]
    if k in (2, 3, 5):
        return normres(("R %s" % hx(float(st[k]))).split())
    return "M %s %d" % (hx(float(st[3])), st[4])


def oracle(s, r, refs, cover=None):
    """(violation text or None, number of checked facts)"""
    p = s["prop"]
    refs.use(s)
    if p == "C01":
        # reference: factory colours, fermions and quark mass
        return oracle_values(s, r, refs, only=[3, 4, 5])
    if p in ("C02", "C05"):
        return oracle_values(s, r, refs)
    if p in ("C03", "C04"):
        at = model(s)
        if at is None:
            return "INVALID", None
        o, ended, died, _ = parse_hist(r)
        n = 0
        for t, steps in enumerate(s["threads"]):
            for i, l in enumerate(steps):
                if l.startswith("get ") and (t, i) in o:
                    k = int(l.split()[1])
                    want = get_tok(k, at[(t, i)][0])
                    got = normres(o[(t, i)][2].split())
                    n += 1
                    if p == "C03" and got != want:
                        return "getter of %s on thread %d returned %s, last set: %s" % (SETNAME.get(k, "default method"), t, shown(got), shown(want)), 1
        if p == "C03":
            v, m = oracle_values(s, r, refs)
            if v:
                return v, m
            n += m
            # single-mass evaluations against the explicit field configuration
            pc = {d.i: c.i for d, c in pairs_config()}
            for t, steps in enumerate(s["threads"]):
                for i in range(1, len(steps) - 1):
                    a, b = steps[i].split(), steps[i + 1].split()
                    if a[0] == "e" and b[0] == "e" and steps[i - 1].startswith("cn ") and pc.get(int(a[6])) == int(b[6]) \
                            and (t, i) in o and (t, i + 1) in o:
                        st, cfg = at[(t, i + 1)]
                        if cfg is None or cfg[0] != st[0] or len(cfg[2]) != 1 or cfg[2][0][0] != st[1]:
                            continue
                        if not cross_args_match(steps[i], steps[i + 1], cfg):
                            continue
                        n += 1
                        x, y = normres(o[(t, i)][2].split()), normres(o[(t, i + 1)][2].split())
                        if not close(x, y, 1e-6):
                            return "%s = %s but %s with nc=%d, nf=%d gives %s" % (
                                describe(steps[i]), shown(x), describe(steps[i + 1]), st[0], st[1], shown(y)), 1
            return None, n
        # C04
        h = health(s, r, ended, died)
        if h:
            refd = refs.get([b for _, _, b in expected_evals(s, at)])
            if any(w is None or w.startswith("CRASH") for w in refd):
                return "INVALID", None
            return h, 1
        seq = [((t, i), l) for t, steps in enumerate(s["threads"]) for i, l in enumerate(steps) if l.startswith("e ")]
        seq = [(k, l, o[k][2]) for k, l in seq if k in o]
        seq.sort(key=lambda x: o[x[0]][0])
        pm = {d.i: m.i for d, m in pairs_method()}
        for j, (k, l, res) in enumerate(seq):
            w = l.split()
            d = ops()[int(w[6])]
            st = at[k][0]
            if d.i in pm:
                loose = loosened(d) and st[3] == FACTORY[3] and st[4] == FACTORY[4]
                meth = "0 %s %d" % ((hx(LOOSE[1]), LOOSE[2]) if loose else (hx(float(st[3])), st[4]))
                for k2, l2, res2 in seq[j + 1:j + 2]:
                    w2 = l2.split()
                    if int(w2[6]) == pm[d.i] and w2[7:] == w[7:] and " ".join(w2[2:5]) == meth and at[k2][0] == st:
                        n += 1
                        a, b = normres(res.split()), normres(res2.split())
                        if loose:
                            if not close(a, b, 1e-2, 1e-4):
                                return "%s = %s, with a tolerance of 1e-6 passed explicitly %s [factory settings]" % (describe(l), shown(a), shown(b)), 1
                        elif not close(a, b, 1e-14):
                            return "%s = %s, with the default method (tol=%g, iter=%d) passed explicitly %s" % (
                                describe(l), shown(a), st[3], st[4], shown(b)), 1
            # recomposition of a top-level function from its parts
            for c in chains():
                if c[0].i != d.i:
                    continue
                got = chain_check(c, seq, j, at)
                if got is None:
                    continue
                n += 1
                if got[0]:
                    return got[0], 1
        # isolated evaluation with the current settings set directly
        v, m = oracle_values(s, r, refs)
        if v:
            return v, m
        return None, n + m
    if p == "C06":
        return oracle_C06(s, r, refs)
    if p == "C07":
        return oracle_C07(s, r, refs)
    if p == "C18":
        return oracle_C18(s, r, refs)
    raise HarnessError(p)


def cross_args_match(l1, l2, cfg):
    a, b = l1.split(), l2.split()
    d, o = ops()[int(a[6])], ops()[int(b[6])]
    v = [unhx(x) for x in a[7:]]
    w = [unhx(x) for x in b[7:]]
    rest = []
    i = 0
    m = mq = None
    for k, n in zip(d.kinds, d.args):
        vals = [v[i]] if k != "c" else [v[i], v[i + 1]]
        i += len(vals)
        if n == "m":
            m = vals[0]
        elif n == "mq":
            mq = vals[0]
        else:
            rest += vals
    if rest != w:
        return False
    if m is None:
        return mq * cfg[1] == cfg[2][0][1]
    return cfg[1] == m and cfg[2][0][1] == mq


def cnum(tok):
    w = tok.split()
    if w[0] in ("R", "S"):
        return complex(unhx(w[1]), 0)
    if w[0] == "C":
        return complex(unhx(w[1]), unhx(w[2]))
    return None


def chain_check(c, seq, j, at):
    top, cfg, vac, g, q, lim = c
    st = at[seq[j][0]][0]
    want = [vac] + ([g] if g is not None else []) + ([q] if q is not None else []) + ([cfg] if cfg is not None and q is not None else [])
    got = []
    k = j + 1
    for o in want:
        if k >= len(seq) or int(seq[k][1].split()[6]) != o.i or at[seq[k][0]][0] != st:
            return None
        got.append(cnum(seq[k][2]))
        k += 1
    t = cnum(seq[j][2])
    if t is None or any(x is None for x in got):
        return None
    loose = lim == "zero_matsubara::" and loosened(top) and st[3] == FACTORY[3] and st[4] == FACTORY[4]
    meth = "0 %s %d" % ((hx(LOOSE[1]), LOOSE[2]) if loose else (hx(float(st[3])), st[4]))
    for o, e in zip(want, seq[j + 1:k]):
        if "i" in o.kinds and " ".join(e[1].split()[2:5]) != meth:
            return None
    d = dict(zip([a for a, kk in zip(top.args, top.kinds)], [unhx(x) for x in seq[j][1].split()[7:]]))
    om = d.get("om", 0.)
    p = d.get("p", 0.)
    # the parts must have been evaluated at the same point
    for o, e in zip(want, seq[j + 1:k]):
        dd = dict(zip(o.args, [unhx(x) for x in e[1].split()[7:]]))
        for n, x in dd.items():
            if o is vac:
                m = d["m"]
                ok = {"s": abs(x - (om * om + p * p) / (m * m)) <= 1e-12 * abs(x), "mq": n == "mq" and abs(x * m - d.get("mq", 0)) <= 1e-12 * abs(d.get("mq", 1))}.get(n, x == d.get(n))
            else:
                ok = x == d.get(n)
            if not ok:
                return None
    sdim = om * om + p * p
    sign = 1. if "ghost" in top.base else -1.
    nf = float(st[1])
    gv = got[1] if g is not None else 0.
    qv = got[1 + (g is not None)] if q is not None else 0.
    val = got[0] + sign * PREF / sdim * (gv + nf * qv)
    scale = abs(got[0]) + abs(PREF / sdim * gv) + abs(PREF / sdim * nf * qv)
    if not (abs(val) < math.inf and abs(t) < math.inf):
        return None
    tolr = 1e-2 if loose else 1e-9
    if loose:
        scale += PREF / sdim * 1e-2
    if abs(t - val) > tolr * scale:
        return ("%s = %r, but its parts evaluated with the current default method (tol=%g, iter=%d) compose to %r" % (
            describe(seq[j][1]), t, st[3], st[4], val),)
    if cfg is not None and q is not None:
        cv = got[-1]
        if abs(cv - val) > tolr * scale:
            return ("%s = %r, but its parts evaluated with the current default method (tol=%g, iter=%d) compose to %r" % (
                describe(seq[k - 1][1]), cv, st[3], st[4], val),)
    return (None,)


def oracle_C06(s, r, refs):
    if r.timeout or r.h["status"] in (4, 5):
        return "the run never finished after a rejected setting", 1
    o, ended, died, other = parse_hist(r)
    good = {int(k): v for k, v in s["meta"]["good"].items()}
    seq = {3: [FACTORY[3]], 5: [FACTORY[5]]}
    for l in s["threads"][0]:
        w = l.split()
        if w[0] == "set" and int(w[1]) in seq:
            seq[int(w[1])].append(unhx(w[2]))
    cur = {k: v[-1] for k, v in seq.items()}
    it = 50
    for l in s["threads"][0]:
        w = l.split()
        if w[0] == "set" and w[1] == "4":
            it = int(unhx(w[2]))
    n = 0
    badseen = False
    for l in other:
        w = l.split()
        if w[0] == "badret":
            line = s["threads"][int(w[1])][int(w[2])]
            return "setting the %s to %g returned normally" % (SETNAME[int(line.split()[1])], unhx(line.split()[2])), 1
        if w[0] == "bad":
            badseen = True
        if w[0] == "rd":
            n += 1
            t, m, mt, mi = unhx(w[4]), unhx(w[5]), unhx(w[6]), int(w[7])
            if hx(t) != hx(cur[3]) or hx(m) != hx(cur[5]) or hx(mt) != hx(cur[3]) or mi != it:
                return "thread %s read tolerance %g, regulator %g, default method (%g, %d); in force: tolerance %g, regulator %g, limit %d" % (
                    w[1], t, m, mt, mi, cur[3], cur[5], it), 1
    # a rejected call ends its caller: nothing may follow it on that thread
    bads = {}
    for l in other:
        w = l.split()
        if w[0] == "bad":
            bads[int(w[1])] = int(w[2])
    for (t, i), v in o.items():
        if t in bads and i > bads[t]:
            return "thread %d continued after a rejected setting" % t, 1
    at = model({**s, "threads": [[l for l in t if not l.startswith("bad ")] for t in s["threads"]]})
    idx = []
    for t, steps in enumerate(s["threads"]):
        for i, l in enumerate(steps):
            if (t, i) in o and l.startswith("e "):
                st = dict(FACTORY)
                st.update({3: cur[3], 5: cur[5], 4: it})
                idx.append(((t, i), l, eval_block(l, st, None)))
            elif (t, i) in o and l.startswith("get "):
                k = int(l.split()[1])
                got = normres(o[(t, i)][2].split())
                if got != get_tok(k, {**FACTORY, 3: cur[3], 4: it, 5: cur[5]}):
                    return "getter of %s returned %s around a rejected setting" % (SETNAME.get(k), shown(got)), 1
    want = refs.get([b for _, _, b in idx])
    for (k, l, b), w in zip(idx, want):
        if w is None or w.startswith("CRASH"):
            return "INVALID", None
        v = normres(o[k][2].split())
        n += 1
        if v != w:
            return "%s gave %s instead of %s around a rejected setting" % (describe(l), shown(v), shown(w)), 1
    anybad = any(l.startswith("bad ") for t in s["threads"] for l in t)
    if anybad and ended and not died:
        return "a rejected setting neither returned nor ended its caller", 1
    if badseen and r.h["status"] not in (1, 2) and r.rc not in (-6, -4, -5):
        return "a rejected setting ended the process abnormally (exit %s)" % r.rc, 1
    return None, n


def oracle_C18(s, r, refs):
    o, ended, died, _ = parse_hist(r)
    h = health(s, r, ended, died)
    if h:
        return "helper: " + h, 1
    if died:
        return "helper: thread %s terminated" % died, 1
    idx = []
    n = 0
    for t, steps in enumerate(s["threads"]):
        for i, l in enumerate(steps):
            if not l.startswith(("calc ", "root ")):
                continue
            if (t, i) not in o:
                return "helper: no result for step %d of thread %d" % (i, t), 1
            idx.append(((t, i), l))
            if l.startswith("root "):
                continue
            n += 1
            w = l.split()
            kind = int(w[1])
            z = complex(unhx(w[4]), unhx(w[5]))
            eps = unhx(w[8]) if kind in (0, 2) else 1e-12
            d = complex(0, eps) if kind >= 2 else complex(eps, 0)
            what = "%s [%s]" % (["compute_residue_with_eps", "compute_residue", "spectral_function_with_eps", "spectral_function"][kind], l)
            head, _, tr = o[(t, i)][2].partition(" tr")
            hw = head.split()
            fired = hw[hw.index("fired") + 1] == "1"
            toks = re.sub(r"nest \w+", "", tr).split()
            evs = [[unhx(x) for x in toks[k:k + 4]] for k in range(0, len(toks), 4)]
            if fired and hw[0] != "panic-same":
                return "%s: the function panicked but the call ended with %s" % (what, hw[0]), 1
            if not fired and hw[0] != "some":
                return "%s: the call panicked (%s) although the function did not" % (what, hw[0]), 1
            at = {}
            for e in evs:
                q = [k for k, x in (("+", z + d), ("-", z - d)) if (x.real, x.imag) == (e[0], e[1])]
                if not q:
                    return "%s evaluated the function at %r%+rj, not at %r offset by %r" % (what, e[0], e[1], z, d), 1
                for k in q:
                    at.setdefault(k, []).append(complex(e[2], e[3]))
            if hw[0] != "some":
                continue
            if len(at) != 2:
                return "%s did not evaluate the function on both sides of %r" % (what, z), 1
            got = complex(unhx(hw[1]), unhx(hw[2]))
            vals = at["+"] + at["-"]
            bad = any(x != x for x in vals)
            if len(evs) != 2:
                continue
            a, b = vals
            if bad:
                if got == got:
                    return "%s gave %r although the function had returned %r and %r" % (what, got, a, b), 1
                continue
            if any(not 1e-60 < abs(x) < 1e60 for x in vals):
                continue
            if kind >= 2:
                want = 1j * (a - b) / (2 * math.pi)
                err = 1e-15 * (abs(a) + abs(b)) * 1e-3 + 1e-13 * abs(want)
            else:
                u = 1 / a - 1 / b
                loss = 4e-15 * (abs(1 / a) + abs(1 / b))
                if abs(u) <= 1e3 * loss:
                    continue
                want = 2 * eps / u
                err = abs(want) * (2 * loss / abs(u) + 1e-13)
            if not abs(got - want) <= err:
                return "%s gave %r instead of %r from the function values %r and %r" % (what, got, want, a, b), 1
    want = refs.get([(l,) for _, l in idx])
    for (k, l), w in zip(idx, want):
        if w is None or w.startswith("CRASH"):
            continue
        if o[k][2] != w:
            return "[%s] depends on earlier or concurrent calls: %s instead of %s" % (l, o[k][2][:160], w[:160]), 1
    return None, n


def oracle_C07(s, r, refs):
    o, ended, died, _ = parse_hist(r)
    h = health(s, r, ended, died)
    if h:
        return "root search: " + h, 1
    if died:
        return "root search: thread %s terminated" % died, 1
    idx = []
    n = 0
    for t, steps in enumerate(s["threads"]):
        for i, l in enumerate(steps):
            if not l.startswith("root "):
                continue
            if (t, i) not in o:
                return "root search: no result for step %d of thread %d" % (i, t), 1
            idx.append(((t, i), l))
            n += 1
            w = l.split()
            tol, mi = unhx(w[7]), int(w[8])
            res = o[(t, i)][2]
            head, _, tr = res.partition(" tr")
            hw = head.split()
            nev = int(hw[hw.index("n") + 1])
            fired = hw[hw.index("fired") + 1] == "1"
            toks = tr.split()
            evs = []
            k = 0
            while k < len(toks):
                if toks[k] == "nest":
                    if toks[k + 1] != "true":
                        return "a root search nested in the searched function failed on a linear function: %s" % l, 1
                    k += 2
                    continue
                evs.append(toks[k:k + 4])
                k += 4
            what = "find_root [%s]" % l
            if nev > mi + 2:
                return "%s evaluated the function %d times, limit %d iterations" % (what, nev, mi), 1
            k = hw[0]
            if fired and k != "panic-same":
                return "%s: the function panicked but the search ended with %s" % (what, k), 1
            if not fired and k.startswith("panic"):
                return "%s: the search panicked (%s) although the function did not" % (what, k), 1
            if k == "some":
                z, v, av = hw[1:3], hw[3:5], unhx(hw[5])
                fv = [unhx(x) for x in v]
                if any(math.isnan(x) for x in fv):
                    return "%s returned NaN as a root" % what, 1
                if not math.hypot(*fv) < tol or not av < tol:
                    return "%s returned |f|=%g, not below the tolerance %g" % (what, av, tol), 1
                if z + v not in evs:
                    return "%s returned f(%g%+gi)=%g%+gi, which the function never returned there" % (
                        what, unhx(z[0]), unhx(z[1]), fv[0], fv[1]), 1
                # not-a-number at the first guess alone is not yet a failed search
                nan = [j for j, e in enumerate(evs) if e[:2] != w[3:5] and any(math.isnan(unhx(x)) for x in e[2:])]
                if nan:
                    return "%s found a root although the function had returned NaN at evaluation %d" % (what, nan[0]), 1
            # an undisturbed linear function has its root found
            if w[2] == "0" and w[-1] == "0" and mi >= 30 and 1e-9 < tol < .5 and k != "some" and \
                    all(abs(unhx(x)) < 10 for x in w[3:7]) and (abs(unhx(w[3]) - unhx(w[5])) > 5e-4):
                return "%s found no root of a linear function" % what, 1
    want = refs.get([(l,) for _, l in idx])
    for (k, l), w in zip(idx, want):
        if w is None or w.startswith("CRASH"):
            continue
        if o[k][2] != w:
            return "find_root [%s] depends on earlier or concurrent searches: %s instead of %s" % (l, o[k][2][:160], w[:160]), 1
    return None, n


# ------------------------------------------------------------------ driver
def nontrivial_key(s, r):
    """A run counts when at least one context switch fell inside library code of a
    multi-threaded scenario, or (single thread) a panic, misbehaving callback or
    history of at least eight steps was involved."""
    if r.h["threads"] > 1 and r.h["preempts"] > 0:
        return True
    if any(l.startswith(("root", "calc", "bad")) for t in s["threads"] for l in t):
        return True
    return sum(len(t) for t in s["threads"]) >= 8


def too_long(s, tag):
    """True when the scenario's evaluations, each alone, already need too many steps."""
    at = model(s)
    if at is None:
        return True
    total = 0
    for _, l, b in {b: (None, l, b) for _, l, b in expected_evals(s, at)}.values():
        one = {"prop": s["prop"], "slots": 1, "sigs": 1, "threads": [list(b)], "meta": {}, "prof": s.get("prof")}
        r = run_scn(one, "seed 1\npolicy none\nmaxtick 200000000\nroot /nonexistent\n", tag)
        if r.timeout or r.h["status"] == 5:
            return True
        total += r.h["ticks"]
        if total > 100000000:
            return True
    return False


def worker(a):
    wid, prop, lo, hi, step, deadline = a
    simlib.pin(wid)
    cov = simlib.Cover()
    refs = Refs()
    tag = "%s.%d" % (prop, wid)
    bad = []
    samples = []
    funcs = set()
    facts = 0
    invalid = 0
    for i in range(lo, hi, step):
        if time.time() > deadline:
            break
        R = rng(simlib.SEED, prop, i)
        s = GEN[prop](R)
        s["prof"] = "relu" if (i >> 3) % 3 == 2 else "dev"
        plan = lib_plan(R, s)
        r = run_scn(s, plan, tag)
        if prop in ("C03", "C04") and r.h["status"] == 5:
            # an integral that does not converge with these settings: not about settings
            invalid += 1
            continue
        v, n = oracle(s, r, refs)
        if v == "INVALID":
            invalid += 1
            continue
        cov.add(r)
        if nontrivial_key(s, r):
            cov.nontrivial.add((r.h["schedhash"], hash(scn_text(s))))
        for t in s["threads"]:
            for l in t:
                if l.startswith(("e ", "ex ")):
                    funcs.add(int(l.split()[6]))
                    if int(l.split()[5]) >= 0:
                        cov.bump("armed_panics_in_numeric_type")
                elif l.startswith("root "):
                    cov.bump("root_searches")
                elif l.startswith("calc "):
                    cov.bump("helper_calls")
                elif l.startswith("bad "):
                    cov.bump("rejected_settings_attempted")
                elif l.startswith("set "):
                    cov.bump("settings_changed")
        cov.bump("panicked_evaluations", r.log.count(" PANIC"))
        cov.bump("panicked_root_searches", r.log.count(" panic-same"))
        facts += n or 0
        if v:
            if r.h["status"] == 5 or r.timeout:
                # long evaluations or a starving schedule are not a hang of the code
                if too_long(s, tag):
                    invalid += 1
                    continue
                p2 = re.sub(r"policy \w+", "policy uniform", plan)
                p2 = re.sub(r"gap [\d.]+", "gap 50000", p2)
                r2 = run_scn(s, p2, tag)
                v2, _ = oracle(s, r2, refs)
                if not v2:
                    continue
                plan = p2
                v = v2
            bad.append((i, v, s, plan))
            if len(bad) >= 2:
                break
        elif len(samples) < 1 and n:
            samples.append("seed index %d: %d threads, %d steps, %d switches, e.g. %s" % (
                i, len(s["threads"]), sum(map(len, s["threads"])), r.h["switches"],
                describe(next((l for t in s["threads"] for l in t if l.startswith(("e ", "root ", "calc ", "bad "))), "-"))))
    return cov, bad, samples, funcs, facts, invalid, refs.n


def vclass(v):
    """Class of a violation, kept fixed while minimising."""
    v = re.sub(r"[-+]?\d[\d.e+-]*", "#", v)
    return re.sub(r"\(.*", "", v)[:40] if "gave" in v else v[:30]


def minimise(prop, s, plan, v, secs):
    refs = Refs()
    end = time.time() + secs
    tag = prop + ".min"
    hang = "termination" in v or "never finished" in v

    def fails(s2, p2):
        try:
            r = run_scn(s2, p2, tag)
            x, _ = oracle(s2, r, refs)
        except HarnessError:
            return None
        if x and x != "INVALID" and (hang or r.h["status"] != 5):
            if r.h["status"] == 5 and too_long(s2, tag):
                return None
            return x, r
        return None

    best = (s, plan)
    # 1. is a schedule needed at all?
    quiet = re.sub(r"policy \w+", "policy none", plan)
    quiet = "\n".join(l for l in quiet.split("\n") if not l.startswith(("gap", "hotp", "spurp", "stallp", "wakep"))) + "\n"
    if fails(s, quiet):
        best = (s, quiet)
    # 2. drop steps
    steps = [(t, i) for t, st in enumerate(s["threads"]) for i in range(len(st))]
    seeds = [None] + list(range(3))

    def sub(keep):
        k = set(keep)
        s2 = dict(s)
        s2["threads"] = [[l for i, l in enumerate(st) if (t, i) in k] for t, st in enumerate(s["threads"])]
        s2.pop("_final", None)
        return s2

    found = {}

    def test(keep):
        s2 = sub(keep)
        for sd in (seeds if "policy none" not in best[1] else [None]):
            p2 = best[1]
            if sd is not None:
                p2 = re.sub(r"seed \d+", "seed %d" % (sd * 7919 + 11), p2)
            got = fails(s2, p2)
            if got:
                found["p"] = p2
                return True
            if time.time() > end:
                return False
        return False
    keep = simlib.ddmin(steps, test, end)
    s2 = sub(keep)
    p2 = best[1]
    for cand in [found.get("p", p2), p2] + [re.sub(r"seed \d+", "seed %d" % (sd * 7919 + 11), p2) for sd in range(3)]:
        got = fails(s2, cand)
        if got:
            break
    if not got:
        s2, cand = s, plan
        got = fails(s2, cand)
        if not got:
            return s, plan, v, None
    # 3. explicit schedule, then fewer switches
    x, r = got
    full = simlib.explicit_plan(cand, r)
    got2 = fails(s2, full)
    if got2:
        head = [l for l in full.split("\n") if l and not l.startswith(("sw ", "ch "))]
        ch = [l for l in full.split("\n") if l.startswith("ch ")]
        sw = [l for l in full.split("\n") if l.startswith("sw ")]

        def mk(sw_, ch_):
            return "\n".join(head + sw_ + ch_) + "\n"
        end2 = time.time() + max(5, secs / 3)
        sw = simlib.ddmin(sw, lambda k: bool(fails(s2, mk(k, ch))), end2)
        ch = simlib.ddmin(ch, lambda k: bool(fails(s2, mk(sw, k))), end2)
        cand = mk(sw, ch)
        got = fails(s2, cand) or got2
    return s2, cand, got[0], got[1]


COUNTS = {  # scenarios per quick run
    "C01": 24000, "C02": 32000, "C03": 11000, "C04": 8000, "C05": 20000, "C06": 48000, "C07": 32000, "C18": 40000}


def build_lib():
    err = simlib.build(["libsim"])
    if err:
        simlib.log("the committed function table does not compile; generating one from the tree")
        err2 = simlib.build(["libsim"], features="core")
        if err2:
            sys.stdout.write(err[-4000:])
            raise HarnessError("libsim does not build")
    if simlib.build(["libsim"], features="core" if err else None, profile="relu"):
        raise HarnessError("libsim does not build in release mode")


def write_replay(prop, s, plan, v, r):
    path = simlib.replay_path(prop)
    with open(path, "w") as f:
        json.dump({"kind": "lib", "property": prop, "violation": v, "scenario": {k: x for k, x in s.items() if not k.startswith("_")},
                   "readable": [[describe(l) for l in t] for t in s["threads"]],
                   "plan": plan.split("\n"), "history_hash": "%016x" % r.h["hash"] if r else None,
                   "reproduce": "/verif/check replay %s" % path}, f, indent=1)
        f.write("\n")
    return path


def replay(d):
    s = d["scenario"]
    plan = "\n".join(d["plan"])
    plan = re.sub(r"root \S+", "root %s" % os.path.join(simlib.scratch(), "none"), plan)
    r = run_scn(s, plan, "replay")
    v, _ = oracle(s, r, Refs())
    return v, "%016x" % r.h["hash"]


def check(prop):
    build_lib()
    t0 = time.time()
    nw = simlib.ncpu()
    thorough = simlib.TIER == "thorough"
    n = COUNTS[prop] * (60 if thorough else 1)
    limit = float(os.environ.get("SIM_SECS", "7200" if thorough else "240"))
    deadline = t0 + limit
    ops()
    simlib.scratch()
    with multiprocessing.Pool(nw) as pool:
        res = pool.map(worker, [(w, prop, w, n, nw, deadline) for w in range(nw)], chunksize=1)
    cov = simlib.Cover()
    bad, samples, funcs, facts, inv, nref = [], [], set(), 0, 0, 0
    for c, b, sm, f, fa, iv, rn in res:
        cov.merge(c)
        bad += b
        samples += sm
        funcs |= f
        facts += fa
        inv += iv
        nref += rn
    simlib.log("%s: %d runs, %d checked facts, %d functions, %d invalid, %d refs, %d violating" % (
        prop, cov.runs, facts, len(funcs), inv, nref, len(bad)))
    known = simlib.known_findings(prop)
    out = []
    for i, v, s, plan in sorted(bad, key=lambda b: b[0]):
        k = next((w for sig, w in known if sig in v), None)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        else:
            out.append((i, v, s, plan))
    wall = time.time() - t0
    level_extra = {"checked_facts": facts, "functions_exercised": len(funcs), "functions_in_table": len(ops()),
                   "reference_evaluations_in_pristine_processes": nref}
    if out:
        i, v, s, plan = out[0]
        simlib.log("violation at seed index %d: %s" % (i, v))
        s2, p2, v2, r2 = minimise(prop, s, plan, v, 60)
        path = write_replay(prop, s2, p2, v2, r2)
        again = [replay(json.load(open(path))) for _ in range(2)]
        simlib.log("minimised to %d steps, %d scheduling decisions; replays: %s" % (
            sum(map(len, s2["threads"])), sum(l.startswith(("sw ", "ch ")) for l in p2.split("\n")),
            "identical" if again[0] == again[1] and again[0][0] else "NOT identical"))
        print("  " + v2)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    simlib.write_evidence(
        prop, "exploration", cov,
        "each case is one scenario (threads, steps, arguments) and one seeded schedule, both derived from (VERIF_SEED, property, "
        "index); distinct by (scenario, hash of the schedule); non-trivial when a preemption fell between library instructions of "
        "a multi-threaded scenario, or the case holds a misbehaving callback, rejected setting, panic or a history of >= 8 steps",
        samples, time.time() - t0, ["isolated reference: same executable, pristine forked process"],
        (["qcd-sme (all modules)", "peroxide integration", "Rust std threads, locks, panics"],
         ["scheduler, futexes, clock, randomness (simrt)"]), len(out), level_extra)
    return 1 if out else 0
