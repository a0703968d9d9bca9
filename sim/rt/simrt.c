/* simrt: deterministic simulation runtime.
 *
 * Linked into a target executable in front of libc.  Exactly one application
 * thread runs at any time; a seeded scheduler decides every hand-over, and
 * every intercepted call (threads, futexes, clocks, randomness, CPU count,
 * allocation, files) is a seam that the plan of the run controls.
 *
 * A run is a pure function of the executable, its working directory contents
 * and the plan file named by SIM_PLAN.  Without SIM_PLAN the runtime is inert.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
#define HIDDEN static
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;

/* ------------------------------------------------------------------ raw */
HIDDEN long raw6(long n, long a, long b, long c, long d, long e, long f)
{
	long ret;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8") = e;
	register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return ret;
}
#define RAW(n, ...) raw_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define raw_(n, a, b, c, d, e, f, ...) raw6((long)(n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
HIDDEN long ret_errno(long r)
{
	if (r < 0 && r > -4096) {
		errno = (int)-r;
		return -1;
	}
	return r;
}

/* ------------------------------------------------------------------ prng */
HIDDEN u64 mix64(u64 z)
{
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
HIDDEN u64 hash3(u64 a, u64 b, u64 c) { return mix64(mix64(mix64(a) ^ b) ^ c); }
HIDDEN double u01(u64 h) { return (double)(h >> 11) * (1.0 / 9007199254740992.0); }
typedef struct { u64 s; } Rng;
HIDDEN u64 rnd(Rng *r) { r->s += 0x9e3779b97f4a7c15ull; return mix64(r->s); }
HIDDEN u64 rndn(Rng *r, u64 n) { return n ? rnd(r) % n : 0; }
HIDDEN double rndf(Rng *r) { return u01(rnd(r)); }

/* ------------------------------------------------------------------ plan */
enum { CL_DATA, CL_READ, CL_DIAG, CL_MEM, CL_THR, CL_OUT, CL_N };
HIDDEN const char *cl_name[CL_N] = {"data", "read", "diag", "mem", "thr", "out"};
enum { OP_OPENW, OP_WRITE, OP_MKDIR, OP_CLOSE, OP_SYNC, OP_META, OP_OPENR, OP_READ, OP_ALLOC, OP_SPAWN, OP_N };
HIDDEN const char *op_name[OP_N] = {"openw", "write", "mkdir", "close", "sync", "meta", "openr", "read", "alloc", "spawn"};
/* fault kinds */
enum { FK_ERR, FK_EINTR, FK_SHORT, FK_ZERO, FK_TORN, FK_FULL, FK_CRASH_BEFORE, FK_CRASH_MID, FK_CRASH_AFTER, FK_STALL, FK_EAGAIN, FK_N };
HIDDEN const char *fk_name[FK_N] = {"err", "eintr", "short", "zero", "torn", "full", "crash_before", "crash_mid", "crash_after", "stall", "eagain"};

typedef struct { int cl, op, kind, err; u64 at; int done; } Fault;
typedef struct { int cl, op, kind, err; double p; } Rate;
typedef struct { u64 tick; u32 val; } Ent;
#define MAXF 4096
#define MAXR 64
HIDDEN Fault faults[MAXF];
HIDDEN int nfaults;
HIDDEN Rate rates[MAXR];
HIDDEN int nrates;
HIDDEN Ent *sw_list;
HIDDEN u64 nsw_list, isw;
HIDDEN Ent *ch_list;
HIDDEN u64 nch_list, ich;

enum { POL_NONE, POL_UNIFORM, POL_PCT, POL_RR };
HIDDEN struct {
	u64 seed;
	int explicit_;
	double gap, hotp, wakep, spurp, stallp;
	u64 stall_len;
	int policy, ncpu, clockjump, logfull;
	u64 maxtick, crash_tick, pct_est, maxrate;
	int pct_d;
	double tol;
	int maxiter;
	char root[PATH_MAX];
	char logpath[PATH_MAX], peerlog[PATH_MAX];
	double peerp, peermeta, peerhold;
	u64 peermax, peerfrom;
	int peerburst;
} P;
/* the other process sharing the working directory: see "peer" below */
HIDDEN char *peer_b;
HIDDEN size_t peer_n, peer_o;
HIDDEN Ent *pa_list;
HIDDEN u64 npa_list, ipa, fsop, peer_done;
HIDDEN int peer_log = -1;
HIDDEN void peer_rest(void);

/* ------------------------------------------------------------------ log */
typedef struct {
	u64 magic, status, loglen, hash;
	u64 ticks, events, switches, forced, preempts, hot, vtime_ns;
	u64 threads, futex_waits, futex_wakes, spurious, deadlock, escapes, crash_fired;
	u64 cl_events[8];
	u64 fired[FK_N < 16 ? 16 : FK_N];
	u64 op_fired[16];
	u64 schedhash, nrec_sw, nrec_ch, clockjumps, stalls, dropped;
	u64 pairhash_n, maxrunnable, exitcode, mutations;
} Hdr;
HIDDEN Hdr *H, hdr_dummy;
HIDDEN char *logbuf;
HIDDEN u64 logcap;
#define LOGSZ (256ull << 20)

HIDDEN int active, inited;
HIDDEN long root_len;

HIDDEN void logs(const char *fmt, ...)
{
	if (!logbuf) return;
	char b[1024];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	if (n > (int)sizeof b - 1) n = sizeof b - 1;
	if (H->loglen + n > logcap) { H->dropped++; return; }
	memcpy(logbuf + H->loglen, b, n);
	H->loglen += n;
}
HIDDEN void hmix(u64 v) { H->hash = mix64(H->hash ^ v); }
HIDDEN u64 hbytes(const void *p, size_t n)
{
	u64 h = 1469598103934665603ull;
	const unsigned char *c = p;
	for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
	return h;
}

/* ------------------------------------------------------------------ threads */
enum { S_RUN, S_FUTEX, S_SLEEP, S_JOIN, S_OBJ, S_DONE };
typedef struct T {
	int id, state;
	u32 gate;
	u32 *faddr;
	u32 fbits;
	i64 wake; /* virtual ns, -1: none */
	int timedout;
	struct T *jtarget;
	void *obj;
	pthread_t pt;
	void *(*fn)(void *);
	void *arg;
	u64 prio, stall_until, since;
	int exited, keyround;
	u64 qpos;
} T;
#define MAXT 512
HIDDEN T th[MAXT];
HIDDEN int nth;
HIDDEN T *cur;
HIDDEN __thread T *me __attribute__((tls_model("initial-exec")));
HIDDEN pthread_key_t tkey;
HIDDEN Rng rs, rr;
HIDDEN i64 vextra = 1000000000ll; /* virtual ns besides 2 ns per tick */
#define vtime vnow()
HIDDEN i64 vnow(void);
HIDDEN i64 rt_offset = 1700000000ll * 1000000000ll;
HIDDEN u64 qseq;

HIDDEN int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
HIDDEN int (*real_pthread_join)(pthread_t, void **);

HIDDEN void gate_wait(T *t)
{
	while (__atomic_load_n(&t->gate, __ATOMIC_ACQUIRE) == 0) RAW(SYS_futex, &t->gate, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0);
	__atomic_store_n(&t->gate, 0, __ATOMIC_RELEASE);
}
HIDDEN void gate_open(T *t)
{
	__atomic_store_n(&t->gate, 1, __ATOMIC_RELEASE);
	RAW(SYS_futex, &t->gate, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}

HIDDEN u64 hot_count;
HIDDEN void finish(u64 status)
{
	if (H->status == 0) { H->status = status; peer_rest(); }
	H->vtime_ns = vtime;
	H->threads = nth;
	H->hot = hot_count;
}
HIDDEN void die(u64 status, int code)
{
	finish(status);
	active = 0;
	RAW(SYS_exit_group, code);
	__builtin_unreachable();
}

/* ------------------------------------------------------------------ ticks */
/* global tick = tick_base + (interval - countdown) while counting down */
HIDDEN i64 countdown = INT64_MAX, interval = INT64_MAX;
HIDDEN u64 tick_base;
HIDDEN i64 hotcd = INT64_MAX;
HIDDEN u64 next_pre; /* tick of next seeded preemption */

HIDDEN u64 now_tick(void) { return tick_base + (u64)(interval - countdown); }
HIDDEN i64 vnow(void) { return vextra + 2 * (i64)now_tick(); }
HIDDEN void arm_until(u64 t) /* next slow tick at tick t */
{
	u64 n = now_tick();
	tick_base = n;
	i64 d = t > n ? (i64)(t - n) : 1;
	interval = countdown = d;
}
HIDDEN u64 geo(Rng *r, double mean)
{
	if (mean <= 1) return 1;
	double u = rndf(r);
	if (u < 1e-12) u = 1e-12;
	/* -ln(u)*mean without libm */
	double x = u, l = 0;
	while (x < 0.5) { x *= 2; l += 0.6931471805599453; }
	double y = 1 - x, s = 0, pw = y;
	for (int k = 1; k < 24; k++) { s += pw / k; pw *= y; }
	l += s;
	u64 v = (u64)(l * mean) + 1;
	return v;
}
#define FAIR 400000ull
HIDDEN u64 pct_points[16];
HIDDEN void plan_next(void)
{
	u64 n = now_tick(), t = n + FAIR;
	if (P.explicit_) {
		while (isw < nsw_list && sw_list[isw].tick <= n) isw++;
		if (isw < nsw_list && sw_list[isw].tick < t) t = sw_list[isw].tick;
	} else {
		if (next_pre <= n) t = n + 1;
		else if (next_pre < t) t = next_pre;
	}
	if (P.crash_tick && P.crash_tick > n && P.crash_tick < t) t = P.crash_tick;
	arm_until(t);
}
HIDDEN void draw_next_pre(void)
{
	if (P.explicit_) return;
	u64 n = now_tick();
	next_pre = n + ((u64)1 << 60);
	if (P.policy == POL_PCT) {
		next_pre = 0;
		for (int i = 0; i < P.pct_d; i++)
			if (pct_points[i] > n && (!next_pre || pct_points[i] < next_pre)) next_pre = pct_points[i];
		if (!next_pre) next_pre = n + ((u64)1 << 60);
	} else if (P.gap > 0)
		next_pre = n + geo(&rs, P.gap);
	else
		next_pre = n + ((u64)1 << 60);
}
HIDDEN void draw_hot(void) { hotcd = (!P.explicit_ && P.hotp > 0) ? (i64)geo(&rs, 1.0 / P.hotp) : INT64_MAX; }

/* ------------------------------------------------------------------ scheduler */
HIDDEN int runnable(T *t) { return t->state == S_RUN; }
HIDDEN int collect_all(T **out, int with_cur)
{
	int n = 0;
	for (int i = 0; i < nth; i++)
		if (runnable(&th[i]) && (with_cur || &th[i] != me)) out[n++] = &th[i];
	return n;
}
HIDDEN int collect(T **out, int with_cur)
{
	if (P.explicit_) return collect_all(out, with_cur);
	int n = 0, st = 0;
	u64 tk = now_tick();
	for (int i = 0; i < nth; i++)
		if (runnable(&th[i]) && (with_cur || &th[i] != me)) {
			if (th[i].stall_until > tk) { st++; continue; }
			out[n++] = &th[i];
		}
	if (n == 0 && st) {
		/* everyone able to run is stalled: the stall ends */
		for (int i = 0; i < nth; i++)
			if (runnable(&th[i]) && (with_cur || &th[i] != me)) { th[i].stall_until = 0; out[n++] = &th[i]; }
	}
	return n;
}
HIDDEN T *default_next(T **r, int n)
{
	int id = me ? me->id : 0;
	for (int i = 0; i < n; i++) if (r[i]->id > id) return r[i];
	return r[0];
}
HIDDEN T *policy_pick(T **r, int n)
{
	if (n == 1) return r[0];
	switch (P.policy) {
	case POL_PCT: {
		T *b = r[0];
		for (int i = 1; i < n; i++) if (r[i]->prio > b->prio) b = r[i];
		return b;
	}
	case POL_UNIFORM: return r[rndn(&rs, n)];
	default: return default_next(r, n);
	}
}
HIDDEN void transfer(T *to)
{
	T *self = me;
	H->switches++;
	H->schedhash = hash3(H->schedhash, now_tick(), to->id);
	hmix(now_tick() * 1000003u + to->id);
	cur = to;
	to->since = now_tick();
	gate_open(to);
	gate_wait(self);
}
HIDDEN void rec_sw(u64 tick, int id)
{
	H->nrec_sw++;
	if (P.logfull) logs("sw %lu %d\n", tick, id);
}
HIDDEN int fire_timers(void)
{
	/* nobody can run: jump the clock to the earliest deadline */
	i64 best = -1;
	T *bt = 0;
	for (int i = 0; i < nth; i++)
		if (th[i].state != S_RUN && th[i].state != S_DONE && th[i].wake >= 0 && (best < 0 || th[i].wake < best)) { best = th[i].wake; bt = &th[i]; }
	if (!bt) return 0;
	if (best > vtime) vextra += best - vtime;
	bt->timedout = 1;
	bt->state = S_RUN;
	bt->wake = -1;
	return 1;
}
HIDDEN void expire_timers(void)
{
	for (int i = 0; i < nth; i++)
		if (th[i].state != S_RUN && th[i].state != S_DONE && th[i].wake >= 0 && th[i].wake <= vtime) {
			th[i].timedout = 1;
			th[i].state = S_RUN;
			th[i].wake = -1;
		}
}
HIDDEN void slow_tick_crash(void)
{
	if (P.crash_tick && now_tick() >= P.crash_tick) {
		H->crash_fired++;
		logs("crash tick %lu\n", now_tick());
		die(3, 137);
	}
}
/* one scheduling decision; must_leave: current thread cannot continue */
HIDDEN void decide(int must_leave, int prefer_other)
{
	T *r[MAXT];
	countdown--; /* every decision has a tick of its own */
	u64 tk = now_tick();
	H->ticks = tk;
	if (tk > P.maxtick) {
		logs("livelock tick %lu\n", tk);
		die(5, 98);
	}
	expire_timers();
	int n;
	for (;;) {
		n = collect(r, !must_leave);
		if (n) break;
		if (!fire_timers()) {
			if (nth && me->state == S_DONE) {
				int alive = 0;
				for (int i = 0; i < nth; i++) alive += th[i].state != S_DONE;
				if (!alive) return;
			}
			H->deadlock++;
			logs("deadlock tick %lu\n", tk);
			for (int i = 0; i < nth; i++) logs("thread %d state %d\n", i, th[i].state);
			die(4, 97);
		}
		/* a timer may have made ourselves runnable again */
		if (me->state == S_RUN && must_leave) { must_leave = 0; }
	}
	if ((u64)n > H->maxrunnable) H->maxrunnable = n;
	T *pick = 0, *F[MAXT];
	int nf = collect_all(F, !must_leave), in = 0;
	for (int i = 0; i < nf; i++) in |= F[i] == me;
	/* what an explicit schedule does when it has no entry for this tick */
	T *def = in && !(prefer_other && nf > 1) && tk - me->since < 4 * FAIR ? me : default_next(F, nf);
	if (P.explicit_) {
		while (isw < nsw_list && sw_list[isw].tick < tk) isw++;
		if (isw < nsw_list && sw_list[isw].tick == tk) {
			for (int i = 0; i < nf; i++) if (F[i]->id == (int)sw_list[isw].val) pick = F[i];
			isw++;
		}
		if (!pick) pick = def;
	} else {
		T *o[MAXT];
		int m = 0, fair = !must_leave && tk - me->since >= FAIR;
		if (prefer_other || fair) {
			if (P.policy == POL_PCT) me->prio = (1u << 20) - (qseq++ & 0xfffff);
			for (int i = 0; i < n; i++) if (r[i] != me) o[m++] = r[i];
		}
		pick = m ? policy_pick(o, m) : policy_pick(r, n);
		if (pick != def) rec_sw(tk, pick->id);
	}
	if (pick == me) { me->since = tk; return; }
	transfer(pick);
}
/* a possible preemption */
HIDDEN void preempt(void)
{
	H->preempts++;
	if (!P.explicit_) {
		if (P.policy == POL_PCT) me->prio = 1u << 20 | (u32)(hash3(P.seed, 77, H->preempts) & 0xffff);
		if (P.stallp > 0 && rndf(&rs) < P.stallp) {
			me->stall_until = now_tick() + P.stall_len;
			H->stalls++;
		}
	}
	decide(0, 0);
}
HIDDEN void vt_advance(i64 ns) { vextra += ns; }

HIDDEN __attribute__((noinline)) void slow_tick(void)
{
	if (!active || !me || me != cur) { countdown = interval = 1 << 20; tick_base += 1 << 20; return; }
	u64 n = now_tick();
	slow_tick_crash();
	/* the edge's own tick is the tick of the decision */
	if (P.explicit_) {
		countdown++;
		decide(0, 0);
	} else {
		int due = next_pre <= n, fair = n - me->since >= FAIR;
		if (due) { countdown++; preempt(); draw_next_pre(); }
		else if (fair) { countdown++; decide(0, 0); }
	}
	plan_next();
}
HIDDEN __attribute__((noinline)) void hot_slow(void)
{
	if (!active || !me || me != cur) { hotcd = 1 << 20; return; }
	countdown++;
	preempt();
	draw_hot();
	plan_next();
}

EXPORT void __sanitizer_cov_trace_pc_guard_init(u32 *a, u32 *b) { (void)a; (void)b; }
EXPORT void __sanitizer_cov_trace_pc_guard(u32 *g)
{
	(void)g;
	if (__builtin_expect(--countdown <= 0, 0)) slow_tick();
}
extern char __data_start[] __attribute__((visibility("hidden"))), _end[] __attribute__((visibility("hidden")));
HIDDEN char *hot_lo, *hot_hi;
HIDDEN inline void hot(void *p)
{
	if ((char *)p >= hot_lo && (char *)p < hot_hi) {
		hot_count++;
		if (__builtin_expect(--hotcd <= 0, 0)) { countdown--; hot_slow(); }
		else if (__builtin_expect(--countdown <= 0, 0)) slow_tick();
	}
}
#define L(n) EXPORT void __sanitizer_cov_load##n(void *p) { hot(p); } EXPORT void __sanitizer_cov_store##n(void *p) { hot(p); }
L(1) L(2) L(4) L(8) L(16)

HIDDEN u32 choose(u32 n, double p) /* 0 by default; nonzero with probability p */
{
	u64 tk;
	u32 v = 0;
	if (n < 2) return 0;
	countdown--;
	tk = now_tick();
	if (P.explicit_) {
		while (ich < nch_list && ch_list[ich].tick < tk) ich++;
		if (ich < nch_list && ch_list[ich].tick == tk) { v = ch_list[ich].val % n; ich++; }
	} else if (p > 0 && rndf(&rs) < p) {
		v = 1 + (u32)rndn(&rs, n - 1);
		H->nrec_ch++;
		if (P.logfull) logs("ch %lu %u\n", tk, v);
	}
	if (v) hmix(tk * 31 + v);
	return v;
}

/* block current thread in given state until made runnable */
HIDDEN void block(int state, i64 deadline)
{
	me->state = state;
	me->wake = deadline;
	me->timedout = 0;
	me->qpos = qseq++;
	decide(1, 1);
	me->state = S_RUN;
	me->wake = -1;
	plan_next();
}
HIDDEN void sim_point(void) /* an intercepted call: may switch */
{
	vt_advance(1000);
	if (P.crash_tick) slow_tick_crash();
	if (!P.explicit_) {
		if (P.policy == POL_UNIFORM && P.gap > 0 && rndf(&rs) < 0.05) preempt(); else { countdown--; if (now_tick() > P.maxtick) { logs("livelock\n"); die(5, 98);} }
	} else
		decide(0, 0);
	plan_next();
}
HIDDEN int on(void) { return active && me && me == cur; }

/* ------------------------------------------------------------------ pthread */
HIDDEN void key_dtor(void *v)
{
	T *t = v;
	if (++t->keyround < 4) { pthread_setspecific(tkey, t); return; }
	/* last act of a simulated thread: hand the token over for good */
	t->state = S_DONE;
	for (int i = 0; i < nth; i++)
		if (th[i].state == S_JOIN && th[i].jtarget == t) th[i].state = S_RUN;
	T *r[MAXT];
	countdown--;
	expire_timers();
	int n;
	while (!(n = collect(r, 0)))
		if (!fire_timers()) { H->deadlock++; logs("deadlock at thread exit\n"); die(4, 97); }
	T *pick = 0;
	u64 tk = now_tick();
	T *F[MAXT];
	int nf = collect_all(F, 0);
	T *def = default_next(F, nf);
	if (P.explicit_) {
		while (isw < nsw_list && sw_list[isw].tick < tk) isw++;
		if (isw < nsw_list && sw_list[isw].tick == tk) {
			for (int i = 0; i < nf; i++) if (F[i]->id == (int)sw_list[isw].val) pick = F[i];
			isw++;
		}
		if (!pick) pick = def;
	} else {
		pick = policy_pick(r, n);
		if (pick != def) rec_sw(tk, pick->id);
	}
	H->switches++;
	H->schedhash = hash3(H->schedhash, tk, pick->id);
	hmix(tk * 1000003u + pick->id);
	plan_next();
	cur = pick;
	pick->since = tk;
	me = 0;
	gate_open(pick);
}
HIDDEN void *trampoline(void *a)
{
	T *t = a;
	me = t;
	gate_wait(t);
	pthread_setspecific(tkey, t);
	return t->fn(t->arg);
}
HIDDEN int fault_for(int cl, int op, size_t len, int *err, size_t *part);

EXPORT int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
	if (!real_pthread_create) real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
	if (!on()) return real_pthread_create(pt, at, fn, arg);
	int err;
	size_t part;
	int k = fault_for(CL_THR, OP_SPAWN, 0, &err, &part);
	if (k == FK_ERR || k == FK_EAGAIN) return EAGAIN;
	if (nth >= MAXT) return EAGAIN;
	T *t = &th[nth];
	memset(t, 0, sizeof *t);
	t->id = nth;
	t->fn = fn;
	t->arg = arg;
	t->wake = -1;
	t->prio = (1ull << 32) + (hash3(P.seed, 5, t->id) & 0xffffff);
	t->state = S_RUN;
	int rc = real_pthread_create(&t->pt, at, trampoline, t);
	if (rc) return rc;
	nth++;
	*pt = t->pt;
	sim_point();
	return 0;
}
EXPORT int pthread_join(pthread_t pt, void **rv)
{
	if (!real_pthread_join) real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
	if (!on()) return real_pthread_join(pt, rv);
	for (int i = 0; i < nth; i++)
		if (th[i].pt == pt && !th[i].exited) {
			while (th[i].state != S_DONE) {
				me->jtarget = &th[i];
				block(S_JOIN, -1);
			}
			th[i].exited = 1;
			break;
		}
	return real_pthread_join(pt, rv);
}

/* generic wait objects for libc-level mutexes, condition variables, semaphores */
HIDDEN void obj_wake(void *o, int all)
{
	for (;;) {
		T *b = 0;
		for (int i = 0; i < nth; i++)
			if (th[i].state == S_OBJ && th[i].obj == o && (!b || th[i].qpos < b->qpos)) b = &th[i];
		if (!b) return;
		b->state = S_RUN;
		if (!all) return;
	}
}
#define REAL(name) HIDDEN __typeof__(name) *real_##name; static inline __typeof__(name) *R_##name(void) { if (!real_##name) real_##name = (__typeof__(name) *)dlsym(RTLD_NEXT, #name); return real_##name; }
REAL(pthread_mutex_lock) REAL(pthread_mutex_unlock) REAL(pthread_mutex_trylock)
REAL(pthread_cond_wait) REAL(pthread_cond_timedwait) REAL(pthread_cond_signal) REAL(pthread_cond_broadcast)
REAL(sem_wait) REAL(sem_post) REAL(sem_trywait) REAL(sem_timedwait)
REAL(pthread_cond_clockwait) REAL(sem_clockwait)

HIDDEN void sim_mlock(pthread_mutex_t *m)
{
	while (R_pthread_mutex_trylock()(m) == EBUSY) { me->obj = m; block(S_OBJ, -1); }
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m)
{
	if (!on()) return R_pthread_mutex_lock()(m);
	sim_mlock(m);
	return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m)
{
	int r = R_pthread_mutex_unlock()(m);
	if (on()) obj_wake(m, 1);
	return r;
}
HIDDEN int cwait(pthread_cond_t *c, pthread_mutex_t *m, i64 dl)
{
	R_pthread_mutex_unlock()(m);
	obj_wake(m, 1);
	me->obj = c;
	block(S_OBJ, dl);
	int to = me->timedout;
	sim_mlock(m);
	return to ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return on() ? cwait(c, m, -1) : R_pthread_cond_wait()(c, m); }
HIDDEN i64 ts_ns(const struct timespec *t) { return (i64)t->tv_sec * 1000000000ll + t->tv_nsec; }
HIDDEN i64 abs_dl(clockid_t clk, const struct timespec *t) { i64 d = ts_ns(t) - (clk == CLOCK_REALTIME ? rt_offset : 0); return d < 0 ? 0 : d; }
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
	if (!on()) return R_pthread_cond_timedwait()(c, m, t);
	/* clock attribute unknown: realtime stamps are far larger than monotonic ones */
	i64 a = ts_ns(t);
	return cwait(c, m, a > rt_offset / 2 ? a - rt_offset : a);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t)
{
	if (!on()) return R_pthread_cond_clockwait()(c, m, k, t);
	return cwait(c, m, abs_dl(k, t));
}
EXPORT int pthread_cond_signal(pthread_cond_t *c)
{
	if (on()) obj_wake(c, 0);
	return R_pthread_cond_signal()(c);
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c)
{
	if (on()) obj_wake(c, 1);
	return R_pthread_cond_broadcast()(c);
}
EXPORT int sem_wait(sem_t *s)
{
	if (!on()) return R_sem_wait()(s);
	while (R_sem_trywait()(s) != 0) { me->obj = s; block(S_OBJ, -1); }
	return 0;
}
HIDDEN int semtw(sem_t *s, i64 dl)
{
	while (R_sem_trywait()(s) != 0) {
		me->obj = s;
		block(S_OBJ, dl);
		if (me->timedout) { errno = ETIMEDOUT; return -1; }
	}
	return 0;
}
EXPORT int sem_timedwait(sem_t *s, const struct timespec *t) { return on() ? semtw(s, abs_dl(CLOCK_REALTIME, t)) : R_sem_timedwait()(s, t); }
EXPORT int sem_clockwait(sem_t *s, clockid_t k, const struct timespec *t) { return on() ? semtw(s, abs_dl(k, t)) : R_sem_clockwait()(s, k, t); }
EXPORT int sem_post(sem_t *s)
{
	int r = R_sem_post()(s);
	if (on()) obj_wake(s, 0);
	return r;
}

/* ------------------------------------------------------------------ futex */
HIDDEN long sim_futex(u32 *addr, int op, u32 val, const struct timespec *to, u32 bits)
{
	int cmd = op & FUTEX_CMD_MASK;
	if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
		if (cmd == FUTEX_WAIT) bits = 0xffffffff;
		sim_point();
		if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
		if (choose(2, P.spurp)) { H->spurious++; return 0; }
		i64 dl = -1;
		if (to) dl = cmd == FUTEX_WAIT ? vtime + ts_ns(to) : abs_dl(op & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, to);
		H->futex_waits++;
		me->faddr = addr;
		me->fbits = bits;
		block(S_FUTEX, dl);
		return me->timedout ? -ETIMEDOUT : 0;
	}
	if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
		if (cmd == FUTEX_WAKE) bits = 0xffffffff;
		long n = 0;
		H->futex_wakes++;
		expire_timers();
		while ((u32)n < val) {
			T *c[MAXT];
			int m = 0;
			for (int i = 0; i < nth; i++)
				if (th[i].state == S_FUTEX && th[i].faddr == addr && (th[i].fbits & bits)) {
					/* keep queue order */
					int j = m++;
					while (j > 0 && c[j - 1]->qpos > th[i].qpos) { c[j] = c[j - 1]; j--; }
					c[j] = &th[i];
				}
			if (!m) break;
			T *w = c[choose(m, P.wakep)];
			w->state = S_RUN;
			w->timedout = 0;
			n++;
		}
		sim_point();
		return n;
	}
	return RAW(SYS_futex, addr, op, val, to, 0, bits);
}

HIDDEN u64 rand_ctr;
HIDDEN void fill_random(void *b, size_t n)
{
	unsigned char *p = b;
	for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(rnd(&rr) >> 24);
	rand_ctr++;
}

EXPORT long syscall(long nr, ...)
{
	va_list ap;
	va_start(ap, nr);
	long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
	va_end(ap);
	if (on()) {
		if (nr == SYS_futex) return ret_errno(sim_futex((u32 *)a, (int)b, (u32)c, (const struct timespec *)d, (u32)f));
		if (nr == SYS_getrandom) { fill_random((void *)a, (size_t)b); return b; }
		if (nr == SYS_sched_yield) { sched_yield(); return 0; }
		if (nr == SYS_gettid) return gettid();
		if (nr == SYS_getpid) return getpid();
	}
	return ret_errno(raw6(nr, a, b, c, d, e, f));
}
/* identifiers that end up in messages */
EXPORT pid_t gettid(void) { return on() ? 10000 + me->id : (pid_t)RAW(SYS_gettid); }
EXPORT pid_t getpid(void) { return on() ? 10000 : (pid_t)RAW(SYS_getpid); }
EXPORT int sched_yield(void)
{
	if (!on()) return (int)RAW(SYS_sched_yield);
	vt_advance(1000);
	slow_tick_crash();
	decide(0, 1);
	plan_next();
	return 0;
}
EXPORT ssize_t getrandom(void *b, size_t n, unsigned fl)
{
	if (!inited || !active) return ret_errno(RAW(SYS_getrandom, b, n, fl));
	fill_random(b, n);
	return n;
}
EXPORT int getentropy(void *b, size_t n)
{
	if (!inited || !active) return (int)ret_errno(RAW(SYS_getrandom, b, n, 0)) < 0 ? -1 : 0;
	fill_random(b, n);
	return 0;
}

/* ------------------------------------------------------------------ time */
HIDDEN void maybe_clock_jump(void)
{
	if (P.clockjump && hash3(P.seed, 0xc10c, H->events + now_tick()) % 16 == 0) {
		i64 j = (i64)(hash3(P.seed, 0xc10d, H->events) % 7200) - 3600;
		rt_offset += j * 1000000000ll;
		H->clockjumps++;
	}
}
EXPORT int clock_gettime(clockid_t k, struct timespec *t)
{
	if (!inited || !active) return (int)ret_errno(RAW(SYS_clock_gettime, k, t));
	vextra += 50;
	i64 v = vtime;
	if (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE) { maybe_clock_jump(); v += rt_offset; }
	t->tv_sec = v / 1000000000ll;
	t->tv_nsec = v % 1000000000ll;
	return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz)
{
	(void)tz;
	struct timespec t;
	clock_gettime(CLOCK_REALTIME, &t);
	if (tv) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; }
	return 0;
}
EXPORT time_t time(time_t *p)
{
	struct timespec t;
	clock_gettime(CLOCK_REALTIME, &t);
	if (p) *p = t.tv_sec;
	return t.tv_sec;
}
HIDDEN void sim_sleep(i64 until)
{
	if (until <= vtime) { sched_yield(); return; }
	block(S_SLEEP, until);
}
EXPORT int nanosleep(const struct timespec *q, struct timespec *rem)
{
	if (!on()) return (int)ret_errno(RAW(SYS_nanosleep, q, rem));
	sim_sleep(vtime + ts_ns(q));
	return 0;
}
EXPORT int clock_nanosleep(clockid_t k, int fl, const struct timespec *q, struct timespec *rem)
{
	if (!on()) return (int)-RAW(SYS_clock_nanosleep, k, fl, q, rem);
	sim_sleep(fl & TIMER_ABSTIME ? abs_dl(k, q) : vtime + ts_ns(q));
	return 0;
}
EXPORT int usleep(useconds_t u)
{
	struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000};
	return nanosleep(&t, 0);
}

EXPORT int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *m)
{
	if (!inited || !active) { long r = RAW(SYS_sched_getaffinity, pid, n, m); if (r < 0) return (int)ret_errno(r); memset((char *)m + r, 0, n - r); return 0; }
	memset(m, 0, n);
	for (int i = 0; i < P.ncpu && i < 64; i++) ((unsigned char *)m)[i / 8] |= 1u << (i % 8);
	return 0;
}

/* ------------------------------------------------------------------ faults */
HIDDEN u64 cl_count[CL_N];
HIDDEN int disk_full;
HIDDEN u64 rate_fired;
HIDDEN int default_err(int cl, int op, u64 h)
{
	static const int ew[] = {EIO, ENOSPC, EDQUOT, EFBIG};
	static const int eo[] = {EACCES, ENOSPC, EMFILE, EIO, EROFS};
	static const int er[] = {EIO, EACCES, EMFILE, ENFILE, ELOOP, EPERM};
	static const int ed[] = {EPIPE, EIO, ENOSPC, EBADF, EAGAIN};
	static const int em[] = {EACCES, ENOSPC, EIO, EROFS};
	if (cl == CL_DIAG || cl == CL_OUT) return ed[h % 5];
	switch (op) {
	case OP_WRITE: return ew[h % 4];
	case OP_OPENW: return eo[h % 5];
	case OP_OPENR: return er[h % 6];
	case OP_READ: return EIO;
	case OP_MKDIR: return em[h % 4];
	case OP_CLOSE: case OP_SYNC: return EIO;
	default: return EIO;
	}
}
HIDDEN int applicable(int cl, int op, int kind)
{
	switch (kind) {
	case FK_ERR: return cl != CL_MEM || 1;
	case FK_EINTR: return op == OP_OPENW || op == OP_WRITE || op == OP_READ || op == OP_OPENR;
	case FK_SHORT: return op == OP_WRITE || op == OP_READ;
	case FK_ZERO: case FK_TORN: return op == OP_WRITE;
	case FK_FULL: return op == OP_WRITE || op == OP_OPENW || op == OP_MKDIR;
	case FK_CRASH_MID: return op == OP_WRITE;
	case FK_EAGAIN: return op == OP_SPAWN;
	case FK_STALL: case FK_CRASH_BEFORE: case FK_CRASH_AFTER: return cl != CL_MEM;
	}
	return 0;
}
HIDDEN int crash_after_pending;
/* returns fault kind or -1; counts the event */
HIDDEN int fault_for(int cl, int op, size_t len, int *err, size_t *part)
{
	u64 idx = cl_count[cl]++;
	H->cl_events[cl] = cl_count[cl];
	H->events++;
	int kind = -1;
	*err = 0;
	for (int i = 0; i < nfaults; i++) {
		Fault *f = &faults[i];
		if (f->done || f->cl != cl || (f->op >= 0 && f->op != op) || idx < f->at || !applicable(cl, op, f->kind)) continue;
		f->done = 1;
		kind = f->kind;
		*err = f->err;
		if (P.logfull) logs("fire %s %s %s %lu %d\n", cl_name[cl], op_name[op], fk_name[kind], idx, f->err);
		break;
	}
	if (kind < 0 && rate_fired < P.maxrate)
		for (int i = 0; i < nrates; i++) {
			Rate *r = &rates[i];
			if (r->cl != cl || (r->op >= 0 && r->op != op) || !applicable(cl, op, r->kind)) continue;
			if (u01(hash3(P.seed ^ 0xfa17, idx * 64 + i, cl)) < r->p) {
				kind = r->kind;
				*err = r->err;
				rate_fired++;
				/* written so that the trace can be turned into explicit faults */
				logs("rfire %s %s %s %lu %d\n", cl_name[cl], op_name[op], fk_name[kind], idx, r->err);
				break;
			}
		}
	u64 h = hash3(P.seed ^ 0xe44, idx, cl);
	if (kind < 0 && disk_full && cl == CL_DATA && applicable(cl, op, FK_FULL)) { kind = FK_ERR; *err = ENOSPC; H->fired[FK_FULL]++; H->op_fired[op]++; return kind; }
	if (kind < 0) return -1;
	if (kind == FK_SHORT || kind == FK_TORN || kind == FK_CRASH_MID) {
		if (len < 2) { if (kind == FK_SHORT) return -1; *part = len ? len - 1 : 0; }
		else {
			u64 sel = h % 4;
			*part = sel == 0 ? 1 : sel == 1 ? len - 1 : 1 + (size_t)((h >> 8) % (len - 1));
		}
	}
	H->fired[kind]++;
	H->op_fired[op]++;
	if (kind == FK_FULL) { disk_full = 1; kind = FK_ERR; *err = ENOSPC; }
	if (kind == FK_EINTR) { *err = EINTR; kind = FK_ERR; }
	if (!*err) *err = default_err(cl, op, h);
	hmix(hash3(kind, idx, *err));
	if (kind == FK_CRASH_BEFORE) { H->crash_fired++; logs("crash before %s %s %lu\n", cl_name[cl], op_name[op], idx); die(3, 137); }
	if (kind == FK_CRASH_AFTER) crash_after_pending = 1;
	if (kind == FK_STALL && me) { me->stall_until = now_tick() + 20000; H->stalls++; }
	return kind;
}
HIDDEN void post_event(void)
{
	if (crash_after_pending) { H->crash_fired++; logs("crash after\n"); die(3, 137); }
	sim_point();
}

/* ------------------------------------------------------------------ peer */
/* A second process in the same working directory.  Processes that share
   nothing but the file system interact through their calls only, and each call
   is atomic: the calls of the other one, recorded while it ran alone (`peerlog`),
   are carried out (`peer`) between the calls of the program under test. */
HIDDEN void peer_rec(const char *fmt, ...)
{
	if (peer_log < 0) return;
	char b[PATH_MAX * 2];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	RAW(SYS_write, peer_log, b, n);
}
#define PEERFD 256
HIDDEN int peer_fd[PEERFD];
HIDDEN void peer_fail(const char *what, const char *path, long r)
{
	if (r < 0) logs("peerfail %s %s %ld\n", what, path, r);
}
HIDDEN int peer_alone;
HIDDEN int peer_one(void)
{
	if (!peer_b || peer_o >= peer_n || (P.peermax && peer_done >= P.peermax)) return 0;
	char *l = peer_b + peer_o, *e = memchr(l, '\n', peer_n - peer_o);
	if (!e) { peer_o = peer_n; return 0; }
	*e = 0;
	peer_o = e + 1 - peer_b;
	peer_done++;
	char a[PATH_MAX + 256], c[PATH_MAX + 256], *q = l + 2;
	long fd = -1, x = 0, len = 0, r = 0;
	if (*l == 'O') {
		fd = strtol(q, &q, 10);
		x = strtol(q, &q, 10);
		snprintf(a, sizeof a, "%s/%s", P.root, q + 1);
		r = RAW(SYS_openat, AT_FDCWD, a, x | O_CLOEXEC, 0644);
		peer_fail("open", q + 1, r);
		if (r >= 0 && fd >= 0 && fd < PEERFD) {
			long hi = RAW(SYS_fcntl, r, F_DUPFD_CLOEXEC, 600);
			if (hi >= 0) RAW(SYS_close, r);
			peer_fd[fd] = (int)(hi >= 0 ? hi : r);
		}
	} else if (*l == 'W') {
		fd = strtol(q, &q, 10);
		x = strtol(q, &q, 10);
		len = strtol(q, &q, 10);
		char *d = peer_b + peer_o;
		peer_o += len;
		if (fd >= 0 && fd < PEERFD && peer_fd[fd] > 0) r = x < 0 ? RAW(SYS_write, peer_fd[fd], d, len) : RAW(SYS_pwrite64, peer_fd[fd], d, len, x);
		if (r < 0) peer_fail("write", "?", r);
	} else if (*l == 'T') {
		fd = strtol(q, &q, 10);
		x = strtol(q, &q, 10);
		if (fd >= 0 && fd < PEERFD && peer_fd[fd] > 0) RAW(SYS_ftruncate, peer_fd[fd], x);
	} else if (*l == 'L') {
		fd = strtol(q, &q, 10);
		x = strtol(q, &q, 10);
		if (fd >= 0 && fd < PEERFD && peer_fd[fd] > 0 && !peer_alone) {
			r = RAW(SYS_flock, peer_fd[fd], x | LOCK_NB);
			if (r == -EWOULDBLOCK && !(x & LOCK_NB)) { /* waits for the program under test */
				*e = '\n';
				peer_o = l - peer_b;
				peer_done--;
				return 0;
			}
			peer_fail("lock", "?", r);
		}
	} else if (*l == 'C') {
		fd = strtol(q, &q, 10);
		if (fd >= 0 && fd < PEERFD && peer_fd[fd] > 0) { RAW(SYS_close, peer_fd[fd]); peer_fd[fd] = 0; }
	} else if (*l == 'M') {
		char *w = q, *p1 = strchr(q, '\t'), *p2;
		if (!p1) return 1;
		*p1++ = 0;
		p2 = strchr(p1, '\t');
		if (p2) *p2++ = 0;
		snprintf(a, sizeof a, "%s/%s", P.root, p1);
		if (p2) snprintf(c, sizeof c, "%s/%s", P.root, p2);
		if (!strcmp(w, "mkdir")) { r = RAW(SYS_mkdir, a, 0755); if (r == -EEXIST) r = 0; }
		else if (!strcmp(w, "unlink")) r = RAW(SYS_unlink, a);
		else if (!strcmp(w, "rmdir")) r = RAW(SYS_rmdir, a);
		else if (!strcmp(w, "rename") && p2) r = RAW(SYS_rename, a, c);
		else if (!strcmp(w, "link") && p2) r = RAW(SYS_link, a, c);
		peer_fail(w, p1, r);
	}
	hmix(hash3(0x9ee7, peer_done, (u64)(r < 0 ? r : 0)));
	return 1;
}
HIDDEN u64 peer_held, peer_seen;
/* meta: the program under test is about to rename, remove or the like */
HIDDEN void peer_point(int meta)
{
	if (!peer_b) return;
	u64 n = fsop++, k = 0, h = hash3(P.seed ^ 0x9ee7, n, 1);
	while (ipa < npa_list && pa_list[ipa].tick <= n) k += pa_list[ipa++].val;
	if (P.peerp > 0 && n >= P.peerfrom && u01(h) < P.peerp) k += 1 + hash3(h, n, 2) % (u64)(P.peerburst > 0 ? P.peerburst : 1);
	/* much of what the other one has to do fits in here */
	if (meta && u01(hash3(h, n, 3)) < P.peermeta) k += 1ull << (hash3(h, n, 4) % 12);
	u64 did = 0;
	while (did < k && n >= peer_held) {
		/* and much of this program in front of such a step of the other one */
		if (P.peerhold > 0 && peer_seen != peer_o && peer_o + 3 < peer_n && peer_b[peer_o] == 'M' && strncmp(peer_b + peer_o, "M mkdir", 7)) {
			peer_seen = peer_o;
			h = hash3(P.seed, peer_o, 5);
			if (u01(h) < P.peerhold) { peer_held = h % 3 ? n + 1 + (h >> 8) % 200 : ~0ull; break; }
		}
		if (!peer_one()) break;
		did++;
	}
	if (did) logs("peerat %lu %lu\n", n, did);
}
/* whatever the program under test did not live to see */
HIDDEN void peer_rest(void) { peer_alone = 1; while (peer_one()) ; }
EXPORT int flock(int fd, int op)
{
	long r = RAW(SYS_flock, fd, peer_b ? op | LOCK_NB : op);
	/* waits for the other one */
	while (peer_b && r == -EWOULDBLOCK && !(op & LOCK_NB) && peer_one()) r = RAW(SYS_flock, fd, op | LOCK_NB);
	if (peer_b && r == -EWOULDBLOCK && !(op & LOCK_NB)) { /* the other one is gone, and its locks with it */
		for (int i = 0; i < PEERFD; i++) if (peer_fd[i] > 0) { RAW(SYS_close, peer_fd[i]); peer_fd[i] = 0; }
		r = RAW(SYS_flock, fd, op | LOCK_NB);
	}
	if (r == 0 && on()) { peer_rec("L %d %d\n", fd, op); logs("lock %d\n", op); }
	return (int)ret_errno(r);
}

/* ------------------------------------------------------------------ files */
#define MAXFD 1024
HIDDEN unsigned char fdcl[MAXFD]; /* 0 none, 1 data(w), 2 read in root, 3 diag */
HIDDEN char fdpath[MAXFD][192];

HIDDEN int normalize(const char *path, char *out) /* lexical, absolute */
{
	char tmp[PATH_MAX * 2];
	if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
	else {
		long r = RAW(SYS_getcwd, out, PATH_MAX);
		if (r <= 0) return -1;
		snprintf(tmp, sizeof tmp, "%s/%s", out, path);
	}
	char *o = out;
	*o = 0;
	char *p = tmp;
	while (*p) {
		while (*p == '/') p++;
		char *q = p;
		while (*q && *q != '/') q++;
		size_t n = q - p;
		if (n == 0) break;
		if (n == 1 && p[0] == '.') {
		} else if (n == 2 && p[0] == '.' && p[1] == '.') {
			while (o > out && o[-1] != '/') o--;
			if (o > out) o--;
			*o = 0;
		} else {
			*o++ = '/';
			memcpy(o, p, n);
			o += n;
			*o = 0;
		}
		p = q;
	}
	if (o == out) strcpy(out, "/");
	return 0;
}
HIDDEN int in_root(const char *n) { return root_len && !strncmp(n, P.root, root_len) && (n[root_len] == '/' || n[root_len] == 0); }
HIDDEN const char *rel(const char *n) { return in_root(n) ? (n[root_len] ? n + root_len + 1 : ".") : n; }
HIDDEN int resolve(int dfd, const char *path, char *out)
{
	if (path[0] != '/' && dfd != AT_FDCWD) {
		char l[64], b[PATH_MAX], j[PATH_MAX * 2];
		snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
		long n = RAW(SYS_readlink, l, b, sizeof b - 1);
		if (n <= 0) return -1;
		b[n] = 0;
		snprintf(j, sizeof j, "%s/%s", b, path);
		return normalize(j, out);
	}
	return normalize(path, out);
}
HIDDEN int escape(const char *what, const char *n)
{
	if (!strncmp(n, "/dev/", 5)) return 0;
	H->escapes++;
	logs("escape %s %s\n", what, n);
	return 1;
}
HIDDEN void ev(const char *op, const char *path, long a, long r)
{
	hmix(hash3(hbytes(op, strlen(op)), hbytes(path, strlen(path)), a * 7919 + r));
	if (P.logfull) logs("ev %lu t%d %s %s %ld -> %ld\n", H->events, me ? me->id : -1, op, path, a, r);
}
HIDDEN int cgroupish(const char *n) { return !strncmp(n, "/proc/self/cgroup", 17) || !strncmp(n, "/sys/fs/cgroup", 14) || !strcmp(n, "/proc/self/mountinfo") || !strcmp(n, "/proc/cpuinfo") || !strncmp(n, "/sys/devices/system/cpu", 23); }

HIDDEN int do_open(int dfd, const char *path, int flags, mode_t mode)
{
	char n[PATH_MAX * 2];
	if (!on() || !path || resolve(dfd, path, n)) return (int)ret_errno(RAW(SYS_openat, dfd, path, flags, mode));
	int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
	if ((flags & O_TMPFILE) == O_TMPFILE) w = 1;
	if (!in_root(n)) {
		if (cgroupish(n)) { errno = ENOENT; return -1; }
		if (w && escape("open", n)) { errno = EACCES; return -1; }
		if (!strcmp(n, "/dev/urandom") || !strcmp(n, "/dev/random")) { errno = ENOENT; return -1; }
		return (int)ret_errno(RAW(SYS_openat, dfd, path, flags, mode));
	}
	peer_point(0);
	/* directories and missing files opened for reading are not faulted */
	int isdir = !!(flags & O_DIRECTORY);
	int cl = w ? CL_DATA : CL_READ, op = w ? OP_OPENW : OP_OPENR, err, k = -1;
	size_t part;
	long r;
	int present = w || RAW(SYS_access, n, F_OK) == 0;
	if (!isdir && present) k = fault_for(cl, op, 0, &err, &part);
	if (k == FK_ERR) r = -err;
	else {
		r = RAW(SYS_openat, dfd, path, flags, mode);
		if (r >= 0 && r < MAXFD) {
			fdcl[r] = w ? 1 : 2;
			snprintf(fdpath[r], sizeof fdpath[r], "%s", rel(n));
		}
		if (w) H->mutations++;
		if (w && r >= 0) peer_rec("O %ld %d %s\n", r, flags, rel(n));
	}
	ev(w ? "openw" : "openr", rel(n), flags & (O_TRUNC | O_APPEND | O_EXCL | O_CREAT), r < 0 ? r : 0);
	if (w && (P.logfull || 1)) logs("mut open%s %s %ld\n", flags & O_TRUNC ? "+trunc" : flags & O_APPEND ? "+append" : flags & O_EXCL ? "+excl" : "", rel(n), r < 0 ? r : 0);
	if (w) logs("opened %lu\n", cl_count[CL_DATA]);
	post_event();
	return (int)ret_errno(r);
}
#define MODE(fl) mode_t mode = 0; if ((fl) & O_CREAT || ((fl) & O_TMPFILE) == O_TMPFILE) { va_list ap; va_start(ap, fl); mode = va_arg(ap, mode_t); va_end(ap); }
EXPORT int open(const char *p, int fl, ...) { MODE(fl) return do_open(AT_FDCWD, p, fl, mode); }
EXPORT int open64(const char *p, int fl, ...) { MODE(fl) return do_open(AT_FDCWD, p, fl | O_LARGEFILE, mode); }
EXPORT int openat(int d, const char *p, int fl, ...) { MODE(fl) return do_open(d, p, fl, mode); }
EXPORT int openat64(int d, const char *p, int fl, ...) { MODE(fl) return do_open(d, p, fl | O_LARGEFILE, mode); }
EXPORT int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return creat(p, m); }

HIDDEN int fd_class(int fd)
{
	if (fd == 1) return CL_OUT;
	if (fd == 2) return CL_DIAG;
	if (fd >= 0 && fd < MAXFD) { if (fdcl[fd] == 1) return CL_DATA; if (fdcl[fd] == 2) return CL_READ; if (fdcl[fd] == 3) return CL_DIAG; }
	return -1;
}
HIDDEN const char *fd_name(int fd) { return fd == 1 ? "<out>" : fd == 2 ? "<err>" : fd < MAXFD ? fdpath[fd] : "?"; }

HIDDEN long do_writev(int fd, const struct iovec *v, int n, off_t off, int pos)
{
	int cl = on() ? fd_class(fd) : -1;
	if (cl != CL_DATA && cl != CL_DIAG && cl != CL_OUT) return pos ? RAW(SYS_pwritev, fd, v, n, off, 0) : RAW(SYS_writev, fd, v, n);
	size_t len = 0;
	for (int i = 0; i < n; i++) len += v[i].iov_len;
	int err;
	size_t part = 0;
	if (cl == CL_DATA) peer_point(0);
	int k = fault_for(cl, OP_WRITE, len, &err, &part);
	long r;
	if (k == FK_ERR) r = -err;
	else if (k == FK_ZERO) r = len ? 0 : 0;
	else if (k == FK_SHORT || k == FK_TORN || k == FK_CRASH_MID) {
		struct iovec w[64];
		int m = 0;
		size_t left = part;
		for (int i = 0; i < n && left && m < 64; i++) {
			w[m].iov_base = v[i].iov_base;
			w[m].iov_len = v[i].iov_len < left ? v[i].iov_len : left;
			left -= w[m].iov_len;
			m++;
		}
		r = pos ? RAW(SYS_pwritev, fd, w, m, off, 0) : RAW(SYS_writev, fd, w, m);
		if (k == FK_CRASH_MID) { H->crash_fired++; logs("crash mid write\n"); die(3, 137); }
		if (k == FK_TORN) disk_full = cl == CL_DATA; /* short now, full from here on */
	} else
		r = pos ? RAW(SYS_pwritev, fd, v, n, off, 0) : RAW(SYS_writev, fd, v, n);
	/* diagnostics may name the scratch directory: only their length counts */
	if (cl == CL_DATA) for (int i = 0; i < n; i++) hmix(hbytes(v[i].iov_base, v[i].iov_len));
	if (cl == CL_DATA) { H->mutations++; }
	if (cl == CL_DATA && peer_log >= 0 && r > 0) {
		peer_rec("W %d %ld %ld\n", fd, pos ? (long)off : -1l, r);
		long left = r;
		for (int i = 0; i < n && left > 0; i++) {
			long m = (long)v[i].iov_len < left ? (long)v[i].iov_len : left;
			RAW(SYS_write, peer_log, v[i].iov_base, m);
			left -= m;
		}
	}
	ev("write", fd_name(fd), (long)len, r);
	post_event();
	return r;
}
EXPORT ssize_t write(int fd, const void *b, size_t n)
{
	if (!on() || fd_class(fd) < 0) return ret_errno(RAW(SYS_write, fd, b, n));
	struct iovec v = {(void *)b, n};
	return ret_errno(do_writev(fd, &v, 1, 0, 0));
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int n) { return ret_errno(do_writev(fd, v, n, 0, 0)); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
	if (!on() || fd_class(fd) < 0) return ret_errno(RAW(SYS_pwrite64, fd, b, n, o));
	struct iovec v = {(void *)b, n};
	return ret_errno(do_writev(fd, &v, 1, o, 1));
}
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }

EXPORT ssize_t read(int fd, void *b, size_t n)
{
	if (!on() || fd < 3 || fd_class(fd) < 0) return ret_errno(RAW(SYS_read, fd, b, n));
	int err;
	size_t part = 0;
	peer_point(0);
	int k = fault_for(CL_READ, OP_READ, n, &err, &part);
	long r;
	if (k == FK_ERR) r = -err;
	else if (k == FK_SHORT) r = RAW(SYS_read, fd, b, part);
	else r = RAW(SYS_read, fd, b, n);
	ev("read", fd_name(fd), (long)n, r);
	post_event();
	return ret_errno(r);
}
EXPORT int close(int fd)
{
	int cl = on() ? (fd > 2 ? fd_class(fd) : -1) : -1;
	if (cl < 0) { if (fd >= 0 && fd < MAXFD) fdcl[fd] = 0; return (int)ret_errno(RAW(SYS_close, fd)); }
	int err = 0, k = -1;
	size_t part;
	if (cl == CL_DATA) { peer_point(0); k = fault_for(cl, OP_CLOSE, 0, &err, &part); peer_rec("C %d\n", fd); }
	long r = RAW(SYS_close, fd);
	ev("close", fd_name(fd), 0, r);
	fdcl[fd] = 0;
	if (k == FK_ERR) r = -err;
	post_event();
	return (int)ret_errno(r);
}
HIDDEN int do_sync(int fd, long nr)
{
	int cl = on() ? fd_class(fd) : -1;
	if (cl != CL_DATA) return (int)ret_errno(RAW(nr, fd));
	int err;
	size_t part;
	int k = fault_for(CL_DATA, OP_SYNC, 0, &err, &part);
	logs("syncop %lu\n", cl_count[CL_DATA]);
	long r = k == FK_ERR ? -err : 0;
	ev("sync", fd_name(fd), 0, r);
	post_event();
	return (int)ret_errno(r);
}
EXPORT int fsync(int fd) { return do_sync(fd, SYS_fsync); }
EXPORT int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

/* path-mutating calls: seam, confinement and faults in one place */
HIDDEN long mutate(const char *what, int op, int dfd, const char *p, int d2, const char *p2, long (*call)(void *), void *ctx)
{
	char n[PATH_MAX * 2], n2[PATH_MAX * 2];
	if (!on() || !p || resolve(dfd, p, n)) return call(ctx);
	if (!in_root(n) && escape(what, n)) return -EACCES;
	if (p2) {
		if (resolve(d2, p2, n2)) return call(ctx);
		if (!in_root(n2) && escape(what, n2)) return -EACCES;
	}
	if (!in_root(n)) return call(ctx);
	peer_point(op == OP_META);
	int err, k;
	size_t part;
	if (op == OP_MKDIR && RAW(SYS_access, n, F_OK) == 0) k = -1; /* EEXIST anyway */
	else k = fault_for(CL_DATA, op, 0, &err, &part);
	if (op == OP_META) logs("metaop %lu\n", cl_count[CL_DATA]);
	long r = k == FK_ERR ? -err : call(ctx);
	H->mutations++;
	ev(what, rel(n), 0, r);
	if (r >= 0) peer_rec("M %s\t%s%s%s\n", what, rel(n), p2 ? "\t" : "", p2 ? rel(n2) : "");
	if (r >= 0) logs("mut %s %s %s\n", what, rel(n), p2 ? rel(n2) : "");
	post_event();
	return r;
}
struct c6 { long nr, a, b, c, d, e; };
#pragma GCC diagnostic ignored "-Wmissing-field-initializers"
HIDDEN long call6(void *x) { struct c6 *q = x; return raw6(q->nr, q->a, q->b, q->c, q->d, q->e, 0); }
#define MUT1(what, op, dfd, p, NR, ...) do { struct c6 q = {NR, __VA_ARGS__}; return (int)ret_errno(mutate(what, op, dfd, p, 0, 0, call6, &q)); } while (0)
#define MUT2(what, op, dfd, p, d2, p2, NR, ...) do { struct c6 q = {NR, __VA_ARGS__}; return (int)ret_errno(mutate(what, op, dfd, p, d2, p2, call6, &q)); } while (0)
EXPORT int mkdir(const char *p, mode_t m) { MUT1("mkdir", OP_MKDIR, AT_FDCWD, p, SYS_mkdir, (long)p, m); }
EXPORT int mkdirat(int d, const char *p, mode_t m) { MUT1("mkdir", OP_MKDIR, d, p, SYS_mkdirat, d, (long)p, m); }
EXPORT int unlink(const char *p) { MUT1("unlink", OP_META, AT_FDCWD, p, SYS_unlink, (long)p); }
EXPORT int unlinkat(int d, const char *p, int f) { MUT1("unlink", OP_META, d, p, SYS_unlinkat, d, (long)p, f); }
EXPORT int rmdir(const char *p) { MUT1("rmdir", OP_META, AT_FDCWD, p, SYS_rmdir, (long)p); }
EXPORT int remove(const char *p) { if (!on()) { long r = RAW(SYS_unlink, p); if (r == -EISDIR) r = RAW(SYS_rmdir, p); return (int)ret_errno(r); } int r = unlink(p); if (r < 0 && errno == EISDIR) r = rmdir(p); return r; }
EXPORT int rename(const char *a, const char *b) { MUT2("rename", OP_META, AT_FDCWD, a, AT_FDCWD, b, SYS_rename, (long)a, (long)b); }
EXPORT int renameat(int d, const char *a, int e, const char *b) { MUT2("rename", OP_META, d, a, e, b, SYS_renameat, d, (long)a, e, (long)b); }
EXPORT int renameat2(int d, const char *a, int e, const char *b, unsigned f) { MUT2("rename", OP_META, d, a, e, b, SYS_renameat2, d, (long)a, e, (long)b, f); }
EXPORT int link(const char *a, const char *b) { MUT2("link", OP_META, AT_FDCWD, a, AT_FDCWD, b, SYS_link, (long)a, (long)b); }
EXPORT int linkat(int d, const char *a, int e, const char *b, int f) { MUT2("link", OP_META, d, a, e, b, SYS_linkat, d, (long)a, e, (long)b, f); }
EXPORT int symlink(const char *a, const char *b) { MUT1("symlink", OP_META, AT_FDCWD, b, SYS_symlink, (long)a, (long)b); }
EXPORT int symlinkat(const char *a, int d, const char *b) { MUT1("symlink", OP_META, d, b, SYS_symlinkat, (long)a, d, (long)b); }
EXPORT int chmod(const char *p, mode_t m) { MUT1("chmod", OP_META, AT_FDCWD, p, SYS_chmod, (long)p, m); }
EXPORT int fchmodat(int d, const char *p, mode_t m, int f) { (void)f; MUT1("chmod", OP_META, d, p, SYS_fchmodat, d, (long)p, m); }
EXPORT int truncate(const char *p, off_t l) { MUT1("truncate", OP_META, AT_FDCWD, p, SYS_truncate, (long)p, l); }
EXPORT int truncate64(const char *p, off_t l) { return truncate(p, l); }
EXPORT int utimensat(int d, const char *p, const struct timespec *t, int f) { MUT1("utimens", OP_META, d, p, SYS_utimensat, d, (long)p, (long)t, f); }
EXPORT int ftruncate(int fd, off_t l)
{
	int cl = on() ? fd_class(fd) : -1;
	if (cl == CL_DATA) {
		int err; size_t part;
		int k = fault_for(CL_DATA, OP_META, 0, &err, &part);
		logs("metaop %lu\n", cl_count[CL_DATA]);
		long r = k == FK_ERR ? -err : RAW(SYS_ftruncate, fd, l);
		if (r >= 0) peer_rec("T %d %ld\n", fd, (long)l);
		ev("ftruncate", fd_name(fd), l, r);
		post_event();
		return (int)ret_errno(r);
	}
	return (int)ret_errno(RAW(SYS_ftruncate, fd, l));
}
EXPORT int ftruncate64(int fd, off_t l) { return ftruncate(fd, l); }
EXPORT ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) { (void)a; (void)ao; (void)b; (void)bo; (void)n; (void)f; if (!on()) return ret_errno(RAW(SYS_copy_file_range, a, ao, b, bo, n, f)); errno = EXDEV; return -1; }
EXPORT ssize_t sendfile(int o, int i, off_t *off, size_t n) { if (!on()) return ret_errno(RAW(SYS_sendfile, o, i, off, n)); errno = EINVAL; return -1; }
EXPORT ssize_t sendfile64(int o, int i, off_t *off, size_t n) { return sendfile(o, i, off, n); }
EXPORT int dup2(int a, int b) { long r = RAW(SYS_dup2, a, b); if (r >= 0 && a < MAXFD && b < MAXFD && a >= 0 && b >= 0) { fdcl[b] = a == 1 || a == 2 ? 3 : fdcl[a]; memcpy(fdpath[b], fdpath[a], sizeof fdpath[b]); } return (int)ret_errno(r); }
EXPORT pid_t fork(void) { if (!on()) { static pid_t (*f)(void); if (!f) f = (pid_t(*)(void))dlsym(RTLD_NEXT, "fork"); return f(); } logs("fork refused\n"); errno = EAGAIN; return -1; }

/* ------------------------------------------------------------------ memory */
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern char __executable_start[] __attribute__((visibility("hidden"))), etext[] __attribute__((visibility("hidden")));
HIDDEN int mem_armed;
HIDDEN int mem_fault(void *ra, size_t n)
{
	if (__builtin_expect(!mem_armed, 1)) return 0;
	if (!on() || (char *)ra < __executable_start || (char *)ra >= etext) return 0;
	int err;
	size_t part;
	int k = fault_for(CL_MEM, OP_ALLOC, n, &err, &part);
	return k == FK_ERR;
}
EXPORT void *malloc(size_t n) { if (mem_fault(__builtin_return_address(0), n)) { errno = ENOMEM; return 0; } return __libc_malloc(n); }
EXPORT void *calloc(size_t a, size_t b) { if (mem_fault(__builtin_return_address(0), a * b)) { errno = ENOMEM; return 0; } return __libc_calloc(a, b); }
EXPORT void *realloc(void *p, size_t n) { if (mem_fault(__builtin_return_address(0), n)) { errno = ENOMEM; return 0; } return __libc_realloc(p, n); }
EXPORT int posix_memalign(void **o, size_t al, size_t n)
{
	if (mem_fault(__builtin_return_address(0), n)) return ENOMEM;
	void *p = __libc_memalign(al, n);
	if (!p) return ENOMEM;
	*o = p;
	return 0;
}

/* ------------------------------------------------------------------ harness api */
/* called by library harnesses; weak there so that they also link without us */
EXPORT void sim_mark(u64 a, u64 b) { hmix(hash3(a, b, me ? me->id : 99)); if (P.logfull) logs("mark t%d %lu %lu\n", me ? me->id : -1, a, b); }
/* one line of the recorded history; survives a crash of the process */
EXPORT void sim_emit(const char *p, size_t n)
{
	if (!logbuf) return;
	u64 h = 14695981039346656037ull;
	for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)p[i]) * 1099511628211ull;
	hmix(h);
	if (H->loglen + n + 1 >= logcap) { H->dropped++; return; }
	memcpy(logbuf + H->loglen, p, n);
	logbuf[H->loglen + n] = '\n';
	H->loglen += n + 1;
}
EXPORT u64 sim_now(void) { return now_tick(); }
EXPORT void sim_pause(int paused) { if (!H->magic) return; active = !paused; if (active) plan_next(); }

/* ------------------------------------------------------------------ init */
extern void set_default_tol_integral(double) __attribute__((weak));
extern void set_default_max_iter_integral(u32) __attribute__((weak));

HIDDEN int lookup(const char **names, int n, const char *s)
{
	if (!strcmp(s, "*")) return -1;
	for (int i = 0; i < n; i++) if (!strcmp(names[i], s)) return i;
	return -2;
}
HIDDEN char *slurp(const char *p, size_t *n)
{
	int fd = (int)RAW(SYS_openat, AT_FDCWD, p, O_RDONLY, 0);
	if (fd < 0) return 0;
	struct stat st;
	RAW(SYS_fstat, fd, &st);
	char *b = mmap(0, st.st_size + 4097, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	size_t o = 0;
	for (;;) {
		long r = RAW(SYS_read, fd, b + o, st.st_size - o);
		if (r <= 0) break;
		o += r;
	}
	RAW(SYS_close, fd);
	*n = o;
	return b;
}
HIDDEN void bad(const char *m)
{
	RAW(SYS_write, 2, "simrt: ", 7);
	RAW(SYS_write, 2, m, strlen(m));
	RAW(SYS_write, 2, "\n", 1);
	RAW(SYS_exit_group, 99);
}
HIDDEN void fatal_sig(int s)
{
	active = 0;
	logs("signal %d\n", s);
	finish(2);
	H->exitcode = 128 + s;
	signal(s, SIG_DFL);
	raise(s);
}
HIDDEN void at_end(void) { if (active) { H->ticks = now_tick(); finish(1); active = 0; } }
EXPORT void _exit(int c)
{
	if (active) { H->ticks = now_tick(); finish(1); active = 0; }
	for (;;) RAW(SYS_exit_group, c);
}

__attribute__((constructor)) static void init(void)
{
	H = &hdr_dummy;
	const char *pf = getenv("SIM_PLAN");
	if (!pf) return;
	size_t n = 0;
	char *b = slurp(pf, &n);
	if (!b) bad("cannot read plan");
	P.maxtick = 2000000000ull;
	P.ncpu = 2;
	P.policy = POL_UNIFORM;
	P.stall_len = 20000;
	P.pct_est = 1000000;
	P.pct_d = 3;
	P.maxrate = 1000000;
	u64 lines = 0;
	for (size_t i = 0; i < n; i++) lines += b[i] == '\n';
	sw_list = mmap(0, (lines + 1) * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	pa_list = mmap(0, (lines + 1) * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	ch_list = mmap(0, (lines + 1) * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	char *sv, *ln = strtok_r(b, "\n", &sv);
	for (; ln; ln = strtok_r(0, "\n", &sv)) {
		char k[32], v[PATH_MAX];
		if (ln[0] == '#' || sscanf(ln, "%31s %4095[^\n]", k, v) < 2) continue;
		if (!strcmp(k, "seed")) P.seed = strtoull(v, 0, 10);
		else if (!strcmp(k, "mode")) P.explicit_ = !strcmp(v, "explicit");
		else if (!strcmp(k, "gap")) P.gap = atof(v);
		else if (!strcmp(k, "hotp")) P.hotp = atof(v);
		else if (!strcmp(k, "wakep")) P.wakep = atof(v);
		else if (!strcmp(k, "spurp")) P.spurp = atof(v);
		else if (!strcmp(k, "stallp")) P.stallp = atof(v);
		else if (!strcmp(k, "stalllen")) P.stall_len = strtoull(v, 0, 10);
		else if (!strcmp(k, "policy")) P.policy = !strcmp(v, "uniform") ? POL_UNIFORM : !strcmp(v, "pct") ? POL_PCT : !strcmp(v, "rr") ? POL_RR : POL_NONE;
		else if (!strcmp(k, "pctd")) P.pct_d = atoi(v) > 16 ? 16 : atoi(v);
		else if (!strcmp(k, "pctest")) P.pct_est = strtoull(v, 0, 10);
		else if (!strcmp(k, "ncpu")) P.ncpu = atoi(v);
		else if (!strcmp(k, "clockjump")) P.clockjump = atoi(v);
		else if (!strcmp(k, "logfull")) P.logfull = atoi(v);
		else if (!strcmp(k, "maxtick")) P.maxtick = strtoull(v, 0, 10);
		else if (!strcmp(k, "maxrate")) P.maxrate = strtoull(v, 0, 10);
		else if (!strcmp(k, "crashtick")) P.crash_tick = strtoull(v, 0, 10);
		else if (!strcmp(k, "tol")) P.tol = atof(v);
		else if (!strcmp(k, "maxiter")) P.maxiter = atoi(v);
		else if (!strcmp(k, "root")) snprintf(P.root, sizeof P.root, "%s", v);
		else if (!strcmp(k, "log")) snprintf(P.logpath, sizeof P.logpath, "%s", v);
		else if (!strcmp(k, "peerlog")) snprintf(P.peerlog, sizeof P.peerlog, "%s", v);
		else if (!strcmp(k, "peer")) { peer_b = slurp(v, &peer_n); if (!peer_b) bad("cannot read peer"); }
		else if (!strcmp(k, "peerp")) P.peerp = atof(v);
		else if (!strcmp(k, "peermeta")) P.peermeta = atof(v);
		else if (!strcmp(k, "peerhold")) P.peerhold = atof(v);
		else if (!strcmp(k, "peerburst")) P.peerburst = atoi(v);
		else if (!strcmp(k, "peerfrom")) P.peerfrom = strtoull(v, 0, 10);
		else if (!strcmp(k, "peermax")) P.peermax = strtoull(v, 0, 10);
		else if (!strcmp(k, "peerat")) { unsigned long t; unsigned x; if (sscanf(v, "%lu %u", &t, &x) == 2) pa_list[npa_list++] = (Ent){t, x}; }
		else if (!strcmp(k, "sw")) { unsigned long t; unsigned x; if (sscanf(v, "%lu %u", &t, &x) == 2) sw_list[nsw_list++] = (Ent){t, x}; }
		else if (!strcmp(k, "ch")) { unsigned long t; unsigned x; if (sscanf(v, "%lu %u", &t, &x) == 2) ch_list[nch_list++] = (Ent){t, x}; }
		else if (!strcmp(k, "fault") || !strcmp(k, "rate")) {
			char c[16], o[16], f[16], at[32];
			int e = 0;
			if (sscanf(v, "%15s %15s %15s %31s %d", c, o, f, at, &e) < 4) bad("bad fault line");
			int cl = lookup(cl_name, CL_N, c), op = lookup(op_name, OP_N, o), fk = lookup(fk_name, FK_N, f);
			if (cl < 0 || op < -1 || fk < 0) bad("bad fault name");
			if (cl == CL_MEM) mem_armed = 1;
			if (k[0] == 'f') { if (nfaults < MAXF) faults[nfaults++] = (Fault){cl, op, fk, e, strtoull(at, 0, 10), 0}; }
			else if (nrates < MAXR) rates[nrates++] = (Rate){cl, op, fk, e, atof(at)};
		} else bad(k);
	}
	root_len = strlen(P.root);
	if (P.logpath[0]) {
		int fd = (int)RAW(SYS_openat, AT_FDCWD, P.logpath, O_RDWR | O_CREAT | O_TRUNC, 0644);
		if (fd < 0) bad("cannot create log");
		RAW(SYS_ftruncate, fd, LOGSZ);
		char *m = mmap(0, LOGSZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (m == MAP_FAILED) bad("cannot map log");
		RAW(SYS_close, fd);
		H = (Hdr *)m;
		logbuf = m + 4096;
		logcap = LOGSZ - 4096;
	}
	if (P.peerlog[0]) peer_log = (int)RAW(SYS_openat, AT_FDCWD, P.peerlog, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0644);
	H->magic = 0x53494d5254ull;
	rs.s = mix64(P.seed);
	rr.s = mix64(P.seed ^ 0x72616e64);
	for (int i = 0; i < P.pct_d && i < 16; i++) pct_points[i] = 1 + hash3(P.seed, 0x9c7, i) % P.pct_est;
	hot_lo = __data_start;
	hot_hi = _end;
	real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
	real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
	R_pthread_mutex_lock(); R_pthread_mutex_unlock(); R_pthread_mutex_trylock();
	R_pthread_cond_wait(); R_pthread_cond_timedwait(); R_pthread_cond_signal(); R_pthread_cond_broadcast();
	R_sem_wait(); R_sem_post(); R_sem_trywait(); R_sem_timedwait(); R_pthread_cond_clockwait(); R_sem_clockwait();
	pthread_key_create(&tkey, key_dtor);
	me = cur = &th[0];
	th[0].id = 0;
	th[0].wake = -1;
	th[0].pt = pthread_self();
	th[0].prio = (1ull << 32) + (hash3(P.seed, 5, 0) & 0xffffff);
	nth = 1;
	if (P.tol > 0 && set_default_tol_integral) set_default_tol_integral(P.tol);
	if (P.maxiter > 0 && set_default_max_iter_integral) set_default_max_iter_integral(P.maxiter);
	struct sigaction sa = {.sa_handler = fatal_sig};
	sigaction(SIGABRT, &sa, 0);
	sigaction(SIGILL, &sa, 0);
	sigaction(SIGTRAP, &sa, 0);
	sigaction(SIGFPE, &sa, 0);
	atexit(at_end);
	inited = 1;
	active = 1;
	tick_base = 0;
	interval = countdown = 1;
	draw_next_pre();
	draw_hot();
	plan_next();
}
