//! Library workload for the simulator: runs a scenario of threads which evaluate
//! qcd-sme functions, change its settings, edit field configurations and search
//! roots, and emits the history.  All scheduling is done by simrt underneath.
//!
//!   libsim SCENARIO          run one scenario under SIM_PLAN
//!   libsim --ref < BLOCKS    run each block in a pristine forked process
//!   libsim --list            list the function table
use qcd_sme::consts::*;
use qcd_sme::qcd::FieldConfig;
use qcd_sme::{Integral, Num, C, R};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, RwLock};

mod num_p;
#[cfg(feature = "full_ops")]
mod ops;
#[cfg(not(feature = "full_ops"))]
mod ops {
    include!(env!("SIM_OPS_FILE"));
}
mod ops_util;
use num_p::P;

extern "C" {
    fn sim_emit(p: *const u8, n: usize);
    fn sim_now() -> u64;
    fn sim_pause(p: i32);
}

static REF: AtomicBool = AtomicBool::new(false);

fn now() -> u64 {
    unsafe { sim_now() }
}
fn emit(s: &str) {
    if REF.load(Ordering::Relaxed) {
        let mut l = s.to_string();
        l.push('\n');
        std::io::stdout().write_all(l.as_bytes()).unwrap();
    } else {
        unsafe { sim_emit(s.as_ptr(), s.len()) }
    }
}

pub enum V {
    R(R),
    C(C),
    P(P),
    O(Option<R>),
}

pub struct Args<'a> {
    v: &'a [R],
    int: Integral,
    cfg: Option<&'a FieldConfig>,
}
impl Args<'_> {
    pub fn r(&self, i: usize) -> R {
        self.v[i]
    }
    pub fn u(&self, i: usize) -> u32 {
        self.v[i] as u32
    }
    pub fn c(&self, i: usize) -> C {
        C { re: self.v[i], im: self.v[i + 1] }
    }
    pub fn p(&self, i: usize) -> P {
        P(self.v[i])
    }
    pub fn i(&self) -> Integral {
        self.int
    }
    pub fn f(&self) -> &FieldConfig {
        self.cfg.unwrap()
    }
}

pub struct Op {
    pub name: &'static str,
    pub kinds: &'static str,
    pub args: &'static str,
    pub ret: char,
    pub f: fn(&Args) -> V,
}

fn all_ops() -> impl Iterator<Item = &'static Op> {
    ops::OPS.iter().chain(ops_util::OPS.iter())
}

fn show(v: &V) -> String {
    match v {
        V::R(x) => format!("R {:x}", x.to_bits()),
        V::P(x) => format!("R {:x}", x.0.to_bits()),
        V::C(z) => format!("C {:x} {:x}", z.re.to_bits(), z.im.to_bits()),
        V::O(None) => "N".into(),
        V::O(Some(x)) => format!("S {:x}", x.to_bits()),
    }
}

#[derive(Clone, Debug)]
enum Inj {
    Nan,
    NanIm,
    Inf,
    NInf,
    InfIm,
    Panic,
    Zero,
    Tiny,
    AtTol,
    Denorm,
    Huge,
    ReTiny,
    Prev,
    Nest,
    Neg,
}

#[derive(Clone, Debug)]
struct RootSpec {
    complex: bool,
    fid: u32,
    g: [R; 4],
    tol: R,
    max_iter: usize,
    par: Vec<R>,
    inj: Vec<(usize, Inj)>,
    id: u64,
}

enum Step {
    Eval { op: &'static Op, args: Vec<R>, int: Integral, slot: usize, fuse: i64, catch: bool },
    Set(u8, R),
    /// Many calls of one setter, taking the values in turn.
    Sets(u8, usize, Vec<R>),
    BadSet(u8, R),
    Get(u8),
    Read(usize),
    CfgNew(usize, u32, R, Vec<(u32, R)>),
    CfgClone(usize, usize),
    CfgDrop(usize),
    EdNc(usize, u32),
    EdGluon(usize, R),
    EdPush(usize, u32, R),
    EdPop(usize),
    EdQuark(usize, usize, u32, R),
    EdSwap(usize, usize, usize),
    EdReplace(usize, Vec<(u32, R)>),
    EdMove(usize, usize),
    Signal(usize),
    Wait(usize),
    Yield,
    Root(RootSpec),
    /// One of the numerical helpers: residue (given eps, fixed eps), spectral function (ditto).
    Calc(u32, RootSpec),
}

type Tok<'a> = std::str::SplitWhitespace<'a>;
fn tu(t: &mut Tok) -> u64 {
    t.next().expect("token").parse().expect("int")
}
fn ti(t: &mut Tok) -> i64 {
    t.next().expect("token").parse().expect("int")
}
fn tr(t: &mut Tok) -> R {
    R::from_bits(u64::from_str_radix(t.next().expect("token"), 16).expect("hex"))
}
fn quarks(t: &mut Tok) -> Vec<(u32, R)> {
    let n = tu(t);
    (0..n).map(|_| (tu(t) as u32, tr(t))).collect()
}

fn integral(t: &mut Tok) -> Integral {
    let k = tu(t);
    let tol = tr(t);
    let it = tu(t) as u32;
    match k {
        0 => Integral::G7K15(tol, it),
        1 => Integral::G10K21(tol, it),
        2 => Integral::G15K31(tol, it),
        3 => Integral::G20K41(tol, it),
        4 => Integral::G7K15R(tol, it),
        5 => Integral::G30K61R(tol, it),
        6 => Integral::GaussLegendre(it as usize),
        _ => Integral::NewtonCotes(it as usize),
    }
}

fn parse_step(l: &str, table: &[&'static Op]) -> Step {
    let mut tk = l.split_whitespace();
    let t = &mut tk;
    match t.next().unwrap() {
        k @ ("e" | "ex") => {
            let slot = ti(t);
            let int = integral(t);
            let fuse = ti(t);
            let op = table[tu(t) as usize];
            let args = t.map(|x| R::from_bits(u64::from_str_radix(x, 16).unwrap())).collect();
            Step::Eval { op, args, int, slot: slot as usize, fuse, catch: k == "e" }
        }
        "set" => Step::Set(tu(t) as u8, tr(t)),
        "sets" => {
            let (k, n, nv) = (tu(t) as u8, tu(t) as usize, tu(t));
            Step::Sets(k, n, (0..nv).map(|_| tr(t)).collect())
        }
        "bad" => Step::BadSet(tu(t) as u8, tr(t)),
        "get" => Step::Get(tu(t) as u8),
        "rd" => Step::Read(tu(t) as usize),
        "cn" => Step::CfgNew(tu(t) as usize, tu(t) as u32, tr(t), quarks(t)),
        "cc" => Step::CfgClone(tu(t) as usize, tu(t) as usize),
        "cd" => Step::CfgDrop(tu(t) as usize),
        "en" => Step::EdNc(tu(t) as usize, tu(t) as u32),
        "eg" => Step::EdGluon(tu(t) as usize, tr(t)),
        "ep" => Step::EdPush(tu(t) as usize, tu(t) as u32, tr(t)),
        "eo" => Step::EdPop(tu(t) as usize),
        "eq" => Step::EdQuark(tu(t) as usize, tu(t) as usize, tu(t) as u32, tr(t)),
        "es" => Step::EdSwap(tu(t) as usize, tu(t) as usize, tu(t) as usize),
        "er" => Step::EdReplace(tu(t) as usize, quarks(t)),
        "em" => Step::EdMove(tu(t) as usize, tu(t) as usize),
        "sig" => Step::Signal(tu(t) as usize),
        "wait" => Step::Wait(tu(t) as usize),
        "y" => Step::Yield,
        k @ ("root" | "calc") => {
            let what = if k == "calc" { Some(tu(t) as u32) } else { None };
            let complex = t.next() == Some("c");
            let fid = tu(t) as u32;
            let g = [tr(t), tr(t), tr(t), tr(t)];
            let tol = tr(t);
            let max_iter = tu(t) as usize;
            let np = tu(t);
            let par = (0..np).map(|_| tr(t)).collect();
            let ni = tu(t);
            let inj = (0..ni)
                .map(|_| {
                    let i = tu(t) as usize;
                    let k = match t.next().unwrap() {
                        "nan" => Inj::Nan,
                        "nanim" => Inj::NanIm,
                        "inf" => Inj::Inf,
                        "ninf" => Inj::NInf,
                        "infim" => Inj::InfIm,
                        "panic" => Inj::Panic,
                        "zero" => Inj::Zero,
                        "tiny" => Inj::Tiny,
                        "attol" => Inj::AtTol,
                        "denorm" => Inj::Denorm,
                        "huge" => Inj::Huge,
                        "retiny" => Inj::ReTiny,
                        "prev" => Inj::Prev,
                        "nest" => Inj::Nest,
                        "neg" => Inj::Neg,
                        x => panic!("inj {x}"),
                    };
                    (i, k)
                })
                .collect();
            let spec = RootSpec { complex, fid, g, tol, max_iter, par, inj, id: 0 };
            match what {
                Some(w) => Step::Calc(w, spec),
                None => Step::Root(spec),
            }
        }
        x => panic!("bad step {x}"),
    }
}

struct World {
    slots: Vec<RwLock<Option<FieldConfig>>>,
    sigs: Mutex<Vec<bool>>,
    cv: Condvar,
}

fn do_set(w: u8, v: R) {
    match w {
        0 => set_number_of_colors(v as u32),
        1 => set_number_of_fermions(v as u32),
        2 => set_default_quark_mass(v),
        3 => set_default_tol_integral(v),
        4 => set_default_max_iter_integral(v as u32),
        _ => set_matsubara_reg(v),
    }
}
fn do_get(w: u8) -> String {
    match w {
        0 => format!("U {}", get_number_of_colors()),
        1 => format!("U {}", get_number_of_fermions()),
        2 => format!("R {:x}", get_default_quark_mass().to_bits()),
        3 => format!("R {:x}", get_default_tol_integral().to_bits()),
        4 => format!("U {}", get_default_max_iter_integral()),
        5 => format!("R {:x}", get_matsubara_reg().to_bits()),
        _ => match get_default_integration_method() {
            Integral::G7K15(t, i) => format!("M {:x} {}", t.to_bits(), i),
            x => format!("M? {x:?}"),
        },
    }
}

struct InjPanic(u64);
static PANIC_ID: AtomicU64 = AtomicU64::new(1);

fn h(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
fn unit(x: u64) -> R {
    (h(x) >> 11) as R / (1u64 << 52) as R - 1.
}

trait RootNum: Num {
    fn mk(re: R, im: R) -> Self;
    fn lib(z: Self, f0: R) -> Self;
}
impl RootNum for R {
    fn mk(re: R, _im: R) -> R {
        re
    }
    fn lib(z: R, f0: R) -> R {
        qcd_sme::ym::gluon::dressing_inv_landau(z, f0)
    }
}
impl RootNum for C {
    fn mk(re: R, im: R) -> C {
        C { re, im }
    }
    fn lib(z: C, f0: R) -> C {
        qcd_sme::ym::gluon::dressing_inv_landau(z, f0)
    }
}

fn bits<T: Num>(v: &[T]) -> String {
    v.iter().map(|z| format!(" {:x} {:x}", z.re().to_bits(), z.im().to_bits())).collect()
}

fn root<T: RootNum>(s: &RootSpec) -> String {
    guarded(s, |f| match qcd_sme::utils::find_root(&|z| f(z), (T::mk(s.g[0], s.g[1]), T::mk(s.g[2], s.g[3])), s.tol, s.max_iter) {
        None => "none".to_string(),
        Some((z, v)) => format!("some{} {:x}", bits(&[z, v]), v.abs().to_bits()),
    })
}

fn residue<T: RootNum>(fixed: bool, s: &RootSpec) -> String {
    let z = T::mk(s.g[0], s.g[1]);
    guarded(s, |f| {
        let v: T = if fixed {
            qcd_sme::utils::compute_residue(&|z| f(z), z)
        } else {
            qcd_sme::utils::compute_residue_with_eps(&|z| f(z), z, s.tol)
        };
        format!("some{}", bits(&[v]))
    })
}

fn spectral(fixed: bool, s: &RootSpec) -> String {
    let z = C { re: s.g[0], im: s.g[1] };
    guarded(s, |f| {
        let v = if fixed {
            qcd_sme::utils::spectral_function(|z| f(z), z)
        } else {
            qcd_sme::utils::spectral_function_with_eps(|z| f(z), z, s.tol)
        };
        format!("some{}", bits(&[v]))
    })
}

/// Runs a numerical helper on a recorded function that may misbehave or panic.
fn guarded<T: RootNum>(s: &RootSpec, run: impl FnOnce(&dyn Fn(T) -> T) -> String) -> String {
    let n = Cell::new(0usize);
    let fired = Cell::new(false);
    let trace: RefCell<String> = RefCell::new(String::new());
    let prev = Cell::new(T::mk(1., 0.));
    let pid = PANIC_ID.fetch_add(1, Ordering::Relaxed) ^ s.id;
    let p = |i: usize| s.par.get(i).copied().unwrap_or(0.5);
    let f = |z: T| -> T {
        let i = n.get();
        n.set(i + 1);
        let mut v = match s.fid {
            0 => z * p(0) + p(1),
            1 => (z - p(0)) * (z - p(1)) * (z - p(2)),
            2 => T::mk(
                unit(s.par[0].to_bits() ^ (2 * i as u64)) * p(1),
                unit(s.par[0].to_bits() ^ (2 * i as u64 + 1)) * p(1),
            ),
            3 => T::lib(z, p(0)),
            4 => T::mk(p(0), p(1)),
            5 => (z * z + p(0)) * 1e-3,
            6 => (z * p(0)).exp() + p(1),
            8 => (z - p(0)).inv() * p(1) + p(2),
            _ => T::mk(if z.re() > p(0) { p(1) } else { p(2) }, z.im()),
        };
        for (k, inj) in &s.inj {
            if *k != i {
                continue;
            }
            match inj {
                Inj::Nan => v = T::mk(R::NAN, v.im()),
                Inj::NanIm => v = if s.complex { T::mk(v.re(), R::NAN) } else { T::mk(R::NAN, 0.) },
                Inj::Inf => v = T::mk(R::INFINITY, v.im()),
                Inj::NInf => v = T::mk(R::NEG_INFINITY, v.im()),
                Inj::InfIm => v = T::mk(v.re(), R::INFINITY),
                Inj::Panic => {
                    fired.set(true);
                    std::panic::panic_any(InjPanic(pid));
                }
                Inj::Zero => v = T::mk(0., 0.),
                Inj::Tiny => v = T::mk(s.tol * 0.875, 0.),
                Inj::AtTol => v = T::mk(s.tol, 0.),
                Inj::Denorm => v = T::mk(R::from_bits(3), 0.),
                Inj::Huge => v = T::mk(1e308, if s.complex { 1e308 } else { 0. }),
                Inj::ReTiny => v = T::mk(s.tol * 0.5, s.tol * 64.),
                Inj::Prev => v = prev.get(),
                Inj::Neg => v = -v,
                Inj::Nest => {
                    // the callback itself searches a root
                    let g = |x: T| x * 2. - 3.;
                    let r = qcd_sme::utils::find_root(&g, (T::mk(0.1, 0.), T::mk(0.4, 0.)), 1e-9, 20);
                    let _ = write!(trace.borrow_mut(), " nest {}", r.is_some());
                }
            }
        }
        prev.set(v);
        let _ = write!(
            trace.borrow_mut(),
            " {:x} {:x} {:x} {:x}",
            z.re().to_bits(),
            z.im().to_bits(),
            v.re().to_bits(),
            v.im().to_bits()
        );
        v
    };
    let r = catch_unwind(AssertUnwindSafe(|| run(&f)));
    let res = match r {
        Ok(x) => x,
        Err(e) => match e.downcast_ref::<InjPanic>() {
            Some(InjPanic(x)) if *x == pid && fired.get() => "panic-same".into(),
            Some(_) => "panic-other".into(),
            None => {
                if fired.get() {
                    "panic-replaced".into()
                } else {
                    "panic-own".into()
                }
            }
        },
    };
    format!("{} n {} fired {} tr{}", res, n.get(), fired.get() as u8, trace.borrow())
}

fn run_thread(tid: usize, steps: &[Step], w: &World) {
    for (i, s) in steps.iter().enumerate() {
        let t0 = now();
        match s {
            Step::Eval { op, args, int, slot, fuse, catch } => {
                let go = |cfg: Option<&FieldConfig>| {
                    num_p::set_fuse(*fuse);
                    let a = Args { v: args, int: *int, cfg };
                    let r = if *catch {
                        match catch_unwind(AssertUnwindSafe(|| (op.f)(&a))) {
                            Ok(v) => show(&v),
                            Err(_) => "PANIC".to_string(),
                        }
                    } else {
                        show(&(op.f)(&a))
                    };
                    num_p::set_fuse(-1);
                    r
                };
                let r = if op.kinds.contains('f') {
                    let g = w.slots[*slot].read().unwrap();
                    match g.as_ref() {
                        Some(c) => go(Some(c)),
                        None => "NOSLOT".into(),
                    }
                } else {
                    go(None)
                };
                let t1 = now();
                emit(&format!("o {tid} {i} {t0} {t1} {r}"));
            }
            Step::Set(k, v) => {
                do_set(*k, *v);
                emit(&format!("s {tid} {i} {t0} {}", now()));
            }
            Step::Sets(k, n, vs) => {
                for j in 0..*n {
                    do_set(*k, vs[j % vs.len()]);
                }
                emit(&format!("s {tid} {i} {t0} {}", now()));
            }
            Step::BadSet(k, v) => {
                emit(&format!("bad {tid} {i} {t0}"));
                do_set(*k, *v);
                emit(&format!("badret {tid} {i} {t0} {}", now()));
            }
            Step::Get(k) => {
                let r = do_get(*k);
                emit(&format!("o {tid} {i} {t0} {} {r}", now()));
            }
            Step::Read(n) => {
                let mut last = [0u64; 4];
                for j in 0..*n {
                    let (mt, mi) = match get_default_integration_method() {
                        Integral::G7K15(t, m) => (t, m),
                        _ => (R::NAN, 0),
                    };
                    let c = [
                        get_default_tol_integral().to_bits(),
                        get_matsubara_reg().to_bits(),
                        mt.to_bits(),
                        mi as u64,
                    ];
                    if c != last || j + 1 == *n {
                        last = c;
                        emit(&format!("rd {tid} {i} {} {:x} {:x} {:x} {}", now(), c[0], c[1], c[2], c[3]));
                    }
                }
            }
            Step::CfgNew(s, nc, g, q) => {
                *w.slots[*s].write().unwrap() = Some(FieldConfig::new(*nc, *g, q.clone()));
            }
            Step::CfgClone(d, s) => {
                let c = w.slots[*s].read().unwrap().clone();
                *w.slots[*d].write().unwrap() = c;
            }
            Step::CfgDrop(s) => *w.slots[*s].write().unwrap() = None,
            Step::EdNc(s, v) => w.slots[*s].write().unwrap().as_mut().unwrap().nc = *v,
            Step::EdGluon(s, v) => w.slots[*s].write().unwrap().as_mut().unwrap().gluon = *v,
            Step::EdPush(s, n, m) => {
                w.slots[*s].write().unwrap().as_mut().unwrap().quarks.push((*n, *m))
            }
            Step::EdPop(s) => {
                w.slots[*s].write().unwrap().as_mut().unwrap().quarks.pop();
            }
            Step::EdQuark(s, k, n, m) => {
                w.slots[*s].write().unwrap().as_mut().unwrap().quarks[*k] = (*n, *m)
            }
            Step::EdSwap(s, a, b) => {
                w.slots[*s].write().unwrap().as_mut().unwrap().quarks.swap(*a, *b)
            }
            Step::EdReplace(s, q) => {
                w.slots[*s].write().unwrap().as_mut().unwrap().quarks = q.clone()
            }
            // move the flavour list of b into a, leaving b without flavours
            Step::EdMove(a, b) => {
                let q = std::mem::take(&mut w.slots[*b].write().unwrap().as_mut().unwrap().quarks);
                w.slots[*a].write().unwrap().as_mut().unwrap().quarks = q;
            }
            Step::Signal(n) => {
                w.sigs.lock().unwrap()[*n] = true;
                w.cv.notify_all();
            }
            Step::Wait(n) => {
                let mut g = w.sigs.lock().unwrap();
                while !g[*n] {
                    g = w.cv.wait(g).unwrap();
                }
            }
            Step::Yield => std::thread::yield_now(),
            Step::Root(sp) => {
                let r = if sp.complex { root::<C>(sp) } else { root::<R>(sp) };
                emit(&format!("r {tid} {i} {t0} {} {r}", now()));
            }
            Step::Calc(k, sp) => {
                let r = match k {
                    0 | 1 if sp.complex => residue::<C>(*k == 1, sp),
                    0 | 1 => residue::<R>(*k == 1, sp),
                    _ => spectral(*k == 3, sp),
                };
                emit(&format!("r {tid} {i} {t0} {} {r}", now()));
            }
        }
    }
}

fn new_world(nslots: usize, nsigs: usize) -> World {
    World {
        slots: (0..nslots).map(|_| RwLock::new(None)).collect(),
        sigs: Mutex::new(vec![false; nsigs]),
        cv: Condvar::new(),
    }
}

fn ref_mode(table: &[&'static Op]) {
    REF.store(true, Ordering::Relaxed);
    let mut inp = String::new();
    std::io::stdin().read_to_string(&mut inp).unwrap();
    let mut block: Vec<Step> = vec![];
    for l in inp.lines() {
        if l == "end" {
            let pid = unsafe { fork() };
            if pid == 0 {
                // a block that does not return counts as not evaluable
                unsafe { alarm(2) };
                let w = new_world(16, 1);
                run_thread(0, &block, &w);
                unsafe { _exit(0) };
            }
            let mut st = 0i32;
            unsafe { waitpid(pid, &mut st, 0) };
            println!("done {st}");
            block.clear();
        } else {
            block.push(parse_step(l, table));
        }
    }
}

extern "C" {
    fn fork() -> i32;
    fn alarm(s: u32) -> u32;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}

fn main() {
    unsafe { sim_pause(1) };
    let table: Vec<&'static Op> = all_ops().collect();
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    if a[1] == "--list" {
        for (i, o) in table.iter().enumerate() {
            println!("{i} {} {} {} {}", o.name, o.kinds, o.args, o.ret);
        }
        return;
    }
    if a[1] == "--ref" {
        return ref_mode(&table);
    }
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let mut threads: Vec<Vec<Step>> = vec![];
    let (mut nslots, mut nsigs) = (0, 0);
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("slots ") {
            nslots = x.parse().unwrap();
        } else if let Some(x) = l.strip_prefix("sigs ") {
            nsigs = x.parse().unwrap();
        } else if l == "thread" {
            threads.push(vec![]);
        } else if !l.is_empty() && !l.starts_with('#') {
            threads.last_mut().unwrap().push(parse_step(l, &table));
        }
    }
    for t in threads.iter_mut() {
        t.shrink_to_fit();
    }
    let world = Arc::new(new_world(nslots, nsigs));
    unsafe { sim_pause(0) };
    // thread 0 is the main thread
    let mut it = threads.into_iter();
    let first = it.next().unwrap_or_default();
    let hs: Vec<_> = it
        .enumerate()
        .map(|(k, st)| {
            let w = world.clone();
            std::thread::spawn(move || run_thread(k + 1, &st, &w))
        })
        .collect();
    let main_ok = catch_unwind(AssertUnwindSafe(|| run_thread(0, &first, &world))).is_ok();
    if !main_ok {
        emit("died 0");
    }
    for (k, h) in hs.into_iter().enumerate() {
        if h.join().is_err() {
            emit(&format!("died {}", k + 1));
        }
    }
    emit("end");
}
