//! Symbolic execution of LLVM IR.
use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ext {
    None,
    Nop, Memcpy, Memset, Fshl, Fshr, UMax, UMin, SMax, SMin, Ctpop, Cttz, Ctlz, Ovf(O3, bool), USubSat, UAddSat, SSubSat, SAddSat, Trap, TlsAddr, Const0, UCmp, SCmp, BSwap, BitRev, Abs, Expect,
    ReduceOr, ReduceAnd, ReduceAdd,
    Alloc, AllocZeroed, Dealloc, Realloc, Bcmp, Memcmp, Strlen, Panic, PanicMsg, PtrMask,
    Malloc, Free,
    Errno, ClockGettime, GetRandom, Syscall, Ret0, RetM1, Pthread0,
    HashOne(u8),
    SxBytes, SxChoice, SxAssume, SxCheck, SxFail, SxReach, SxParam, SxOrder, SxEpoch, SxOut, SxConc, SxDone, SxIsSym, SxSelect, SxLog, SxNative,
    Unknown,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum O3 { Add, Sub, Mul }

pub struct Program {
    pub m: Module,
    pub ext: Vec<Ext>,
    pub redirect: Vec<u32>,
    pub errno_slot: u64,
}

fn classify(name: &str, declared: bool) -> Ext {
    if let Some(n) = name.strip_prefix("llvm.") {
        let t = |s: &str| n.starts_with(s);
        return if t("lifetime") || t("assume") || t("experimental.noalias") || t("dbg") || t("x86.sse2.pause") || t("prefetch") || t("invariant") || t("fake.use") || t("donothing") { Ext::Nop }
        else if t("memcpy") || t("memmove") { Ext::Memcpy }
        else if t("memset") { Ext::Memset }
        else if t("fshl") { Ext::Fshl } else if t("fshr") { Ext::Fshr }
        else if t("umax") { Ext::UMax } else if t("umin") { Ext::UMin } else if t("smax") { Ext::SMax } else if t("smin") { Ext::SMin }
        else if t("ctpop") { Ext::Ctpop } else if t("cttz") { Ext::Cttz } else if t("ctlz") { Ext::Ctlz }
        else if t("uadd.with") { Ext::Ovf(O3::Add, false) } else if t("usub.with") { Ext::Ovf(O3::Sub, false) } else if t("umul.with") { Ext::Ovf(O3::Mul, false) }
        else if t("sadd.with") { Ext::Ovf(O3::Add, true) } else if t("ssub.with") { Ext::Ovf(O3::Sub, true) } else if t("smul.with") { Ext::Ovf(O3::Mul, true) }
        else if t("usub.sat") { Ext::USubSat } else if t("uadd.sat") { Ext::UAddSat } else if t("ssub.sat") { Ext::SSubSat } else if t("sadd.sat") { Ext::SAddSat }
        else if t("trap") || t("ubsantrap") { Ext::Trap }
        else if t("threadlocal.address") { Ext::TlsAddr }
        else if t("is.constant") { Ext::Const0 }
        else if t("ucmp") { Ext::UCmp } else if t("scmp") { Ext::SCmp }
        else if t("bswap") { Ext::BSwap } else if t("bitreverse") { Ext::BitRev } else if t("abs") { Ext::Abs }
        else if t("expect") { Ext::Expect }
        else if t("vector.reduce.or") { Ext::ReduceOr } else if t("vector.reduce.and") { Ext::ReduceAnd } else if t("vector.reduce.add") { Ext::ReduceAdd }
        else if t("ptrmask") { Ext::PtrMask }
        else { Ext::Unknown };
    }
    if let Some(n) = name.strip_prefix("sx_") {
        return match n {
            "bytes" => Ext::SxBytes, "choice" => Ext::SxChoice, "assume" => Ext::SxAssume, "check" => Ext::SxCheck, "fail" => Ext::SxFail,
            "reach" => Ext::SxReach, "param" => Ext::SxParam, "order" => Ext::SxOrder, "epoch" => Ext::SxEpoch, "out" => Ext::SxOut,
            "conc" => Ext::SxConc, "done" => Ext::SxDone, "is_sym" => Ext::SxIsSym, "select" => Ext::SxSelect, "log" => Ext::SxLog, "native" => Ext::SxNative,
            _ => Ext::Unknown,
        };
    }
    let c = |s: &str| name.contains(s);
    if c("7___rustc") || name.starts_with("__rust_") {
        if c("__rust_alloc_zeroed") || c("___rust_alloc_zeroed") { return Ext::AllocZeroed; }
        if c("__rust_no_alloc_shim") { return Ext::Nop; }
        if c("__rust_dealloc") { return Ext::Dealloc; }
        if c("__rust_realloc") { return Ext::Realloc; }
        if c("rust_begin_unwind") { return Ext::Panic; }
        if c("__rust_alloc_error_handler") { return Ext::PanicMsg; }
        if c("__rust_alloc") { return Ext::Alloc; }
    }
    if c("9panicking9panic_fmt") || c("9panicking18panic_nounwind_fmt") || c("9panicking14panic_nounwind") || c("9panicking19panic_cannot_unwind") { return Ext::Panic; }
    if c("18handle_alloc_error") || c("rust_panic_with_hook") || c("9panicking11begin_panic") { return Ext::PanicMsg; }
    if let Some(p) = name.find("8hash_one") {
        // generic argument: R* e E  => a (reference to)* &str
        let rest = &name[p + 9..];
        let r = rest.bytes().take_while(|b| *b == b'R').count();
        if r >= 1 && rest[r..].starts_with("eE") { return Ext::HashOne(r as u8); }
        if r >= 1 && rest[r..].contains("6string6StringE") { return Ext::HashOne(100 + r as u8); }
    }
    if !declared { return Ext::None; }
    match name {
        "bcmp" => Ext::Bcmp,
        "memcmp" => Ext::Memcmp,
        "memcpy" | "memmove" => Ext::Memcpy,
        "memset" => Ext::Memset,
        "strlen" => Ext::Strlen,
        "malloc" => Ext::Malloc,
        "free" => Ext::Free,
        "abort" | "_exit" | "_ZSt9terminatev" | "_Unwind_RaiseException" | "rust_eh_personality" => Ext::PanicMsg,
        "__errno_location" => Ext::Errno,
        "clock_gettime" => Ext::ClockGettime,
        "getrandom" | "getentropy" => Ext::GetRandom,
        "syscall" => Ext::Syscall,
        "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_mutex_trylock" | "pthread_mutexattr_init" | "pthread_mutexattr_settype" | "pthread_mutex_init"
        | "pthread_mutexattr_destroy" | "pthread_mutex_destroy" | "pthread_cond_destroy" | "__cxa_thread_atexit_impl" | "sched_yield" | "pthread_key_create" | "pthread_setspecific" => Ext::Pthread0,
        "getenv" | "pthread_getspecific" | "dlsym" | "isatty" => Ext::Ret0,
        _ => Ext::Unknown,
    }
}

impl Program {
    pub fn new(mut m: Module) -> Program {
        let mut ext = Vec::new();
        let mut redirect = Vec::new();
        for f in &m.funcs {
            let mut r = u32::MAX;
            if f.declared {
                if let Some(i) = m.fn_by_name.get(&format!("sxl_{}", f.name)) { r = *i as u32; }
                // start-up code of the standard library that stores the program's arguments
                if f.name == "sx_std_args_init" {
                    if let Some(i) = m.funcs.iter().position(|g| !g.declared && g.name.contains("ARGV_INIT_ARRAY12init_wrapper")) { r = i as u32; }
                }
            }
            redirect.push(r);
            ext.push(if r != u32::MAX { Ext::None } else { classify(&f.name, f.declared) });
        }
        let errno_slot = m.nslots;
        m.globals.push(Global { name: "$errno".into(), slot: errno_slot, data: vec![0; 16], align: 16, is_const: false });
        m.nslots += 1;
        Program { m, ext, redirect, errno_slot }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub b: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct KeyEnt { epoch: u32, bytes: Arc<Vec<Byte>>, hash: u64, rank: i32 }

#[derive(Clone)]
pub struct Input { pub label: Arc<str>, pub first: u32, pub n: u32, pub kind: u8 }

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub frames: Vec<Arc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub ent: VarSet,
    pub dom: Vec<Dom>,
    pub model: Vec<u8>,
    pub inputs: Vec<Input>,
    pub keys: Vec<KeyEnt>,
    pub epoch: u32,
    pub order: u32,
    pub outs: Vec<Arc<Vec<Byte>>>,
    pub reach: u64,
    pub steps: u64,
    pub now: u64,
    pub depth: u32,
    pub script: usize,
}

pub enum Stop {
    Dead,
    Done,
    Violated,
    Err(String),
}
type R<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> R<T> { Err(Stop::Err(s.into())) }

pub struct Violation { pub sig: String, pub detail: String, pub inputs: Vec<(String, u8, Vec<u8>)>, pub count: u64 }

pub struct Sample { pub inputs: Vec<(String, u8, Vec<u8>)>, pub outs: Vec<String>, pub reach: u64 }

#[derive(Default)]
pub struct Totals {
    pub paths: u64, pub dead: u64, pub steps: u64, pub forks: u64, pub dom_decided: u64, pub range_decided: u64, pub checks: u64, pub checks_const: u64, pub checks_smt: u64,
    pub smt: Stats,
    pub funcs: Vec<u64>,
    pub violations: BTreeMap<String, Vec<Violation>>,
    pub vcount: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub reach: Vec<u64>,
    pub errors: Vec<String>,
    pub forkat: HashMap<(u32, u32), u64>,
    pub maxdepth: u32,
    pub sym_inputs_max: u32,
}

pub struct Opts {
    pub params: Vec<u64>,
    pub threads: usize,
    pub max_time: f64,
    pub max_steps: u64,
    pub samples: usize,
    pub prof: bool,
    pub maxviol: u64,
    /// concrete replay of recorded inputs inside the engine (engine self-validation)
    pub script: Option<Vec<Vec<u8>>>,
    pub trace: bool,
}

pub struct Shared {
    pub q: Mutex<(Vec<State>, usize)>,
    pub cv: Condvar,
    pub stop: AtomicBool,
    pub hungry: AtomicU64,
    pub paths: AtomicU64,
    pub viol: AtomicU64,
    pub start: Instant,
}

pub struct W {
    pub p: &'static Program,
    pub o: &'static Opts,
    pub sh: &'static Shared,
    pub s: Solver,
    pub local: Vec<State>,
    pub t: Totals,
    ucache: HashMap<u128, Dom>,
    rcache: HashMap<(u128, Dom), (u128, u128)>,
}

fn sc(v: &Val, w: u32) -> E {
    match v {
        Val::I(x) => cst(*x as u128, w),
        Val::B(x) => cst(**x, w),
        Val::S(e) => e.clone(),
        Val::A(_) => panic!("scalar expected"),
    }
}
fn conc(v: &Val) -> Option<u128> {
    match v { Val::I(x) => Some(*x as u128), Val::B(x) => Some(**x), _ => None }
}
fn mkv(e: E) -> Val {
    match as_const(&e) { Some(c) => Val::int(c, e.w), None => Val::S(e) }
}
fn b2e(b: &Byte) -> E { match b { Byte::C(c) => cst(*c as u128, 8), Byte::S(e) => e.clone() } }

fn bin_scalar(op: Bin, w: u32, a: &Val, b: &Val) -> Result<Val, String> {
    if let (Val::I(x), Val::I(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let m = if w >= 64 { !0u64 } else { (1u64 << w) - 1 };
        let sx = |v: u64| if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) };
        return Ok(Val::I(match op {
            Bin::Add => x.wrapping_add(y) & m,
            Bin::Sub => x.wrapping_sub(y) & m,
            Bin::Mul => x.wrapping_mul(y) & m,
            Bin::And => x & y,
            Bin::Or => x | y,
            Bin::Xor => x ^ y,
            Bin::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
            Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
            Bin::AShr => (sx(x) >> (y.min(w as u64 - 1))) as u64 & m,
            Bin::UDiv => if y == 0 { return Err("udiv by zero".into()) } else { x / y },
            Bin::URem => if y == 0 { return Err("urem by zero".into()) } else { x % y },
            Bin::SDiv => if y == 0 { return Err("sdiv by zero".into()) } else { sx(x).wrapping_div(sx(y)) as u64 & m },
            Bin::SRem => if y == 0 { return Err("srem by zero".into()) } else { sx(x).wrapping_rem(sx(y)) as u64 & m },
            Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem => {
                if w == 64 {
                    let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                    (match op { Bin::FAdd => p + q, Bin::FSub => p - q, Bin::FMul => p * q, Bin::FDiv => p / q, _ => p % q }).to_bits()
                } else {
                    let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match op { Bin::FAdd => p + q, Bin::FSub => p - q, Bin::FMul => p * q, Bin::FDiv => p / q, _ => p % q }).to_bits() as u64
                }
            }
        }));
    }
    let o = match op {
        Bin::Add => O::Add, Bin::Sub => O::Sub, Bin::Mul => O::Mul, Bin::And => O::And, Bin::Or => O::Or, Bin::Xor => O::Xor,
        Bin::Shl => O::Shl, Bin::LShr => O::LShr, Bin::AShr => O::AShr, Bin::UDiv => O::UDiv, Bin::URem => O::URem, Bin::SDiv => O::SDiv, Bin::SRem => O::SRem,
        _ => return Err("symbolic floating point".into()),
    };
    if let (Some(x), Some(y)) = (conc(a), conc(b)) { return Ok(Val::int(fold(o, x, y, w), w)); }
    Ok(mkv(bin(o, &sc(a, w), &sc(b, w))))
}

fn cmp_scalar(op: Cmp, w: u32, a: &Val, b: &Val) -> Val {
    if let (Val::I(x), Val::I(y)) = (a, b) {
        let sx = |v: u64| if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) };
        return Val::I(match op {
            Cmp::Eq => x == y, Cmp::Ne => x != y, Cmp::Ult => x < y, Cmp::Ule => x <= y, Cmp::Ugt => x > y, Cmp::Uge => x >= y,
            Cmp::Slt => sx(*x) < sx(*y), Cmp::Sle => sx(*x) <= sx(*y), Cmp::Sgt => sx(*x) > sx(*y), Cmp::Sge => sx(*x) >= sx(*y),
        } as u64);
    }
    let (x, y) = (sc(a, w), sc(b, w));
    mkv(match op {
        Cmp::Eq => bin(O::Eq, &x, &y),
        Cmp::Ne => not(&bin(O::Eq, &x, &y)),
        Cmp::Ult => bin(O::Ult, &x, &y), Cmp::Ule => bin(O::Ule, &x, &y), Cmp::Ugt => bin(O::Ult, &y, &x), Cmp::Uge => bin(O::Ule, &y, &x),
        Cmp::Slt => bin(O::Slt, &x, &y), Cmp::Sle => bin(O::Sle, &x, &y), Cmp::Sgt => bin(O::Slt, &y, &x), Cmp::Sge => bin(O::Sle, &y, &x),
    })
}

fn flatten(v: &Val, ty: &Ty) -> Val {
    match (v, ty) {
        (Val::A(xs), Ty::Vec(_, t)) => {
            let ew = t.bits();
            let w = ew * xs.len() as u32;
            if xs.iter().all(|x| conc(x).is_some()) {
                let mut r: u128 = 0;
                for x in xs.iter().rev() { r = if ew >= 128 { conc(x).unwrap() } else { (r << ew) | conc(x).unwrap() }; }
                return Val::int(r, w);
            }
            let mut e: Option<E> = None;
            for x in xs.iter() {
                let b = sc(x, ew);
                e = Some(match e { None => b, Some(lo) => concat(&b, &lo) });
            }
            mkv(e.unwrap())
        }
        _ => v.clone(),
    }
}
fn unflatten(v: &Val, ty: &Ty) -> Val {
    match ty {
        Ty::Vec(n, t) => {
            let ew = t.bits();
            let w = ew * *n as u32;
            match conc(v) {
                Some(x) => Val::A(Arc::new((0..*n as u32).map(|i| Val::int(mask(x >> (i * ew), ew), ew)).collect())),
                None => {
                    let e = sc(v, w);
                    Val::A(Arc::new((0..*n as u32).map(|i| mkv(extract(&e, i * ew, ew))).collect()))
                }
            }
        }
        _ => v.clone(),
    }
}

impl W {
    pub fn new(p: &'static Program, o: &'static Opts, sh: &'static Shared) -> W {
        W { p, o, sh, s: Solver::new(120_000), local: vec![], t: Totals { funcs: vec![0; p.m.funcs.len()], reach: vec![0; 64], ..Default::default() }, ucache: HashMap::new(), rcache: HashMap::new() }
    }

    pub fn initial(&self, entry: u32) -> State {
        let f = &self.p.m.funcs[entry as usize];
        State {
            top: Frame { f: entry, b: 0, ip: 0, regs: vec![Val::I(0); f.nregs as usize], allocas: vec![] },
            frames: vec![], mem: Mem::new(&self.p.m), pc: vec![], ent: VarSet::EMPTY, dom: vec![], model: vec![], inputs: vec![], keys: vec![],
            epoch: 0, order: 0, outs: vec![], reach: 0, steps: 0, now: 1_600_000_000, depth: 0, script: 0,
        }
    }

    // ---------- solver interface ----------
    fn unary(&mut self, c: &E, v: u32) -> Dom {
        if let Some(d) = self.ucache.get(&c.h) { return *d; }
        let mut m = vec![0u8; v as usize + 1];
        let mut d = [0u64; 4];
        for x in 0..256usize {
            m[v as usize] = x as u8;
            if eval(c, &m) == 1 { d[x / 64] |= 1 << (x % 64); }
        }
        if self.ucache.len() > 500_000 { self.ucache.clear(); }
        self.ucache.insert(c.h, d);
        d
    }

    fn slice(&self, st: &State, c: &E) -> (Vec<E>, Vec<(u32, Dom)>) {
        let mut vs = c.vars;
        let mut cons = vec![c.clone()];
        if vs.intersects(&st.ent) {
            let mut used = vec![false; st.pc.len()];
            loop {
                let mut ch = false;
                for (i, k) in st.pc.iter().enumerate() {
                    if !used[i] && k.vars.intersects(&vs) {
                        used[i] = true;
                        vs = vs.or(&k.vars);
                        cons.push(k.clone());
                        ch = true;
                    }
                }
                if !ch { break; }
            }
        }
        let doms = vs.iter().map(|v| (v, st.dom[v as usize])).collect();
        (cons, doms)
    }

    fn smt(&mut self, st: &State, c: &E) -> R<Option<Vec<u8>>> {
        let (cons, doms) = self.slice(st, c);
        match self.s.check(&cons, &doms) {
            Res::Sat(a) => {
                let mut m = st.model.clone();
                for (v, x) in a { m[v as usize] = x; }
                if cons.iter().any(|k| eval(k, &m) != 1) { return err("solver model does not satisfy the constraints"); }
                Ok(Some(m))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => err("solver returned unknown"),
        }
    }

    /// a model of pc ∧ c, or None
    fn feasible(&mut self, st: &State, c: &E) -> R<Option<Vec<u8>>> {
        if let Some(k) = as_const(c) { return Ok(if k == 1 { Some(st.model.clone()) } else { None }); }
        if eval(c, &st.model) == 1 { return Ok(Some(st.model.clone())); }
        if c.vars.count() == 1 {
            let v = c.vars.first().unwrap();
            let d = self.unary(c, v);
            let mut x = st.dom[v as usize];
            for i in 0..4 { x[i] &= d[i]; }
            match dom_first(&x) {
                None => { self.t.dom_decided += 1; return Ok(None); }
                Some(val) if !st.ent.has(v) => {
                    self.t.dom_decided += 1;
                    let mut m = st.model.clone();
                    m[v as usize] = val;
                    return Ok(Some(m));
                }
                _ => {}
            }
        }
        if self.tri(st, c, 12) == Some(false) { self.t.range_decided += 1; return Ok(None); }
        self.smt(st, c)
    }

    /// unsigned bounds of e under the variable domains
    fn range(&mut self, st: &State, e: &E, d: u32) -> (u128, u128) {
        let top = mask(!0, e.w);
        if let Some(c) = as_const(e) { return (c, c); }
        if d == 0 { return (0, top); }
        if e.vars.count() == 1 && e.size <= 40 {
            let v = e.vars.first().unwrap();
            let dm = st.dom[v as usize];
            if let Some(r) = self.rcache.get(&(e.h, dm)) { return *r; }
            let mut m = vec![0u8; v as usize + 1];
            let (mut lo, mut hi) = (!0u128, 0u128);
            for x in 0..256usize {
                if !dom_has(&dm, x as u8) { continue; }
                m[v as usize] = x as u8;
                let y = eval(e, &m);
                lo = lo.min(y);
                hi = hi.max(y);
            }
            if self.rcache.len() > 500_000 { self.rcache.clear(); }
            self.rcache.insert((e.h, dm), (lo, hi));
            return (lo, hi);
        }
        match &e.k {
            K::ZExt(a) => self.range(st, a, d - 1),
            K::Ite(_, a, b) => { let (x, y) = (self.range(st, a, d - 1), self.range(st, b, d - 1)); (x.0.min(y.0), x.1.max(y.1)) }
            K::Extract(0, a) => { let r = self.range(st, a, d - 1); if r.1 <= top { r } else { (0, top) } }
            K::Bin(o, a, b) => {
                let (x, y) = (self.range(st, a, d - 1), self.range(st, b, d - 1));
                let up = |v: u128| -> u128 { if v == 0 { 0 } else { !0u128 >> v.leading_zeros() } };
                match o {
                    O::Concat => (x.0 << b.w | y.0, x.1 << b.w | y.1),
                    O::Or => (x.0.max(y.0), up(x.1 | y.1).min(top)),
                    O::Xor => (0, up(x.1 | y.1).min(top)),
                    O::And => (0, x.1.min(y.1)),
                    O::Add => match x.1.checked_add(y.1) { Some(h) if h <= top => (x.0 + y.0, h), _ => (0, top) },
                    O::Sub => if x.0 >= y.1 { (x.0 - y.1, x.1 - y.0) } else { (0, top) },
                    O::Mul => match x.1.checked_mul(y.1) { Some(h) if h <= top => (x.0 * y.0, h), _ => (0, top) },
                    O::Shl if y.0 == y.1 && y.0 < 128 => { let k = y.0 as u32; if x.1.leading_zeros() >= k && (x.1 << k) <= top { (x.0 << k, x.1 << k) } else { (0, top) } }
                    O::LShr if y.0 == y.1 && y.0 < 128 => (x.0 >> y.0, x.1 >> y.0),
                    _ => (0, top),
                }
            }
            _ => (0, top),
        }
    }
    /// truth value of a condition when the bounds settle it
    fn tri(&mut self, st: &State, c: &E, d: u32) -> Option<bool> {
        if let Some(k) = as_const(c) { return Some(k == 1); }
        if d == 0 { return None; }
        if let Some(x) = is_not(c) { return self.tri(st, &x, d - 1).map(|b| !b); }
        match &c.k {
            K::Bin(O::And, a, b) if c.w == 1 => match (self.tri(st, a, d - 1), self.tri(st, b, d - 1)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None },
            K::Bin(O::Or, a, b) if c.w == 1 => match (self.tri(st, a, d - 1), self.tri(st, b, d - 1)) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None },
            K::Bin(O::Eq, a, b) => { let (x, y) = (self.range(st, a, d), self.range(st, b, d)); if x.1 < y.0 || y.1 < x.0 { Some(false) } else if x.0 == x.1 && x == y { Some(true) } else { None } }
            K::Bin(O::Ult, a, b) => { let (x, y) = (self.range(st, a, d), self.range(st, b, d)); if x.1 < y.0 { Some(true) } else if x.0 >= y.1 { Some(false) } else { None } }
            K::Bin(O::Ule, a, b) => { let (x, y) = (self.range(st, a, d), self.range(st, b, d)); if x.1 <= y.0 { Some(true) } else if x.0 > y.1 { Some(false) } else { None } }
            _ => None,
        }
    }

    /// a condition settled by the variable domains becomes a constant
    fn settle(&mut self, st: &State, v: Val) -> Val {
        if let Val::S(c) = &v {
            if c.w == 1 {
                if c.vars.count() == 1 {
                    let x = c.vars.first().unwrap();
                    let d = self.unary(c, x);
                    let dm = st.dom[x as usize];
                    if (0..4).all(|i| dm[i] & d[i] == 0) { return Val::I(0); }
                    if (0..4).all(|i| dm[i] & !d[i] == 0) { return Val::I(1); }
                } else if let Some(b) = self.tri(st, c, 8) {
                    return Val::I(b as u64);
                }
            }
        }
        v
    }

    fn assert(&mut self, st: &mut State, c: &E) {
        match &c.k {
            K::Const(_) => return,
            K::Bin(O::And, a, b) if c.w == 1 => {
                let (a, b) = (a.clone(), b.clone());
                self.assert(st, &a);
                self.assert(st, &b);
                return;
            }
            _ => {}
        }
        if let Some(x) = is_not(c) {
            if let K::Bin(O::Or, a, b) = &x.k {
                let (a, b) = (not(a), not(b));
                self.assert(st, &a);
                self.assert(st, &b);
                return;
            }
        }
        if c.vars.count() == 1 {
            let v = c.vars.first().unwrap();
            let d = self.unary(c, v);
            for i in 0..4 { st.dom[v as usize][i] &= d[i]; }
            return;
        }
        if st.pc.iter().any(|k| same(k, c)) { return; }
        st.ent = st.ent.or(&c.vars);
        st.pc.push(c.clone());
    }

    /// (can be true, can be false); the state's model decides one side for free
    fn decide(&mut self, st: &State, c: &E) -> R<(Option<Vec<u8>>, Option<Vec<u8>>)> {
        if let Some(k) = as_const(c) {
            return Ok(if k == 1 { (Some(st.model.clone()), None) } else { (None, Some(st.model.clone())) });
        }
        let nc = not(c);
        if eval(c, &st.model) == 1 {
            let o = self.feasible(st, &nc)?;
            Ok((Some(st.model.clone()), o))
        } else {
            let o = self.feasible(st, c)?;
            Ok((o, Some(st.model.clone())))
        }
    }

    fn fork(&mut self, st: &State) -> State {
        self.t.forks += 1;
        if self.o.prof { *self.t.forkat.entry((st.top.f, st.top.b)).or_insert(0) += 1; }
        let mut s = st.clone();
        s.depth += 1;
        s
    }
    fn push(&mut self, s: State) {
        if self.sh.hungry.load(Ordering::Relaxed) > 0 {
            let mut q = self.sh.q.lock().unwrap();
            if q.0.len() < self.o.threads * 2 {
                q.0.push(s);
                self.sh.cv.notify_one();
                return;
            }
        }
        self.local.push(s);
    }

    /// concrete value of v on this path; forks off the alternatives (which re-execute)
    fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::I(x) => return Ok(*x),
            Val::B(x) => return Ok(**x as u64),
            Val::A(_) => return err("aggregate where scalar expected"),
            Val::S(_) => {}
        }
        let e = sc(v, w);
        let x = eval(&e, &st.model);
        let eq = bin(O::Eq, &e, &cst(x, w));
        if as_const(&eq) == Some(1) { return Ok(x as u64); }
        let ne = not(&eq);
        if let Some(m) = self.feasible(st, &ne)? {
            let mut s = self.fork(st);
            s.model = m;
            self.assert(&mut s, &ne);
            self.push(s);
            self.assert(st, &eq);
        }
        Ok(x as u64)
    }
    /// boolean decided on this path; the other side re-executes the instruction
    fn decide_here(&mut self, st: &mut State, c: &E) -> R<bool> {
        match self.decide(st, c)? {
            (Some(_), None) => Ok(true),
            (None, Some(_)) => Ok(false),
            (Some(mt), Some(mf)) => {
                let mut s = self.fork(st);
                s.model = mf;
                let nc = not(c);
                self.assert(&mut s, &nc);
                self.push(s);
                st.model = mt;
                self.assert(st, c);
                Ok(true)
            }
            (None, None) => Err(Stop::Dead),
        }
    }

    // ---------- values ----------
    #[inline]
    fn val(&self, st: &State, o: &Op) -> Val {
        match o { Op::R(r) => st.top.regs[*r as usize].clone(), Op::C(v) => v.clone() }
    }
    #[inline]
    fn set(&self, st: &mut State, r: u32, v: Val) { st.top.regs[r as usize] = v; }

    fn ptr(&mut self, st: &mut State, o: &Op) -> R<u64> {
        let v = match o { Op::R(r) => &st.top.regs[*r as usize], Op::C(v) => v };
        if let Val::I(x) = v { return Ok(*x); }
        let v = v.clone();
        self.concretize(st, &v, 64)
    }

    fn load_ty(&mut self, st: &mut State, a: u64, ty: &Ty) -> R<Val> {
        let r = match ty {
            Ty::Int(w) | Ty::Float(w) => st.mem.load(a, ((*w + 7) / 8) as usize, *w),
            Ty::Ptr => st.mem.load(a, 8, 64),
            Ty::Vec(n, t) => {
                let b = t.bits();
                if b % 8 == 0 {
                    let mut v = Vec::with_capacity(*n as usize);
                    for i in 0..*n { v.push(match st.mem.load(a + i * (b as u64 / 8), b as usize / 8, b) { Ok(x) => x, Err(e) => return self.mem_err(st, e) }); }
                    Ok(Val::A(Arc::new(v)))
                } else {
                    st.mem.load(a, ty.size() as usize, ty.bits()).map(|x| unflatten(&x, ty))
                }
            }
            Ty::Arr(n, t) => {
                let s = t.size();
                let mut v = Vec::new();
                for i in 0..*n { v.push(self.load_ty(st, a + i * s, t)?); }
                Ok(Val::A(Arc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = Vec::new();
                for (i, t) in f.iter().enumerate() { v.push(self.load_ty(st, a + ty.field_off(i), t)?); }
                Ok(Val::A(Arc::new(v)))
            }
            _ => Err("load type".into()),
        };
        match r { Ok(v) => Ok(self.reduce(st, v)), Err(e) => self.mem_err(st, e) }
    }
    /// a byte variable with a singleton domain is a constant
    #[inline]
    fn reduce(&self, st: &State, v: Val) -> Val {
        if let Val::S(e) = &v {
            if e.vars.count() == 1 && e.size <= 6 {
                let x = e.vars.first().unwrap();
                let d = &st.dom[x as usize];
                if dom_count(d) == 1 { return Val::int(eval(e, &st.model), e.w); }
            }
        }
        v
    }
    fn store_ty(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        let r = match ty {
            Ty::Int(w) | Ty::Float(w) => st.mem.store(a, ((*w + 7) / 8) as usize, v),
            Ty::Ptr => st.mem.store(a, 8, v),
            Ty::Vec(n, t) => {
                let b = t.bits();
                if b % 8 == 0 {
                    if let Val::A(x) = v { for i in 0..*n { if let Err(e) = st.mem.store(a + i * (b as u64 / 8), b as usize / 8, &x[i as usize]) { return self.mem_err(st, e); } } }
                    Ok(())
                } else {
                    st.mem.store(a, ty.size() as usize, &flatten(v, ty))
                }
            }
            Ty::Arr(n, t) => {
                let s = t.size();
                if let Val::A(x) = v { for i in 0..*n { self.store_ty(st, a + i * s, t, &x[i as usize])?; } }
                Ok(())
            }
            Ty::Struct(f, _) => {
                if let Val::A(x) = v { for (i, t) in f.iter().enumerate() { self.store_ty(st, a + ty.field_off(i), t, &x[i])?; } }
                Ok(())
            }
            _ => Err("store type".into()),
        };
        match r { Ok(()) => Ok(()), Err(e) => self.mem_err(st, e) }
    }
    fn mem_err<T>(&mut self, st: &State, e: String) -> R<T> {
        let w = self.where_(st);
        self.violation(st, &st.model.clone(), "memory", &format!("{} in {}", e, w));
        Err(Stop::Violated)
    }
    fn where_(&self, st: &State) -> String {
        let mut s = vec![self.p.m.funcs[st.top.f as usize].name.clone()];
        for f in st.frames.iter().rev().take(12) { s.push(self.p.m.funcs[f.f as usize].name.clone()); }
        s.join(" < ")
    }

    fn inputs_of(&self, st: &State, m: &[u8]) -> Vec<(String, u8, Vec<u8>)> {
        st.inputs.iter().map(|i| (i.label.to_string(), i.kind, (i.first..i.first + i.n).map(|v| m[v as usize]).collect())).collect()
    }
    fn violation(&mut self, st: &State, m: &[u8], sig: &str, detail: &str) {
        *self.t.vcount.entry(sig.to_string()).or_insert(0) += 1;
        let inputs = self.inputs_of(st, m);
        let v = self.t.violations.entry(sig.to_string()).or_default();
        if v.len() < 4 { v.push(Violation { sig: sig.to_string(), detail: detail.to_string(), inputs, count: 1 }); }
        let n = self.sh.viol.fetch_add(1, Ordering::Relaxed);
        if n + 1 >= self.o.maxviol { self.sh.stop.store(true, Ordering::Relaxed); }
    }

    // ---------- main loop ----------
    pub fn run(&mut self, mut st: State) {
        let r = loop {
            match self.step(&mut st) {
                Ok(()) => {}
                Err(s) => break s,
            }
            if st.steps & 0xffff == 0 {
                // neither ends nor stays small
                if st.steps > self.o.max_steps || st.mem.bytes > 1 << 30 {
                    let w = self.where_(&st);
                    self.violation(&st, &st.model.clone(), "does not end", &format!("{} steps, {} bytes at {}", st.steps, st.mem.bytes, w));
                    self.sh.stop.store(true, Ordering::Relaxed);
                    break Stop::Violated;
                }
                if self.sh.stop.load(Ordering::Relaxed) { break Stop::Dead; }
            }
        };
        self.t.steps += st.steps;
        if st.depth > self.t.maxdepth { self.t.maxdepth = st.depth; }
        match r {
            Stop::Dead => self.t.dead += 1,
            Stop::Done => {
                self.t.paths += 1;
                let n = self.sh.paths.fetch_add(1, Ordering::Relaxed);
                let nv = st.model.len() as u32;
                if nv > self.t.sym_inputs_max { self.t.sym_inputs_max = nv; }
                for i in 0..64 { if st.reach >> i & 1 == 1 { self.t.reach[i] += 1; } }
                let new_reach = (0..64).any(|i| st.reach >> i & 1 == 1 && self.t.reach[i] == 1);
                if self.t.samples.len() < self.o.samples && (new_reach || self.t.samples.len() < 2 || n % 97 == 0) {
                    let outs = st.outs.iter().map(|o| hex_digest(o, &st.model)).collect();
                    let inputs = self.inputs_of(&st, &st.model);
                    self.t.samples.push(Sample { inputs, outs, reach: st.reach });
                }
            }
            Stop::Violated => self.t.paths += 1,
            Stop::Err(e) => {
                let w = self.where_(&st);
                let i = self.inputs_of(&st, &st.model);
                self.t.errors.push(format!("{} at {} inputs {:?}", e, w, i));
                self.sh.stop.store(true, Ordering::Relaxed);
            }
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let f = &self.p.m.funcs[st.top.f as usize];
        let b = &f.blocks[to as usize];
        let prev = st.top.b;
        if b.phis.len() == 1 {
            let ph = &b.phis[0];
            for (pb, o) in &ph.inc {
                if *pb == prev { let v = self.val(st, o); st.top.regs[ph.dst as usize] = v; break; }
            }
        } else if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for ph in &b.phis {
                let mut v = Val::I(0);
                for (pb, o) in &ph.inc { if *pb == prev { v = self.val(st, o); break; } }
                vals.push(v);
            }
            for (ph, v) in b.phis.iter().zip(vals) { st.top.regs[ph.dst as usize] = v; }
        }
        st.top.b = to;
        st.top.ip = 0;
    }

    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        for a in std::mem::take(&mut st.top.allocas) { let _ = st.mem.free(a); }
        match st.frames.pop() {
            None => Err(Stop::Done),
            Some(fr) => {
                st.top = Arc::try_unwrap(fr).unwrap_or_else(|a| (*a).clone());
                self.finish_call(st, v)
            }
        }
    }
    /// store the result of the current call instruction and advance
    fn finish_call(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let f = &self.p.m.funcs[st.top.f as usize];
        if let Inst::Call { dst, normal, .. } = &f.blocks[st.top.b as usize].insts[st.top.ip as usize] {
            if let (Some(d), Some(v)) = (dst, v) { st.top.regs[*d as usize] = v; }
            match normal { Some(b) => self.jump(st, *b), None => st.top.ip += 1 }
            Ok(())
        } else { err("return to non-call") }
    }

    fn map2(&self, ty: &Ty, a: &Val, b: &Val, f: impl Fn(u32, &Val, &Val) -> Result<Val, String>) -> R<Val> {
        match (ty, a, b) {
            (Ty::Vec(_, t), Val::A(x), Val::A(y)) => {
                let w = t.bits();
                let mut v = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y.iter()) { v.push(f(w, p, q).map_err(Stop::Err)?); }
                Ok(Val::A(Arc::new(v)))
            }
            _ => f(ty.bits(), a, b).map_err(Stop::Err),
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let p = self.p;
        let f = &p.m.funcs[st.top.f as usize];
        let blk = &f.blocks[st.top.b as usize];
        let inst = &blk.insts[st.top.ip as usize];
        st.steps += 1;
        match inst {
            Inst::Load { dst, ty, ptr } => {
                let pv = match ptr { Op::R(r) => &st.top.regs[*r as usize], Op::C(v) => v };
                let a = match pv {
                    Val::I(x) => *x,
                    Val::S(e) => {
                        let e = e.clone();
                        if let Some(v) = self.table_load(st, &e, ty)? {
                            self.set(st, *dst, v);
                            st.top.ip += 1;
                            return Ok(());
                        }
                        self.concretize(st, &Val::S(e), 64)?
                    }
                    _ => return err("pointer"),
                };
                let v = self.load_ty(st, a, ty)?;
                self.set(st, *dst, v);
                st.top.ip += 1;
            }
            Inst::Store { ty, val, ptr } => {
                let a = self.ptr(st, ptr)?;
                let v = self.val(st, val);
                self.store_ty(st, a, ty, &v)?;
                st.top.ip += 1;
            }
            Inst::Gep { dst, base, off, idx } => {
                let b = self.val(st, base);
                let mut sym: Option<E> = None;
                let mut acc = *off;
                match &b { Val::I(x) => acc = acc.wrapping_add(*x), Val::S(e) => sym = Some(e.clone()), _ => return err("gep base") }
                for (o, w, scale) in idx {
                    let v = match o { Op::R(r) => &st.top.regs[*r as usize], Op::C(v) => v };
                    match v {
                        Val::I(x) => {
                            let s = if *w >= 64 { *x as i64 } else { ((*x << (64 - w)) as i64) >> (64 - w) };
                            acc = acc.wrapping_add((s as u64).wrapping_mul(*scale));
                        }
                        Val::S(e) => {
                            let t = bin(O::Mul, &sexte(e, 64), &cst(*scale as u128, 64));
                            sym = Some(match sym { None => t, Some(s) => bin(O::Add, &s, &t) });
                        }
                        _ => return err("gep index"),
                    }
                }
                let r = match sym { None => Val::I(acc), Some(s) => mkv(bin(O::Add, &s, &cst(acc as u128, 64))) };
                self.set(st, *dst, r);
                st.top.ip += 1;
            }
            Inst::Bin { dst, op, ty, a, b } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let op = *op;
                let r = self.map2(ty, &x, &y, |w, p, q| bin_scalar(op, w, p, q))?;
                self.set(st, *dst, r);
                st.top.ip += 1;
            }
            Inst::Cmp { dst, op, ty, a, b } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let op = *op;
                let r = self.map2(ty, &x, &y, |w, p, q| Ok(cmp_scalar(op, w, p, q)))?;
                self.set(st, *dst, r);
                st.top.ip += 1;
            }
            Inst::Cast { dst, op, from, to, a } => {
                let mut x = self.val(st, a);
                if let Val::S(e) = &x { if e.w == 1 { x = self.settle(st, x); } }
                let r = self.cast(*op, from, to, &x)?;
                self.set(st, *dst, r);
                st.top.ip += 1;
            }
            Inst::Select { dst, cty, ty, c, a, b } => {
                let cv = self.val(st, c);
                let cv = self.settle(st, cv);
                let r = match &cv {
                    Val::I(x) => if *x & 1 == 1 { self.val(st, a) } else { self.val(st, b) },
                    Val::A(cs) => {
                        let (x, y) = (self.val(st, a), self.val(st, b));
                        let w = ty.elem().bits();
                        match (&x, &y) {
                            (Val::A(x), Val::A(y)) => {
                                let mut v = Vec::new();
                                for i in 0..cs.len() {
                                    v.push(match &cs[i] { Val::I(k) => if k & 1 == 1 { x[i].clone() } else { y[i].clone() }, k => mkv(ite(&sc(k, 1), &sc(&x[i], w), &sc(&y[i], w))) });
                                }
                                Val::A(Arc::new(v))
                            }
                            _ => return err("vector select"),
                        }
                    }
                    Val::S(ce) => {
                        let _ = cty;
                        let (x, y) = (self.val(st, a), self.val(st, b));
                        match (&x, &y) {
                            (Val::A(_), _) | (_, Val::A(_)) => {
                                let ce = ce.clone();
                                if self.decide_here(st, &ce)? { x } else { y }
                            }
                            _ => {
                                // keep pointers concrete: fork instead of building symbolic addresses
                                if matches!(ty, Ty::Ptr) && !matches!((&x, &y), (Val::I(p), Val::I(q)) if p == q) {
                                    let ce = ce.clone();
                                    if self.decide_here(st, &ce)? { x } else { y }
                                } else {
                                    let w = ty.bits();
                                    mkv(ite(ce, &sc(&x, w), &sc(&y, w)))
                                }
                            }
                        }
                    }
                    _ => return err("select"),
                };
                self.set(st, *dst, r);
                st.top.ip += 1;
            }
            Inst::Br { to } => self.jump(st, *to),
            Inst::CondBr { c, t, f } => {
                let cv = match c { Op::R(r) => &st.top.regs[*r as usize], Op::C(v) => v };
                match cv {
                    Val::I(x) => { let to = if *x & 1 == 1 { *t } else { *f }; self.jump(st, to) }
                    Val::S(e) => {
                        let e = e.clone();
                        match self.decide(st, &e)? {
                            (Some(_), None) => self.jump(st, *t),
                            (None, Some(_)) => self.jump(st, *f),
                            (Some(mt), Some(mf)) => {
                                let mut s = self.fork(st);
                                s.model = mf;
                                let ne = not(&e);
                                self.assert(&mut s, &ne);
                                self.jump(&mut s, *f);
                                self.push(s);
                                st.model = mt;
                                self.assert(st, &e);
                                self.jump(st, *t);
                            }
                            _ => return Err(Stop::Dead),
                        }
                    }
                    _ => return err("branch on aggregate"),
                }
            }
            Inst::Switch { ty, v, default, cases } => {
                let x = self.val(st, v);
                match &x {
                    Val::I(k) => {
                        let k = *k as u128;
                        let mut to = *default;
                        for (c, b) in cases { if *c == k { to = *b; break; } }
                        self.jump(st, to);
                    }
                    Val::S(e) => {
                        let w = ty.bits();
                        let mut groups: Vec<(u32, E)> = Vec::new();
                        for (c, b) in cases {
                            let q = bin(O::Eq, e, &cst(*c, w));
                            if as_const(&q) == Some(0) { continue; }
                            match groups.iter_mut().find(|g| g.0 == *b) { Some(g) => g.1 = or1(&g.1, &q), None => groups.push((*b, q)) }
                        }
                        for (b, q) in groups {
                            match self.decide(st, &q)? {
                                (Some(_), None) => { self.jump(st, b); return Ok(()); }
                                (None, Some(_)) => {}
                                (Some(mt), Some(mf)) => {
                                    let mut s = self.fork(st);
                                    s.model = mt;
                                    self.assert(&mut s, &q);
                                    self.jump(&mut s, b);
                                    self.push(s);
                                    st.model = mf;
                                    let nq = not(&q);
                                    self.assert(st, &nq);
                                }
                                _ => return Err(Stop::Dead),
                            }
                        }
                        self.jump(st, *default);
                    }
                    _ => return err("switch"),
                }
            }
            Inst::Call { callee, args, .. } => return self.call(st, callee, args),
            Inst::Ret { v } => {
                let v = v.as_ref().map(|o| self.val(st, o));
                return self.ret(st, v);
            }
            Inst::Alloca { dst, size, count } => {
                let c = self.val(st, count);
                let n = self.concretize(st, &c, 64)?;
                let a = st.mem.alloc(size * n);
                st.top.allocas.push(a);
                self.set(st, *dst, Val::I(a));
                st.top.ip += 1;
            }
            Inst::Extract { dst, a, idx } => {
                let mut v = self.val(st, a);
                for i in idx { v = match &v { Val::A(x) => x[*i as usize].clone(), _ => return err("extractvalue") }; }
                self.set(st, *dst, v);
                st.top.ip += 1;
            }
            Inst::Insert { dst, aty, a, v, idx } => {
                let x = self.val(st, a);
                let y = self.val(st, v);
                let _ = aty;
                let r = insert(&x, &y, idx).map_err(Stop::Err)?;
                self.set(st, *dst, r);
                st.top.ip += 1;
            }
            Inst::ExtractElem { dst, a, i } => {
                let x = self.val(st, a);
                let k = self.val(st, i);
                let k = self.concretize(st, &k, 64)?;
                let v = match &x { Val::A(x) if (k as usize) < x.len() => x[k as usize].clone(), _ => return err("extractelement") };
                self.set(st, *dst, v);
                st.top.ip += 1;
            }
            Inst::InsertElem { dst, aty, a, v, i } => {
                let x = self.val(st, a);
                let y = self.val(st, v);
                let k = self.val(st, i);
                let k = self.concretize(st, &k, 64)?;
                let _ = aty;
                let r = insert(&x, &y, &[k as u32]).map_err(Stop::Err)?;
                self.set(st, *dst, r);
                st.top.ip += 1;
            }
            Inst::Shuffle { dst, ty, a, b, mask } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let _ = ty;
                let r = match (&x, &y) {
                    (Val::A(x), Val::A(y)) => {
                        let n = x.len() as i64;
                        Val::A(Arc::new(mask.iter().map(|m| if *m < 0 { Val::I(0) } else if *m < n { x[*m as usize].clone() } else { y[(*m - n) as usize].clone() }).collect()))
                    }
                    _ => return err("shuffle"),
                };
                self.set(st, *dst, r);
                st.top.ip += 1;
            }
            Inst::Rmw { dst, op, ty, ptr, val } => {
                let a = self.ptr(st, ptr)?;
                let old = self.load_ty(st, a, ty)?;
                let v = self.val(st, val);
                let w = ty.bits();
                let n = match op.as_str() {
                    "xchg" => v,
                    "add" => bin_scalar(Bin::Add, w, &old, &v).map_err(Stop::Err)?,
                    "sub" => bin_scalar(Bin::Sub, w, &old, &v).map_err(Stop::Err)?,
                    "and" => bin_scalar(Bin::And, w, &old, &v).map_err(Stop::Err)?,
                    "or" => bin_scalar(Bin::Or, w, &old, &v).map_err(Stop::Err)?,
                    "xor" => bin_scalar(Bin::Xor, w, &old, &v).map_err(Stop::Err)?,
                    "umax" => if conc(&old).unwrap_or(0) > conc(&v).unwrap_or(0) { old.clone() } else { v },
                    "umin" => if conc(&old).unwrap_or(0) < conc(&v).unwrap_or(0) { old.clone() } else { v },
                    o => return err(format!("atomicrmw {}", o)),
                };
                self.store_ty(st, a, ty, &n)?;
                self.set(st, *dst, old);
                st.top.ip += 1;
            }
            Inst::CmpXchg { dst, ty, ptr, cmp, new } => {
                let a = self.ptr(st, ptr)?;
                let old = self.load_ty(st, a, ty)?;
                let c = self.val(st, cmp);
                let eq = cmp_scalar(Cmp::Eq, ty.bits(), &old, &c);
                let ok = match &eq { Val::I(x) => *x == 1, Val::S(e) => { let e = e.clone(); self.decide_here(st, &e)? } _ => false };
                if ok {
                    let n = self.val(st, new);
                    self.store_ty(st, a, ty, &n)?;
                }
                self.set(st, *dst, Val::A(Arc::new(vec![old, Val::I(ok as u64)])));
                st.top.ip += 1;
            }
            Inst::FCmp { dst, pred, ty, a, b } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let (x, y) = match (conc(&x), conc(&y)) { (Some(x), Some(y)) => (x, y), _ => return err("symbolic fcmp") };
                let (x, y) = if ty.bits() == 64 { (f64::from_bits(x as u64), f64::from_bits(y as u64)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                let un = x.is_nan() || y.is_nan();
                let r = match pred.as_str() {
                    "oeq" => x == y, "one" => !un && x != y, "olt" => x < y, "ole" => x <= y, "ogt" => x > y, "oge" => x >= y,
                    "ueq" => un || x == y, "une" => x != y, "ult" => un || x < y, "ule" => un || x <= y, "ugt" => un || x > y, "uge" => un || x >= y,
                    "ord" => !un, "uno" => un, _ => return err("fcmp"),
                };
                self.set(st, *dst, Val::I(r as u64));
                st.top.ip += 1;
            }
            Inst::FNeg { dst, ty, a } => {
                let x = self.val(st, a);
                let w = ty.bits();
                let r = bin_scalar(Bin::Xor, w, &x, &Val::I(1u64 << (w - 1))).map_err(Stop::Err)?;
                self.set(st, *dst, r);
                st.top.ip += 1;
            }
            Inst::Nop => st.top.ip += 1,
            Inst::Unreachable => {
                let w = self.where_(st);
                self.violation(st, &st.model.clone(), "unreachable", &w);
                return Err(Stop::Violated);
            }
            Inst::Unsupported(s) => return err(format!("unsupported instruction {}", s)),
        }
        Ok(())
    }

    /// load through a symbolic index into a small table, without forking
    fn table_load(&mut self, st: &mut State, e: &E, ty: &Ty) -> R<Option<Val>> {
        if e.vars.count() != 1 || !matches!(ty, Ty::Int(_)) { return Ok(None); }
        let v = e.vars.first().unwrap();
        let d = st.dom[v as usize];
        let mut m = vec![0u8; v as usize + 1];
        let mut by: Vec<(u64, Val)> = Vec::new();
        let w = ty.bits();
        for x in 0..256usize {
            if !dom_has(&d, x as u8) { continue; }
            m[v as usize] = x as u8;
            let a = eval(e, &m) as u64;
            if by.iter().any(|b| b.0 == a) { continue; }
            match st.mem.load(a, ((w + 7) / 8) as usize, w) {
                Ok(val) => by.push((a, val)),
                Err(_) => return Ok(None),
            }
        }
        if by.is_empty() { return Ok(None); }
        // group equal concrete values
        let mut groups: Vec<(Val, Vec<u64>)> = Vec::new();
        for (a, val) in by {
            if let Some(c) = conc(&val) {
                if let Some(g) = groups.iter_mut().find(|g| conc(&g.0) == Some(c)) { g.1.push(a); continue; }
            }
            groups.push((val, vec![a]));
        }
        groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
        if groups.iter().skip(1).map(|g| g.1.len()).sum::<usize>() > 128 { return Ok(None); }
        let mut r = sc(&groups[0].0, w);
        for g in &groups[1..] {
            let mut c = cst(0, 1);
            for a in &g.1 { c = or1(&c, &bin(O::Eq, e, &cst(*a as u128, 64))); }
            r = ite(&c, &sc(&g.0, w), &r);
        }
        Ok(Some(mkv(r)))
    }

    fn cast(&self, op: Cast, from: &Ty, to: &Ty, x: &Val) -> R<Val> {
        if op == Cast::Bitcast { return Ok(unflatten(&flatten(x, from), to)); }
        if op == Cast::Same { return Ok(x.clone()); }
        if let Val::A(v) = x {
            let mut r = Vec::new();
            for k in v.iter() { r.push(self.cast(op, from.elem(), to.elem(), k)?); }
            return Ok(Val::A(Arc::new(r)));
        }
        let (fw, tw) = (from.bits(), to.bits());
        if let Some(c) = conc(x) {
            return Ok(match op {
                Cast::Trunc => Val::int(mask(c, tw), tw),
                Cast::ZExt => Val::int(c, tw),
                Cast::SExt => Val::int(mask(crate::expr::sext(c, fw) as u128, tw), tw),
                Cast::UiToFp => if tw == 64 { Val::I((c as f64).to_bits()) } else { Val::I((c as f32).to_bits() as u64) },
                Cast::SiToFp => { let s = crate::expr::sext(c, fw); if tw == 64 { Val::I((s as f64).to_bits()) } else { Val::I((s as f32).to_bits() as u64) } }
                Cast::FpToUi => { let f = if fw == 64 { f64::from_bits(c as u64) } else { f32::from_bits(c as u32) as f64 }; Val::int(mask(f as u128, tw), tw) }
                Cast::FpToSi => { let f = if fw == 64 { f64::from_bits(c as u64) } else { f32::from_bits(c as u32) as f64 }; Val::int(mask(f as i128 as u128, tw), tw) }
                Cast::FpExt => Val::I((f32::from_bits(c as u32) as f64).to_bits()),
                Cast::FpTrunc => Val::I((f64::from_bits(c as u64) as f32).to_bits() as u64),
                _ => unreachable!(),
            });
        }
        let e = sc(x, fw);
        Ok(mkv(match op {
            Cast::Trunc => extract(&e, 0, tw),
            Cast::ZExt => zext(&e, tw),
            Cast::SExt => sexte(&e, tw),
            _ => return err("symbolic float conversion"),
        }))
    }

    fn call(&mut self, st: &mut State, callee: &Callee, args: &[(Ty, Op)]) -> R<()> {
        let mut fi = match callee {
            Callee::Fn(i) => *i,
            Callee::Ptr(o) => {
                let a = self.ptr(st, o)?;
                let base = obj_addr(FN_SLOT);
                if a < base || (a - base) % 16 != 0 || (a - base) / 16 >= self.p.m.funcs.len() as u64 {
                    return self.mem_err(st, format!("call through invalid function pointer {:#x}", a));
                }
                ((a - base) / 16) as u32
            }
            Callee::Asm => return err("inline asm"),
        };
        let r = self.p.redirect[fi as usize];
        if r != u32::MAX { fi = r; }
        let ext = self.p.ext[fi as usize];
        if ext == Ext::None {
            let f = &self.p.m.funcs[fi as usize];
            self.t.funcs[fi as usize] += 1;
            if self.o.trace { eprintln!("{:>4} {}", st.frames.len(), f.name); }
            let mut regs = vec![Val::I(0); f.nregs as usize];
            for (i, pr) in f.params.iter().enumerate() {
                if let Some((_, o)) = args.get(i) { regs[*pr as usize] = self.val(st, o); }
            }
            let fr = Frame { f: fi, b: 0, ip: 0, regs, allocas: vec![] };
            let old = std::mem::replace(&mut st.top, fr);
            st.frames.push(Arc::new(old));
            if st.frames.len() > 4000 { return self.mem_err(st, "call stack deeper than 4000 frames".into()); }
            return Ok(());
        }
        let vals: Vec<Val> = args.iter().map(|(_, o)| self.val(st, o)).collect();
        let v = self.external(st, ext, fi, args, &vals)?;
        self.finish_call(st, v)
    }

    fn me<T>(&mut self, st: &State, r: Result<T, String>) -> R<T> {
        match r { Ok(v) => Ok(v), Err(e) => self.mem_err(st, e) }
    }

    fn text(&mut self, st: &mut State, p: &Val, n: &Val) -> R<String> {
        let a = self.concretize(st, p, 64)?;
        let n = self.concretize(st, n, 64)?;
        let b = st.mem.bytes(a, n as usize);
        let b = self.me(st, b)?;
        Ok(String::from_utf8_lossy(&b.iter().map(|x| match x { Byte::C(c) => *c, Byte::S(e) => eval(e, &st.model) as u8 }).collect::<Vec<_>>()).to_string())
    }

    fn new_var(&mut self, st: &mut State, d: Dom) -> R<u32> {
        let v = st.model.len() as u32;
        if v as usize >= MAXVARS { return err("too many symbolic variables"); }
        st.model.push(dom_first(&d).unwrap());
        st.dom.push(d);
        Ok(v)
    }

    fn external(&mut self, st: &mut State, ext: Ext, fi: u32, args: &[(Ty, Op)], v: &[Val]) -> R<Option<Val>> {
        let ty0 = args.get(0).map(|a| a.0.clone()).unwrap_or(Ty::Void);
        let w0 = match &ty0 { Ty::Int(_) | Ty::Ptr | Ty::Float(_) => ty0.bits(), Ty::Vec(_, t) => t.bits(), _ => 0 };
        let s2 = |me: &Self, f: &dyn Fn(u32, &Val, &Val) -> Result<Val, String>| -> R<Option<Val>> { me.map2(&ty0, &v[0], &v[1], f).map(Some) };
        Ok(match ext {
            Ext::None => unreachable!(),
            Ext::Nop => None,
            Ext::Memcpy => {
                let n = self.concretize(st, &v[2], 64)?;
                let d = self.concretize(st, &v[0], 64)?;
                let s = self.concretize(st, &v[1], 64)?;
                let r = st.mem.copy(d, s, n as usize);
                self.me(st, r)?;
                Some(Val::I(d))
            }
            Ext::Memset => {
                let n = self.concretize(st, &v[2], 64)?;
                let d = self.concretize(st, &v[0], 64)?;
                for i in 0..n {
                    let r = st.mem.store(d + i, 1, &match &v[1] { Val::I(x) => Val::I(*x & 255), x => x.clone() });
                    self.me(st, r)?;
                }
                Some(Val::I(d))
            }
            Ext::Fshl | Ext::Fshr => {
                let w = w0;
                let k = match conc(&v[2]) { Some(k) => (k % w as u128) as u32, None => (self.concretize(st, &v[2], w)? % w as u64) as u32 };
                let k = if ext == Ext::Fshl { k } else { (w - k) % w };
                if k == 0 { return Ok(Some(if ext == Ext::Fshl { v[0].clone() } else { v[1].clone() })); }
                let hi = bin_scalar(Bin::Shl, w, &v[0], &Val::int(k as u128, w)).map_err(Stop::Err)?;
                let lo = bin_scalar(Bin::LShr, w, &v[1], &Val::int((w - k) as u128, w)).map_err(Stop::Err)?;
                Some(bin_scalar(Bin::Or, w, &hi, &lo).map_err(Stop::Err)?)
            }
            Ext::UMax | Ext::UMin | Ext::SMax | Ext::SMin => {
                let op = match ext { Ext::UMax => Cmp::Ugt, Ext::UMin => Cmp::Ult, Ext::SMax => Cmp::Sgt, _ => Cmp::Slt };
                return s2(self, &|w, a, b| Ok(match cmp_scalar(op, w, a, b) { Val::I(1) => a.clone(), Val::I(_) => b.clone(), c => mkv(ite(&sc(&c, 1), &sc(a, w), &sc(b, w))) }));
            }
            Ext::UCmp | Ext::SCmp => {
                let rw = match &self.p.m.funcs[fi as usize].name { n => n.split('.').nth(2).and_then(|s| s[1..].parse::<u32>().ok()).unwrap_or(8) };
                let (lt, gt) = if ext == Ext::UCmp { (Cmp::Ult, Cmp::Ugt) } else { (Cmp::Slt, Cmp::Sgt) };
                let (l, g) = (cmp_scalar(lt, w0, &v[0], &v[1]), cmp_scalar(gt, w0, &v[0], &v[1]));
                Some(mkv(ite(&sc(&l, 1), &cst(!0, rw), &ite(&sc(&g, 1), &cst(1, rw), &cst(0, rw)))))
            }
            Ext::Ctpop => match conc(&v[0]) {
                Some(c) => Some(Val::int(c.count_ones() as u128, w0)),
                None => {
                    let e = sc(&v[0], w0);
                    let mut r = cst(0, w0);
                    for i in 0..w0 { r = bin(O::Add, &r, &zext(&extract(&e, i, 1), w0)); }
                    Some(mkv(r))
                }
            },
            Ext::Cttz => match conc(&v[0]) {
                Some(c) => Some(Val::int(if c == 0 { w0 as u128 } else { c.trailing_zeros() as u128 }, w0)),
                None => {
                    let e = sc(&v[0], w0);
                    let mut r = cst(w0 as u128, w0);
                    for i in (0..w0).rev() { r = ite(&extract(&e, i, 1), &cst(i as u128, w0), &r); }
                    Some(mkv(r))
                }
            },
            Ext::Ctlz => match conc(&v[0]) {
                Some(c) => Some(Val::int(if c == 0 { w0 as u128 } else { (c.leading_zeros() - (128 - w0)) as u128 }, w0)),
                None => {
                    let e = sc(&v[0], w0);
                    let mut r = cst(w0 as u128, w0);
                    for i in 0..w0 { r = ite(&extract(&e, i, 1), &cst((w0 - 1 - i) as u128, w0), &r); }
                    Some(mkv(r))
                }
            },
            Ext::Ovf(o, signed) => {
                let w = w0;
                let bop = match o { O3::Add => O::Add, O3::Sub => O::Sub, O3::Mul => O::Mul };
                if let (Some(a), Some(b)) = (conc(&v[0]), conc(&v[1])) {
                    let r = fold(bop, a, b, w);
                    let ov = if signed {
                        let (x, y) = (crate::expr::sext(a, w), crate::expr::sext(b, w));
                        let t = match o { O3::Add => x.checked_add(y), O3::Sub => x.checked_sub(y), O3::Mul => x.checked_mul(y) };
                        match t { None => true, Some(t) => t != crate::expr::sext(r, w) }
                    } else {
                        match o { O3::Add => a.checked_add(b).map_or(true, |t| t != r), O3::Sub => b > a, O3::Mul => a.checked_mul(b).map_or(true, |t| t != r) }
                    };
                    return Ok(Some(Val::A(Arc::new(vec![Val::int(r, w), Val::I(ov as u64)]))));
                }
                if w > 64 { return err("symbolic overflow op wider than 64"); }
                let (a, b) = (sc(&v[0], w), sc(&v[1], w));
                let r = bin(bop, &a, &b);
                let ov = match (o, signed) {
                    (O3::Add, false) => bin(O::Ult, &r, &a),
                    (O3::Sub, false) => bin(O::Ult, &a, &b),
                    _ => {
                        let (x, y) = if signed { (sexte(&a, 2 * w), sexte(&b, 2 * w)) } else { (zext(&a, 2 * w), zext(&b, 2 * w)) };
                        let full = bin(bop, &x, &y);
                        let back = if signed { sexte(&r, 2 * w) } else { zext(&r, 2 * w) };
                        not(&bin(O::Eq, &full, &back))
                    }
                };
                // unsigned add of small zero-extended pieces: exact form avoids wrap reasoning
                let ov = if o == O3::Add && !signed { let full = bin(O::Add, &zext(&a, w + 1), &zext(&b, w + 1)); let _ = ov; extract(&full, w, 1) } else { ov };
                Some(Val::A(Arc::new(vec![mkv(r), mkv(ov)])))
            }
            Ext::USubSat => return s2(self, &|w, a, b| {
                let r = bin_scalar(Bin::Sub, w, a, b)?;
                Ok(match cmp_scalar(Cmp::Ult, w, a, b) { Val::I(1) => Val::int(0, w), Val::I(_) => r, c => mkv(ite(&sc(&c, 1), &cst(0, w), &sc(&r, w))) })
            }),
            Ext::UAddSat => return s2(self, &|w, a, b| {
                let r = bin_scalar(Bin::Add, w, a, b)?;
                Ok(match cmp_scalar(Cmp::Ult, w, &r, a) { Val::I(1) => Val::int(mask(!0, w), w), Val::I(_) => r, c => mkv(ite(&sc(&c, 1), &cst(!0, w), &sc(&r, w))) })
            }),
            Ext::SSubSat | Ext::SAddSat => {
                let f = |w: u32, a: &Val, b: &Val| -> Result<Val, String> {
                    match (conc(a), conc(b)) {
                        (Some(a), Some(b)) => {
                            let (x, y) = (crate::expr::sext(a, w), crate::expr::sext(b, w));
                            let t = if ext == Ext::SAddSat { x + y } else { x - y };
                            let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                            Ok(Val::int(mask(t.max(lo).min(hi) as u128, w), w))
                        }
                        _ => Err("symbolic signed saturation".into()),
                    }
                };
                return s2(self, &f);
            }
            Ext::Trap => { let w = self.where_(st); self.violation(st, &st.model.clone(), "trap", &w); return Err(Stop::Violated); }
            Ext::TlsAddr | Ext::Expect => Some(v[0].clone()),
            Ext::Const0 => Some(Val::I(0)),
            Ext::PtrMask => Some(bin_scalar(Bin::And, 64, &v[0], &v[1]).map_err(Stop::Err)?),
            Ext::BSwap => {
                let n = w0 / 8;
                match conc(&v[0]) {
                    Some(c) => { let mut r = 0u128; for i in 0..n { r = (r << 8) | ((c >> (8 * i)) & 255); } Some(Val::int(r, w0)) }
                    None => { let e = sc(&v[0], w0); let mut r = extract(&e, 0, 8); for i in 1..n { r = concat(&r, &extract(&e, i * 8, 8)); } Some(mkv(r)) }
                }
            }
            Ext::BitRev => match conc(&v[0]) { Some(c) => Some(Val::int(c.reverse_bits() >> (128 - w0), w0)), None => return err("symbolic bitreverse") },
            Ext::Abs => match conc(&v[0]) { Some(c) => Some(Val::int(mask(crate::expr::sext(c, w0).wrapping_abs() as u128, w0), w0)), None => {
                let e = sc(&v[0], w0);
                let neg = bin(O::Sub, &cst(0, w0), &e);
                Some(mkv(ite(&extract(&e, w0 - 1, 1), &neg, &e)))
            } },
            Ext::ReduceOr | Ext::ReduceAnd | Ext::ReduceAdd => {
                let op = match ext { Ext::ReduceOr => Bin::Or, Ext::ReduceAnd => Bin::And, _ => Bin::Add };
                if let Val::A(x) = &v[0] {
                    let mut r = x[0].clone();
                    for y in x.iter().skip(1) { r = bin_scalar(op, w0, &r, y).map_err(Stop::Err)?; }
                    Some(r)
                } else { return err("reduce") }
            }
            Ext::Alloc | Ext::AllocZeroed | Ext::Malloc => {
                let n = self.concretize(st, &v[0], 64)?;
                if n > 1 << 28 { return err(format!("allocation of {} bytes", n)); }
                Some(Val::I(st.mem.alloc(n)))
            }
            Ext::Dealloc | Ext::Free => {
                let a = self.concretize(st, &v[0], 64)?;
                if a != 0 { let r = st.mem.free(a); self.me(st, r)?; }
                None
            }
            Ext::Realloc => {
                let a = self.concretize(st, &v[0], 64)?;
                let old = self.concretize(st, &v[1], 64)?;
                let new = self.concretize(st, &v[3], 64)?;
                if new > 1 << 28 { return err(format!("allocation of {} bytes", new)); }
                let b = st.mem.alloc(new);
                let r = st.mem.copy(b, a, old.min(new) as usize);
                self.me(st, r)?;
                let r = st.mem.free(a);
                self.me(st, r)?;
                Some(Val::I(b))
            }
            Ext::Bcmp | Ext::Memcmp => {
                let n = self.concretize(st, &v[2], 64)? as usize;
                let a = self.concretize(st, &v[0], 64)?;
                let b = self.concretize(st, &v[1], 64)?;
                let x = st.mem.bytes(a, n);
                let x = self.me(st, x)?;
                let y = st.mem.bytes(b, n);
                let y = self.me(st, y)?;
                if ext == Ext::Bcmp {
                    let mut c = cst(1, 1);
                    for i in 0..n {
                        match (&x[i], &y[i]) {
                            (Byte::C(p), Byte::C(q)) => if p != q { return Ok(Some(Val::I(1))); },
                            (p, q) => c = and1(&c, &bin(O::Eq, &b2e(p), &b2e(q))),
                        }
                    }
                    Some(mkv(ite(&c, &cst(0, 32), &cst(1, 32))))
                } else {
                    let mut r = cst(0, 32);
                    for i in (0..n).rev() {
                        match (&x[i], &y[i]) {
                            (Byte::C(p), Byte::C(q)) => if p < q { r = cst(!0, 32) } else if p > q { r = cst(1, 32) },
                            (p, q) => {
                                let (p, q) = (b2e(p), b2e(q));
                                r = ite(&bin(O::Eq, &p, &q), &r, &ite(&bin(O::Ult, &p, &q), &cst(!0, 32), &cst(1, 32)));
                            }
                        }
                    }
                    Some(mkv(r))
                }
            }
            Ext::Strlen => {
                let a = self.concretize(st, &v[0], 64)?;
                let mut i = 0;
                loop {
                    let b = st.mem.load(a + i, 1, 8);
                    let b = self.me(st, b)?;
                    let z = cmp_scalar(Cmp::Eq, 8, &b, &Val::I(0));
                    let zero = match &z { Val::I(x) => *x == 1, Val::S(e) => { let e = e.clone(); self.decide_here(st, &e)? } _ => false };
                    if zero { break; }
                    i += 1;
                }
                Some(Val::I(i))
            }
            Ext::Panic => {
                // last pointer argument is the Location { file: (ptr, len), line, col }
                let mut loc = String::from("?");
                if let Some(a) = v.last().and_then(conc) {
                    let a = a as u64;
                    if let (Ok(Val::I(p)), Ok(Val::I(n)), Ok(Val::I(l))) = (st.mem.load(a, 8, 64), st.mem.load(a + 8, 8, 64), st.mem.load(a + 16, 4, 32)) {
                        if n < 4096 {
                            if let Ok(b) = st.mem.bytes(p, n as usize) {
                                loc = format!("{}:{}", String::from_utf8_lossy(&b.iter().map(|x| if let Byte::C(c) = x { *c } else { b'?' }).collect::<Vec<_>>()), l);
                            }
                        }
                    }
                }
                let w = self.where_(st);
                self.violation(st, &st.model.clone(), "panic", &format!("panic at {} in {}", loc, w));
                return Err(Stop::Violated);
            }
            Ext::PanicMsg => {
                let w = self.where_(st);
                let n = &self.p.m.funcs[fi as usize].name;
                self.violation(st, &st.model.clone(), "panic", &format!("abort through {} in {}", n, w));
                return Err(Stop::Violated);
            }
            Ext::Errno => Some(Val::I(obj_addr(self.p.errno_slot))),
            Ext::ClockGettime => {
                let a = self.concretize(st, &v[1], 64)?;
                let now = st.now;
                st.now += 1_000_003;
                let r = st.mem.store(a, 8, &Val::I(now));
                self.me(st, r)?;
                let r = st.mem.store(a + 8, 8, &Val::I(0));
                self.me(st, r)?;
                Some(Val::I(0))
            }
            Ext::GetRandom => {
                let a = self.concretize(st, &v[0], 64)?;
                let n = self.concretize(st, &v[1], 64)?;
                for i in 0..n { let r = st.mem.store(a + i, 1, &Val::I((i * 37 + 11) & 255)); self.me(st, r)?; }
                Some(Val::I(n))
            }
            Ext::Syscall => {
                // getrandom(318)
                if conc(&v[0]) == Some(318) {
                    let a = self.concretize(st, &v[1], 64)?;
                    let n = self.concretize(st, &v[2], 64)?;
                    for i in 0..n { let r = st.mem.store(a + i, 1, &Val::I((i * 37 + 11) & 255)); self.me(st, r)?; }
                    Some(Val::I(n))
                } else { return err(format!("syscall {:?}", v[0])); }
            }
            Ext::Ret0 | Ext::Pthread0 => Some(Val::I(0)),
            Ext::RetM1 => Some(Val::I(!0)),
            Ext::HashOne(k) => {
                let (p, n) = if k == 1 {
                    (self.concretize(st, &v[1], 64)?, self.concretize(st, &v[2], 64)?)
                } else {
                    let mut a = self.concretize(st, &v[1], 64)?;
                    let lv = if k >= 100 { k - 100 } else { k - 1 };
                    for _ in 1..lv {
                        let x = st.mem.load(a, 8, 64);
                        let x = self.me(st, x)?;
                        a = self.concretize(st, &x, 64)?;
                    }
                    if k >= 100 {
                        let mut w = [0u64; 3];
                        for i in 0..3 { let x = st.mem.load(a + 8 * i as u64, 8, 64); let x = self.me(st, x)?; w[i] = self.concretize(st, &x, 64)?; }
                        // {cap, ptr, len} in some order: len is last, ptr is the valid address
                        let p = if w[0] >> 32 != 0 { w[0] } else { w[1] };
                        (p, w[2])
                    } else {
                        let x = st.mem.load(a, 8, 64);
                        let x = self.me(st, x)?;
                        let y = st.mem.load(a + 8, 8, 64);
                        let y = self.me(st, y)?;
                        (self.concretize(st, &x, 64)?, self.concretize(st, &y, 64)?)
                    }
                };
                let b = st.mem.bytes(p, n as usize);
                let b = self.me(st, b)?;
                Some(Val::I(self.hash(st, b)?))
            }
            Ext::SxBytes => {
                let a = self.concretize(st, &v[0], 64)?;
                let n = self.concretize(st, &v[1], 64)?;
                let l = self.text(st, &v[2], &v[3])?;
                let first = st.model.len() as u32;
                if let Some(s) = &self.o.script {
                    let k = st.script;
                    st.script += 1;
                    for i in 0..n { let r = st.mem.store(a + i, 1, &Val::I(s[k][i as usize] as u64)); self.me(st, r)?; }
                    return Ok(None);
                }
                for i in 0..n {
                    let x = self.new_var(st, FULL)?;
                    let r = st.mem.store(a + i, 1, &Val::S(var(x, 8)));
                    self.me(st, r)?;
                }
                st.inputs.push(Input { label: l.into(), first, n: n as u32, kind: 0 });
                None
            }
            Ext::SxChoice => {
                let n = self.concretize(st, &v[0], 32)?;
                let l = self.text(st, &v[1], &v[2])?;
                if n == 0 || n > 256 { return err("sx_choice bound"); }
                if let Some(s) = &self.o.script {
                    let k = st.script;
                    st.script += 1;
                    return Ok(Some(Val::I(s[k][0] as u64)));
                }
                let mut d = [0u64; 4];
                for i in 0..n as usize { d[i / 64] |= 1 << (i % 64); }
                let first = st.model.len() as u32;
                let x = self.new_var(st, d)?;
                st.inputs.push(Input { label: l.into(), first, n: 1, kind: 1 });
                if n == 1 { return Ok(Some(Val::I(0))); }
                Some(Val::S(zext(&var(x, 8), 32)))
            }
            Ext::SxConc => Some(Val::I(self.concretize(st, &v[0], 32)?)),
            Ext::SxIsSym => Some(Val::I(matches!(v[0], Val::S(_)) as u64)),
            Ext::SxSelect => {
                // sx_select(c: bool, a: u64, b: u64) -> u64 without forking
                Some(mkv(ite(&sc(&v[0], 1), &sc(&v[1], 64), &sc(&v[2], 64))))
            }
            Ext::SxAssume => {
                let c = sc(&v[0], 1);
                if let Some(k) = as_const(&c) { return if k == 1 { Ok(None) } else { Err(Stop::Dead) }; }
                match self.feasible(st, &c)? {
                    None => return Err(Stop::Dead),
                    Some(m) => { st.model = m; self.assert(st, &c); }
                }
                None
            }
            Ext::SxCheck => {
                let c = sc(&v[0], 1);
                self.t.checks += 1;
                match as_const(&c) {
                    Some(1) => { self.t.checks_const += 1; None }
                    Some(_) => {
                        let sig = self.text(st, &v[1], &v[2])?;
                        let w = self.where_(st);
                        self.violation(st, &st.model.clone(), &sig, &w);
                        return Err(Stop::Violated);
                    }
                    None => {
                        let sig = self.text(st, &v[1], &v[2])?;
                        self.t.checks_smt += 1;
                        let nc = not(&c);
                        if let Some(m) = self.smt(st, &nc)? {
                            let w = self.where_(st);
                            self.violation(st, &m, &sig, &w);
                            // go on with the passing side, if any
                            match self.smt(st, &c)? {
                                None => return Err(Stop::Violated),
                                Some(m) => { st.model = m; self.assert(st, &c); }
                            }
                        }
                        None
                    }
                }
            }
            Ext::SxFail => {
                let sig = self.text(st, &v[0], &v[1])?;
                let w = self.where_(st);
                self.violation(st, &st.model.clone(), &sig, &w);
                return Err(Stop::Violated);
            }
            Ext::SxReach => {
                let k = self.concretize(st, &v[0], 32)?;
                st.reach |= 1 << (k & 63);
                None
            }
            Ext::SxParam => {
                let k = self.concretize(st, &v[0], 32)? as usize;
                Some(Val::I(*self.o.params.get(k).unwrap_or(&0)))
            }
            Ext::SxOrder => { st.order = self.concretize(st, &v[0], 32)? as u32; None }
            Ext::SxEpoch => { st.epoch = self.concretize(st, &v[0], 32)? as u32; None }
            Ext::SxOut => {
                let a = self.concretize(st, &v[0], 64)?;
                let n = self.concretize(st, &v[1], 64)?;
                let b = st.mem.bytes(a, n as usize);
                let b = self.me(st, b)?;
                st.outs.push(Arc::new(b));
                None
            }
            Ext::SxLog => {
                let s = self.text(st, &v[0], &v[1])?;
                eprintln!("LOG {}", s);
                None
            }
            Ext::SxNative => Some(Val::I(0)),
            Ext::SxDone => return Err(Stop::Done),
            Ext::Unknown => return err(format!("unmodelled external function {}", self.p.m.funcs[fi as usize].name)),
        })
    }

    /// Hash oracle: equal strings get equal hashes; the placement of registered keys is an input.
    fn hash(&mut self, st: &mut State, b: Vec<Byte>) -> R<u64> {
        let n = b.len();
        let epoch = st.epoch;
        let mut found = None;
        for (i, k) in st.keys.clone().iter().enumerate() {
            if k.epoch != epoch || k.bytes.len() != n { continue; }
            let mut c = cst(1, 1);
            let mut no = false;
            for j in 0..n {
                match (&k.bytes[j], &b[j]) {
                    (Byte::C(p), Byte::C(q)) => if p != q { no = true; break; },
                    (p, q) => c = and1(&c, &bin(O::Eq, &b2e(p), &b2e(q))),
                }
            }
            if no { continue; }
            let eq = match as_const(&c) { Some(k) => k == 1, None => self.decide_here(st, &c)? };
            if eq { found = Some(i); break; }
        }
        if let Some(i) = found { return Ok(st.keys[i].hash); }
        // a new key
        let upper = match b.get(0) {
            Some(Byte::C(c)) => c.is_ascii_uppercase(),
            Some(Byte::S(e)) => e.vars.iter().all(|v| { let d = &st.dom[v as usize]; (0..256).all(|x| !dom_has(d, x as u8) || (x as u8).is_ascii_uppercase()) }),
            None => false,
        };
        let (hash, rank);
        if st.order > 0 && upper {
            let used: Vec<i32> = st.keys.iter().filter(|k| k.epoch == epoch && k.rank >= 0).map(|k| k.rank).collect();
            let mut d = [0u64; 4];
            let mut cnt = 0;
            for r in 0..st.order as i32 { if !used.contains(&r) { d[0] |= 1 << r; cnt += 1; } }
            if cnt == 0 { return err("more ordered keys than order slots"); }
            // fork over the remaining ranks; every alternative re-executes with its rank preset
            let mut ranks: Vec<i32> = (0..st.order as i32).filter(|r| d[0] >> r & 1 == 1).collect();
            let first = ranks.remove(0);
            for r in ranks {
                let mut s = self.fork(st);
                s.keys.push(KeyEnt { epoch, bytes: Arc::new(b.clone()), hash: Self::rank_hash(r), rank: r });
                s.inputs.push(Input { label: format!("order{}", r).into(), first: 0, n: 0, kind: 2 });
                self.push(s);
            }
            rank = first;
            hash = Self::rank_hash(first);
            st.inputs.push(Input { label: format!("order{}", first).into(), first: 0, n: 0, kind: 2 });
        } else {
            let mut h: u64 = 0xcbf29ce484222325;
            let mut allc = true;
            for x in &b { match x { Byte::C(c) => h = (h ^ *c as u64).wrapping_mul(0x100000001b3), _ => allc = false } }
            if !allc { h = (st.keys.len() as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15); }
            h ^= h >> 29;
            hash = (h & !15) | 8 | (h & 7);
            rank = -1;
        }
        st.keys.push(KeyEnt { epoch, bytes: Arc::new(b), hash, rank });
        Ok(hash)
    }
    fn rank_hash(r: i32) -> u64 { (r as u64) | ((r as u64 + 3) << 57) | ((r as u64) << 20) }
}

fn insert(x: &Val, y: &Val, idx: &[u32]) -> Result<Val, String> {
    if idx.is_empty() { return Ok(y.clone()); }
    match x {
        Val::A(v) => {
            let mut n = (**v).clone();
            let i = idx[0] as usize;
            if i >= n.len() { return Err("insert index".into()); }
            n[i] = insert(&n[i], y, &idx[1..])?;
            Ok(Val::A(Arc::new(n)))
        }
        _ => Err("insert into scalar".into()),
    }
}

pub fn hex_digest(b: &[Byte], m: &[u8]) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        let c = match x { Byte::C(c) => *c, Byte::S(e) => eval(e, m) as u8 };
        h = (h ^ c as u64).wrapping_mul(0x100000001b3);
    }
    format!("{:016x}:{}", h, b.len())
}
