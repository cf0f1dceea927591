//! Case runner: depth-first symbolic execution of a harness over `Sym`,
//! discharge of its assertions, and native (f64) replay of counterexamples.
use crate::arena::*;
use crate::num::Sym;
use crate::path::*;
use crate::smt::*;
use num_traits::{Float, FloatConst, ToPrimitive, Zero};
use serde_json::{json, Value};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub trait Scalar:
    Float + simba::scalar::RealField + FloatConst + rustfft::FftNum + std::iter::Sum + for<'a> std::iter::Sum<&'a Self> + Default + num_traits::NumAssign
{
    const SYM: bool;
    /// the element type of integer signals
    type W: crate::whole::Whole<Self>;
    fn k(x: f64) -> Self;
    fn var(cx: &mut Cx, name: &str, lo: f64, hi: f64) -> Self;
    fn eq_assert(cx: &mut Cx, label: &str, a: Self, b: Self);
    fn fin(self) -> bool;
    /// the symbolic value, when running symbolically
    fn sym(self) -> Option<Sym>;
    fn of_sym(x: Sym) -> Self;
    /// the value of a native scalar
    fn f64v(self) -> f64;
}
impl Scalar for f64 {
    const SYM: bool = false;
    type W = i64;
    fn k(x: f64) -> f64 { x }
    fn fin(self) -> bool { self.is_finite() }
    fn sym(self) -> Option<Sym> { None }
    fn of_sym(_: Sym) -> f64 { unreachable!() }
    fn f64v(self) -> f64 { self }
    fn var(cx: &mut Cx, name: &str, lo: f64, hi: f64) -> f64 {
        cx.vars.entry(name.to_string()).or_insert((lo, hi));
        let v = match cx.vals.get(name) {
            Some(v) if v.is_finite() => v.clamp(lo, hi),
            _ => cx.rng.draw(lo, hi),
        };
        cx.vals.insert(name.to_string(), v);
        v
    }
    fn eq_assert(cx: &mut Cx, label: &str, a: f64, b: f64) {
        cx.asserts += 1;
        for v in [a, b] {
            if v.is_finite() && v.abs() > cx.scale {
                cx.scale = v.abs();
            }
        }
        if !native_close(a, b, cx.tol) {
            let mut m = HashMap::new();
            if (a - b).is_finite() {
                m.insert("#diff".to_string(), (a - b).abs());
            }
            cx.fails.push(Fail { label: label.into(), detail: format!("{a:?} != {b:?}"), model: m, certain: true });
        }
    }
}
pub fn native_close(a: f64, b: f64, tol: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a.is_infinite() || b.is_infinite() {
        return a == b;
    }
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
impl Scalar for Sym {
    const SYM: bool = true;
    type W = crate::whole::I;
    fn sym(self) -> Option<Sym> { Some(self) }
    fn of_sym(x: Sym) -> Sym { x }
    fn f64v(self) -> f64 { unreachable!() }
    fn k(x: f64) -> Sym { Sym::C(x) }
    fn fin(self) -> bool { Float::is_finite(self) }
    fn var(cx: &mut Cx, name: &str, lo: f64, hi: f64) -> Sym {
        cx.vars.entry(name.to_string()).or_insert((lo, hi));
        Sym::T(with(|a| a.var(name, lo, hi)))
    }
    fn eq_assert(cx: &mut Cx, label: &str, a: Sym, b: Sym) {
        cx.asserts += 1;
        cx.pending.push((label.to_string(), a, b));
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub label: String,
    pub detail: String,
    pub model: HashMap<String, f64>,
    pub certain: bool,
}

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    fn draw(&mut self, lo: f64, hi: f64) -> f64 {
        let r = self.next() % 16;
        let x = match r {
            0 => 0.0,
            1 => 1.0,
            2 => -1.0,
            3 => lo,
            4 => hi,
            5 | 6 => (lo + self.unit() * (hi - lo)).round(),
            7 => 0.5,
            _ => lo + self.unit() * (hi - lo),
        };
        x.clamp(lo, hi)
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub completed: u64,
    pub infeasible: u64,
    pub asserts: u64,
    pub exact: u64,
    pub concrete: u64,
    pub weighted: u64,
    pub nra: u64,
    pub decisions: u64,
    pub box_decided: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_s: f64,
    pub max_query_s: f64,
    pub nf_ok: u64,
    pub raw_ok: u64,
    pub raw_unknown: u64,
    pub div_assumed: u64,
    pub witness: u64,
    pub native_checks: u64,
}

pub struct Cx {
    pub vars: BTreeMap<String, (f64, f64)>,
    pub vals: HashMap<String, f64>,
    pub rng: Rng,
    pub fails: Vec<Fail>,
    pub asserts: u64,
    pub tol: f64,
    /// largest magnitude compared so far (native runs): differences below its rounding level are not failures
    pub scale: f64,
    pub pending: Vec<(String, Sym, Sym)>,
    pub sym: bool,
    pub last_panic: String,
    pub calls: std::collections::BTreeSet<String>,
    /// signals are scaled by two to this power
    pub pow: i32,
}
impl Cx {
    fn new(sym: bool, seed: u64) -> Cx {
        Cx { vars: BTreeMap::new(), vals: HashMap::new(), rng: Rng::new(seed), fails: vec![], asserts: 0, tol: 1e-6, scale: 0.0, pending: vec![], sym, last_panic: String::new(), calls: Default::default(), pow: 0 }
    }
    /// the scale of signals in this case
    pub fn up<S: Scalar>(&self) -> S {
        S::k(2f64.powi(self.pow))
    }
    pub fn sig<S: Scalar>(&mut self, name: &str, n: usize, lo: f64, hi: f64) -> Vec<S> {
        let u: S = self.up();
        self.vars::<S>(name, n, lo, hi).into_iter().map(|v| if self.pow == 0 { v } else { v * u }).collect()
    }
    /// compare quantities of degree d in the signal
    pub fn deg<S: Scalar>(&mut self, label: &str, a: S, b: S, d: i32) {
        if self.pow == 0 || d == 0 {
            return S::eq_assert(self, label, a, b);
        }
        let f = S::k(2f64.powi(-self.pow * d));
        S::eq_assert(self, label, a * f, b * f)
    }
    pub fn lin<S: Scalar>(&mut self, label: &str, a: S, b: S) {
        self.deg(label, a, b, 1)
    }
    pub fn lins<S: Scalar>(&mut self, label: &str, a: &[S], b: &[S]) {
        self.degs(label, a, b, 1)
    }
    pub fn degs<S: Scalar>(&mut self, label: &str, a: &[S], b: &[S], d: i32) {
        if !self.check(&format!("{label}.len"), a.len() == b.len()) {
            return;
        }
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            self.deg(&format!("{label}[{i}]"), *x, *y, d);
        }
    }
    pub fn var<S: Scalar>(&mut self, name: &str, lo: f64, hi: f64) -> S {
        S::var(self, name, lo, hi)
    }
    pub fn vars<S: Scalar>(&mut self, name: &str, n: usize, lo: f64, hi: f64) -> Vec<S> {
        (0..n).map(|i| S::var(self, &format!("{name}{i}"), lo, hi)).collect()
    }
    pub fn assume(&mut self, c: bool) {
        if !c {
            throw(Abort::Infeasible);
        }
    }
    pub fn eq<S: Scalar>(&mut self, label: &str, a: S, b: S) {
        S::eq_assert(self, label, a, b)
    }
    /// equal, and natively equal within a relative error
    pub fn rel<S: Scalar>(&mut self, label: &str, a: S, b: S, rtol: f64) {
        if S::SYM {
            return S::eq_assert(self, label, a, b);
        }
        self.asserts += 1;
        let (x, y) = (a.f64v(), b.f64v());
        for v in [x, y] {
            if v.is_finite() && v.abs() > self.scale {
                self.scale = v.abs();
            }
        }
        if !((x - y).abs() <= rtol * x.abs().max(y.abs())) {
            self.fails.push(Fail { label: label.into(), detail: format!("{x:?} != {y:?} relative to their size"), model: HashMap::new(), certain: true });
        }
    }
    /// |a - b| <= tol
    pub fn near<S: Scalar>(&mut self, label: &str, a: S, b: S, tol: f64) {
        self.asserts += 1;
        let (Some(x), Some(y)) = (a.sym(), b.sym()) else {
            let (x, y) = (a.f64v(), b.f64v());
            if !((x - y).abs() <= tol) {
                self.fails.push(Fail { label: label.into(), detail: format!("{x:?} != {y:?}"), model: HashMap::new(), certain: true });
            }
            return;
        };
        match hunted(|| near_decide(x, y, tol)) {
            EqRes::Bad(m, d) => {
                let certain = !m.is_empty();
                self.fails.push(Fail { label: label.into(), detail: d, model: m, certain })
            }
            EqRes::Unknown(d) => self.fails.push(Fail { label: label.into(), detail: d, model: HashMap::new(), certain: false }),
            _ => {}
        }
    }
    pub fn eqs<S: Scalar>(&mut self, label: &str, a: &[S], b: &[S]) {
        if !self.check(&format!("{label}.len"), a.len() == b.len()) {
            return;
        }
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            S::eq_assert(self, &format!("{label}[{i}]"), *x, *y);
        }
    }
    pub fn finite<S: Scalar>(&mut self, label: &str, a: S) {
        let ok = a.fin();
        self.check(label, ok);
    }
    /// boolean obligation (the condition itself forks when symbolic)
    pub fn check(&mut self, label: &str, c: bool) -> bool {
        self.asserts += 1;
        if !c {
            if self.sym {
                match hunted(|| query(&[], 8000)) {
                    Res::Unsat => throw(Abort::Infeasible),
                    Res::Sat(m) => {
                        let md = var_model(&m);
                        self.fails.push(Fail { label: label.into(), detail: "assertion false on this path".into(), model: md, certain: true });
                    }
                    Res::Unknown(w) => self.fails.push(Fail { label: label.into(), detail: format!("assertion false; path condition undecided ({w})"), model: HashMap::new(), certain: false }),
                }
            } else {
                self.fails.push(Fail { label: label.into(), detail: "assertion false".into(), model: HashMap::new(), certain: true });
            }
        }
        c
    }
    /// run code that may panic; engine aborts pass through
    pub fn catch<R>(&mut self, f: impl FnOnce() -> R) -> Option<R> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(e) => {
                if e.is::<Abort>() {
                    std::panic::resume_unwind(e);
                }
                self.last_panic = payload(&e);
                None
            }
        }
    }
    pub fn must_panic<R>(&mut self, label: &str, f: impl FnOnce() -> R) {
        let r = self.catch(f).is_none();
        self.check(label, r);
    }
    pub fn fork_div(&mut self) {
        if self.sym {
            path(|p| p.fork_div = true);
        }
    }
    pub fn free_explore(&mut self) {
        if self.sym {
            path(|p| p.free_explore = true);
        }
    }
}
fn hunted<R>(f: impl FnOnce() -> R) -> R {
    HUNT.with(|h| h.set(true));
    let r = f();
    HUNT.with(|h| h.set(false));
    r
}
pub fn payload(e: &Box<dyn Any + Send>) -> String {
    let loc = LAST_LOC.with(|l| l.borrow().clone());
    if let Some(s) = e.downcast_ref::<&str>() {
        format!("{s} at {loc}")
    } else if let Some(s) = e.downcast_ref::<String>() {
        format!("{s} at {loc}")
    } else {
        format!("panic at {loc}")
    }
}
thread_local! { pub static LAST_LOC: RefCell<String> = RefCell::new(String::new()); }

fn var_model(m: &HashMap<String, f64>) -> HashMap<String, f64> {
    let env = sat_env(m);
    with(|a| {
        let mut out = HashMap::new();
        for (i, x) in a.atoms.iter().enumerate() {
            if let AtomKey::Var(n) = &x.key {
                if let Some(v) = env.get(&(i as u32)) {
                    out.insert(n.clone(), *v);
                }
            }
        }
        out
    })
}

pub trait Harness: Send + Sync + 'static {
    fn run<S: Scalar>(&self, cx: &mut Cx);
}
pub struct Case {
    pub name: String,
    pub sym: Box<dyn Fn(&mut Cx) + Send + Sync>,
    pub nat: Box<dyn Fn(&mut Cx) + Send + Sync>,
    pub max_paths: u64,
    pub case_s: f64,
    pub native_tol: f64,
    pub validate: u32,
    /// deeper-bound case: when it cannot be decided the stated bound shrinks, the check does not fail
    pub extra: bool,
    pub pow: i32,
}
impl Case {
    pub fn new<H: Harness>(name: impl Into<String>, h: H) -> Case {
        let h = Arc::new(h);
        let h2 = h.clone();
        Case {
            name: name.into(),
            sym: Box::new(move |cx| h.run::<Sym>(cx)),
            nat: Box::new(move |cx| h2.run::<f64>(cx)),
            max_paths: 20000,
            case_s: 120.0,
            native_tol: 1e-6,
            validate: 4,
            extra: false,
            pow: 0,
        }
    }
    pub fn paths(mut self, n: u64) -> Case { self.max_paths = n; self }
    pub fn secs(mut self, s: f64) -> Case { self.case_s = s; self }
    pub fn tol(mut self, t: f64) -> Case { self.native_tol = t; self }
    /// signals scaled by two to the power p
    pub fn scaled(mut self, p: i32) -> Case { self.name = format!("{} scale=2^{p}", self.name); self.pow = p; self }
    pub fn extra(mut self) -> Case { self.extra = true; self }
    pub fn validate(mut self, t: u32) -> Case { self.validate = t; self }
}

#[derive(Clone)]
pub enum Native {
    Pass,
    Skipped,
    Fail(Vec<Fail>, HashMap<String, f64>),
}
/// what each worker is doing, for the watchdog: case, native input in use (or none), since when
pub struct Doing {
    case: String,
    native: Option<(HashMap<String, f64>, u64)>,
    since: Instant,
    asked: bool,
}
static DOING: Mutex<Vec<(std::thread::ThreadId, Doing)>> = Mutex::new(Vec::new());
fn doing(case: &str, native: Option<(HashMap<String, f64>, u64)>) {
    let id = std::thread::current().id();
    let d = Doing { case: case.into(), native, since: Instant::now(), asked: false };
    let mut g = DOING.lock().unwrap_or_else(|e| e.into_inner());
    match g.iter_mut().find(|x| x.0 == id) {
        Some(x) => x.1 = d,
        None => g.push((id, d)),
    }
}
fn idle() {
    let id = std::thread::current().id();
    DOING.lock().unwrap_or_else(|e| e.into_inner()).retain(|x| x.0 != id);
}
/// run one concrete input of a case in a process of its own: true if it does not end or dies
fn hangs(property: &str, case: &str, vals: &HashMap<String, f64>, seed: u64, secs: u64) -> Option<&'static str> {
    use std::process::{Command, Stdio};
    let f = std::env::temp_dir().join(format!("vp_{}_{}_{}.json", property, std::process::id(), seed));
    std::fs::write(&f, json!({"case": case, "seed": seed, "input": vals}).to_string()).ok()?;
    let mut ch = Command::new(std::env::current_exe().ok()?).arg("--replay").arg(&f).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
    let end = Instant::now() + Duration::from_secs(secs);
    let r = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break if s.code().is_none() { Some("ends the process") } else { None },
            Ok(None) if Instant::now() > end => {
                let _ = ch.kill();
                let _ = ch.wait();
                break Some("does not return");
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(20)),
            Err(_) => break None,
        }
    };
    let _ = std::fs::remove_file(&f);
    r
}
const HANG_S: u64 = 30;
/// a worker that sits in one concrete run, or in one case for long, is looked at: the same input in
/// a process of its own has to return
fn watch(property: &str) -> Option<Outcome> {
    let mut ask: Vec<(String, Vec<(HashMap<String, f64>, u64)>)> = vec![];
    for (_, d) in DOING.lock().unwrap_or_else(|e| e.into_inner()).iter_mut() {
        let e = d.since.elapsed().as_secs();
        if !d.asked && e > if d.native.is_some() { HANG_S } else { 2 * HANG_S } {
            d.asked = true;
            ask.push((d.case.clone(), match &d.native { Some(n) => vec![n.clone()], None => (1..=3).map(|k| (HashMap::new(), k)).collect() }));
        }
    }
    for (case, ins) in ask {
        for (vals, seed) in ins {
            if let Some(how) = hangs(property, &case, &vals, seed, HANG_S) {
                let mut input = vals.clone();
                input.insert("#seed".into(), seed as f64);
                return Some(Outcome { name: case, status: "violation", note: format!("a concrete run {how} (limit {HANG_S} s)"), label: "termination".into(), input, stats: Stats::default(), secs: 0.0, nvars: 0 });
            }
        }
    }
    None
}
pub fn run_native(c: &Case, vals: &HashMap<String, f64>, seed: u64) -> Native {
    doing(&c.name, Some((vals.clone(), seed)));
    let r = run_native_(c, vals, seed);
    doing(&c.name, None);
    r
}
fn run_native_(c: &Case, vals: &HashMap<String, f64>, seed: u64) -> Native {
    let mut cx = Cx::new(false, seed);
    cx.tol = c.native_tol;
    cx.pow = c.pow;
    cx.vals = vals.clone();
    let r = catch_unwind(AssertUnwindSafe(|| (c.nat)(&mut cx)));
    let floor = 1e-9 * cx.scale;
    cx.fails.retain(|f| f.model.get("#diff").map_or(true, |d| *d > floor));
    match r {
        Ok(()) => {
            if cx.fails.is_empty() { Native::Pass } else { Native::Fail(cx.fails.clone(), cx.vals.clone()) }
        }
        Err(e) => {
            if e.is::<Abort>() {
                return if cx.fails.is_empty() { Native::Skipped } else { Native::Fail(cx.fails.clone(), cx.vals.clone()) };
            }
            let d = payload(&e);
            Native::Fail(vec![Fail { label: "panic".into(), detail: d, model: HashMap::new(), certain: true }], cx.vals.clone())
        }
    }
}

#[derive(Clone)]
pub struct Outcome {
    pub name: String,
    /// pass | violation | inconclusive
    pub status: &'static str,
    pub note: String,
    pub label: String,
    pub input: HashMap<String, f64>,
    pub stats: Stats,
    pub secs: f64,
    pub nvars: usize,
}

fn backtrack(trace: &mut Vec<(bool, bool)>) -> bool {
    while let Some((v, forced)) = trace.pop() {
        if !forced && v {
            trace.push((false, true));
            return true;
        }
    }
    false
}

const EPS: f64 = 1e-7;
const FLOOR: f64 = 1e-10;

enum EqRes {
    Exact,
    Concrete,
    Weighted,
    Nra,
    Bad(HashMap<String, f64>, String),
    Unknown(String),
}

fn clear_joint(ar: &mut Arena, pa: &Poly, pb: &Poly, den: &Poly) -> Option<(Poly, Poly, Poly)> {
    if ar.rules.is_empty() || pa == pb {
        return None;
    }
    ar.work = 0;
    let mut low: BTreeMap<AtomId, i32> = BTreeMap::new();
    for p in [pa, pb, den] {
        for m in p.keys() {
            for (at, e) in ar.monos[*m as usize].iter() {
                if *e < 0 {
                    let v = low.entry(*at).or_insert(0);
                    *v = (*v).min(*e);
                }
            }
        }
    }
    if low.is_empty() {
        return None;
    }
    let f = ar.mono(low.into_iter().map(|(a, e)| (a, -e)).collect());
    let mut fp = Poly::new();
    fp.insert(f, num_traits::One::one());
    let mut out = vec![];
    for p in [pa, pb, den] {
        let q = ar.pmul(p, &fp).ok()?;
        let r = ar.reduce(RF { num: q, den: Default::default() }).ok()?;
        if !r.den.is_empty() {
            return None;
        }
        out.push(r.num);
    }
    let c = out.pop()?;
    let b = out.pop()?;
    let a = out.pop()?;
    Some((a, b, c))
}
fn eq_decide(a: Sym, b: Sym, tol: f64) -> EqRes {
    if let (Some(x), Some(y)) = (a.concrete(), b.concrete()) {
        if native_close(x, y, 1e-9) {
            return EqRes::Concrete;
        }
        // concrete difference: a violation if the path is feasible
        return match query(&[], 8000) {
            Res::Unsat => EqRes::Nra,
            Res::Sat(m) => EqRes::Bad(var_model(&m), format!("{x:?} != {y:?}")),
            Res::Unknown(_) => EqRes::Bad(HashMap::new(), format!("{x:?} != {y:?} (path undecided)")),
        };
    }
    if !Float::is_finite(a) || !Float::is_finite(b) {
        return match query(&[], 8000) {
            Res::Unsat => EqRes::Nra,
            Res::Sat(m) => EqRes::Bad(var_model(&m), format!("{a:?} vs {b:?}")),
            Res::Unknown(_) => EqRes::Bad(HashMap::new(), format!("{a:?} vs {b:?} (path undecided)")),
        };
    }
    let (na, nb) = (a.node(), b.node());
    if na == nb {
        return EqRes::Exact;
    }
    let parts = with(|ar| -> Result<(Poly, Poly, Poly), TooBig> {
        let ra = ar.ratfun(na)?;
        let rb = ar.ratfun(nb)?;
        ar.work = 0;
        let (pa, pb, den) = ar.common(&ra, &rb)?;
        Ok((pa, pb, den))
    });
    let (pa, pb, den) = match parts {
        Ok(x) => x,
        Err(_) => return EqRes::Unknown("term too large to normalise".into()),
    };
    // clear negative exponents jointly and rewrite again
    let (pa, pb, den) = match with(|ar| clear_joint(ar, &pa, &pb, &den)) {
        Some(x) => x,
        None => (pa, pb, den),
    };
    let mut d = pa.clone();
    for (m, c) in &pb {
        let e = d.entry(*m).or_insert_with(Rat::zero);
        *e -= c;
    }
    d.retain(|_, c| !c.is_zero());
    if d.is_empty() {
        return EqRes::Exact;
    }
    // coefficient-weighted tolerance query (linear relaxation over the monomials)
    let fl = {
        let mut mx = 0f64;
        for c in pa.values().chain(pb.values()) {
            mx = mx.max(rat_to_f64(c).abs());
        }
        mx * FLOOR
    };
    let mut body = String::new();
    let (mut lhs, mut rhs) = (vec![], vec![]);
    let mut maxratio = 0f64;
    for (i, (m, c)) in d.iter().enumerate() {
        let s = pa.get(m).map(|c| rat_to_f64(c).abs()).unwrap_or(0.0) + pb.get(m).map(|c| rat_to_f64(c).abs()).unwrap_or(0.0) + fl / EPS;
        let du = rat_to_f64(c).abs() * (1.0 + 1e-12);
        maxratio = maxratio.max(du / s);
        body.push_str(&format!("(declare-const t{i} Real)(declare-const u{i} Real)(assert (<= (- u{i}) t{i}))(assert (<= t{i} u{i}))\n"));
        // scaled by s: ratio*t > EPS*u summed
        // (ratio rounded up to a power of two, which only makes the query harder to satisfy as unsat)
        let rr = du / s;
        let r = rat_to_smt(&rat_of_f64(if rr > 0.0 && rr <= EPS / 2.0 { rr.log2().ceil().exp2() } else { rr }));
        lhs.push(format!("(* {r} t{i})"));
        rhs.push(format!("u{i}"));
    }
    if d.len() < 6000 && maxratio <= EPS * 1.0001 {
        let e = rat_to_smt(&rat_of_f64(EPS));
        body.push_str(&format!("(assert (> {} (* {e} {})))\n", sum(&lhs), sum(&rhs)));
        let r = SOLVER.with(|s| s.borrow_mut().check(Some("QF_LRA"), &body, &[], 20000));
        if let Res::Unsat = r {
            return EqRes::Weighted;
        }
    }
    if std::env::var("SYM_DBG").is_ok() {
        with(|a| {
            for (m, c) in d.iter().take(40) {
                eprintln!("  {:.6e} [{:.6e}|{:.6e}] {}", rat_to_f64(c), pa.get(m).map(rat_to_f64).unwrap_or(0.0), pb.get(m).map(rat_to_f64).unwrap_or(0.0), a.monos[*m as usize].iter().map(|(x, e)| format!("{}^{e}", a.atom_name(*x))).collect::<Vec<_>>().join("*"));
            }
            for r in &a.rules {
                match r {
                    Rule::Pow { atom, n, rhs, inv } => eprintln!("  rule {}^{n} -> {} inv {:?}", a.atom_name(*atom), a.show(*rhs), inv.map(|i| a.show(i))),
                    Rule::Pair { a: x, b, rhs } => eprintln!("  rule {}*{} -> {}", a.atom_name(*x), a.atom_name(*b), a.show(*rhs)),
                }
            }
        });
    }
    if let Some(true) = modulo_path(&d, &pa, &pb) {
        return EqRes::Weighted;
    }
    // full query: a separation that a native run can show
    let mut last = String::new();
    for (sep, ms) in [(0.05, 4000u64), (tol, 8000)] {
        let mut e = Emit::new();
        let s = with(|ar| {
            let dn = match ar.cleared_num(&RF { num: d.clone(), den: Default::default() }) { Ok(x) => x, Err(_) => return None };
            let np = e.poly(ar, &dn.0);
            let cmp = { let mut p = Poly::new(); p.insert(dn.1, num_traits::One::one()); p };
            let dp0 = ar.pmul(&den, &cmp).ok()?;
            let dp = ar.cleared_num(&RF { num: dp0, den: Default::default() }).ok()?;
            // negative powers left in the denominator polynomial would be unusual
            let dps = e.poly(ar, &dp.0);
            e.nonlinear = true;
            let t = rat_to_smt(&rat_of_f64(sep));
            Some(format!("(let ((n {np}) (d {dps})) (and (distinct d 0.0) (or (> n (* {t} d)) (> (- n) (* {t} d))) (or (> n (* {t} (- d))) (> (- n) (* {t} (- d))))))"))
        });
        let Some(s) = s else { return EqRes::Unknown("difference too large to emit".into()) };
        e.asserts.push(s);
        match finish_cone(e, ms) {
            Res::Unsat => {
                if sep == tol {
                    return EqRes::Nra;
                }
            }
            Res::Sat(m) => return EqRes::Bad(var_model(&m), format!("terms differ: {} vs {}", with(|ar| ar.show(na)), with(|ar| ar.show(nb)))),
            Res::Unknown(w) => last = w,
        }
    }
    if last.is_empty() { EqRes::Nra } else { EqRes::Bad(HashMap::new(), format!("undecided ({last}), not an identity: max coefficient ratio {maxratio:.3e}; {} vs {}", with(|ar| ar.show(na)), with(|ar| ar.show(nb)))) }
}

/// |a - b| <= tol: a linear query over the monomials of the difference, each within its range; then the full query
fn near_decide(a: Sym, b: Sym, tol: f64) -> EqRes {
    let d = a - b;
    if let Some(v) = d.concrete() {
        if v.abs() <= tol {
            return EqRes::Concrete;
        }
        return match query(&[], 8000) {
            Res::Unsat => EqRes::Nra,
            Res::Sat(m) => EqRes::Bad(var_model(&m), format!("difference {v:?}")),
            Res::Unknown(_) => EqRes::Unknown(format!("difference {v:?} (path undecided)")),
        };
    }
    let n = d.node();
    let Ok(rf) = with(|ar| ar.ratfun(n)) else { return EqRes::Unknown("term too large to normalise".into()) };
    if !rf.den.is_empty() {
        return EqRes::Unknown("quotient left in a bound".into());
    }
    let mut body = String::new();
    let mut terms = vec![];
    let mut finite = true;
    for (i, (m, c)) in rf.num.iter().enumerate() {
        let (lo, hi) = with(|ar| ar.mono_interval(*m));
        if !lo.is_finite() || !hi.is_finite() {
            finite = false;
            break;
        }
        body.push_str(&format!("(declare-const m{i} Real)(assert (<= {} m{i}))(assert (<= m{i} {}))\n", rat_to_smt(&rat_of_f64(lo)), rat_to_smt(&rat_of_f64(hi))));
        terms.push(format!("(* {} m{i})", rat_to_smt(c)));
    }
    let t = rat_to_smt(&rat_of_f64(tol));
    if finite {
        body.push_str(&format!("(declare-const d Real)(assert (= d {}))(assert (or (> d {t}) (< d (- {t}))))\n", sum(&terms)));
        if let Res::Unsat = SOLVER.with(|s| s.borrow_mut().check(Some("QF_LRA"), &body, &[], 20000)) {
            return EqRes::Weighted;
        }
    }
    let mut e = Emit::new();
    let Some(p) = with(|ar| { let dn = ar.cleared_num(&rf).ok()?; if !ar.monos[dn.1 as usize].is_empty() { return None } Some(e.poly(ar, &dn.0)) }) else { return EqRes::Unknown("negative powers in a bound".into()) };
    e.nonlinear = true;
    e.asserts.push(format!("(let ((d {p})) (or (> d {t}) (< d (- {t}))))"));
    match finish_cone(e, 20000) {
        Res::Unsat => EqRes::Nra,
        Res::Sat(m) => EqRes::Bad(var_model(&m), "outside the tolerance".into()),
        Res::Unknown(w) => EqRes::Unknown(w),
    }
}

/// Does the difference vanish once the equalities of the path condition are used as rewrite rules?
fn modulo_path(d: &Poly, pa: &Poly, pb: &Poly) -> Option<bool> {
    let eqs: Vec<NodeId> = path(|p| p.pc.iter().filter(|l| l.mask == EQ).map(|l| l.node).collect());
    if eqs.is_empty() {
        return None;
    }
    with(|a| {
        a.work = 0;
        let scale = pa.values().chain(pb.values()).map(|c| rat_to_f64(c).abs()).fold(0.0, f64::max);
        // rules: atom^n -> rhs
        let mut rules: Vec<(AtomId, i32, Poly)> = vec![];
        for e in eqs {
            let rf = a.ratfun(e).ok()?;
            let (num, _) = a.cleared_num(&rf).ok()?;
            let mut best: Option<(AtomId, i32, MonoId)> = None;
            for m in num.keys() {
                let mm = a.monos[*m as usize].clone();
                if mm.len() != 1 || mm[0].1 < 1 {
                    continue;
                }
                let (v, n) = mm[0];
                let top = num.keys().all(|q| *q == *m || a.monos[*q as usize].iter().all(|x| x.0 != v || x.1 < n));
                if top && rules.iter().all(|r| r.0 != v) && best.map_or(true, |b| n < b.1) {
                    best = Some((v, n, *m));
                }
            }
            let Some((v, n, m)) = best else { continue };
            let c = num[&m].clone();
            let mut rhs = Poly::new();
            for (q, x) in &num {
                if *q != m {
                    rhs.insert(*q, -(x / &c));
                }
            }
            rules.push((v, n, rhs));
        }
        if rules.is_empty() {
            return None;
        }
        let mut cur = a.cleared_num(&RF { num: d.clone(), den: Default::default() }).ok()?.0;
        for _ in 0..200 {
            let mut changed = false;
            for (v, n, rhs) in &rules {
                let mut keep = Poly::new();
                let mut cof = Poly::new();
                for (m, c) in &cur {
                    let mm = a.monos[*m as usize].clone();
                    if mm.iter().any(|x| x.0 == *v && x.1 >= *n) {
                        let q: Vec<_> = mm.iter().map(|x| if x.0 == *v { (x.0, x.1 - n) } else { *x }).filter(|x| x.1 != 0).collect();
                        let id = a.mono(q);
                        *cof.entry(id).or_insert_with(Rat::zero) += c;
                    } else {
                        *keep.entry(*m).or_insert_with(Rat::zero) += c;
                    }
                }
                if cof.is_empty() {
                    continue;
                }
                changed = true;
                let t = a.pmul(&cof, rhs).ok()?;
                for (m, c) in t {
                    *keep.entry(m).or_insert_with(Rat::zero) += c;
                }
                keep.retain(|_, c| !c.is_zero());
                cur = keep;
            }
            let red = a.reduce(RF { num: cur, den: Default::default() }).ok()?;
            if !red.den.is_empty() {
                return None;
            }
            cur = red.num;
            if cur.is_empty() {
                return Some(true);
            }
            if !changed {
                break;
            }
            if cur.len() > 20000 {
                return None;
            }
        }
        Some(cur.values().all(|c| rat_to_f64(c).abs() <= 1e-9 * scale))
    })
}

pub struct Opts {
    pub seed: u64,
    pub threads: usize,
    pub deadline: Instant,
    /// set when enough violations were found
    pub stop: Arc<std::sync::atomic::AtomicU32>,
    pub thorough: bool,
    pub raw_ms: u64,
}

impl Opts {
    fn over(&self) -> bool {
        Instant::now() > self.deadline || self.stop.load(std::sync::atomic::Ordering::Relaxed) >= 3
    }
}
/// shell-style pattern with `*`
fn glob(p: &str, s: &str) -> bool {
    match p.split_once('*') {
        None => p == s,
        Some((a, rest)) => s.starts_with(a) && (0..=s.len() - a.len()).any(|i| s.is_char_boundary(a.len() + i) && glob(rest, &s[a.len() + i..])),
    }
}

fn run_sym(c: &Case, o: &Opts) -> Outcome {
    let t0 = Instant::now();
    AR.with(|a| a.borrow_mut().reset());
    path(|p| *p = Path::default());
    SOLVER.with(|s| *s.borrow_mut() = Solver::new());
    let mut st = Stats::default();
    let mut trace: Vec<(bool, bool)> = vec![];
    let mut cands: Vec<Fail> = vec![];
    let mut incon: Option<String> = None;
    let mut vars: BTreeMap<String, (f64, f64)> = BTreeMap::new();
    let mut witness: Vec<HashMap<String, f64>> = vec![];
    let mut raw_done = false;
    let mut raw_err: Option<String> = None;
    // inputs of paths that were cut off: the native search starts with them
    let mut starts: Vec<HashMap<String, f64>> = vec![];
    let limit = t0 + Duration::from_secs_f64(c.case_s);
    loop {
        path(|p| {
            let ax = std::mem::take(&mut p.axioms);
            let axs = std::mem::take(&mut p.axset);
            *p = Path::default();
            p.axioms = ax;
            p.axset = axs;
            p.active = true;
            p.trace = trace.clone();
            p.feas_ms = 3000;
            p.max_trace = 4000;
        });
        let mut cx = Cx::new(true, o.seed);
        cx.pow = c.pow;
        let r = catch_unwind(AssertUnwindSafe(|| (c.sym)(&mut cx)));
        st.paths += 1;
        st.asserts += cx.asserts;
        path(|p| {
            st.decisions += p.decisions;
            st.box_decided += p.interval_decided;
            st.div_assumed = st.div_assumed.max(p.divs.len() as u64);
        });
        for (k, v) in &cx.vars {
            vars.insert(k.clone(), *v);
        }
        let mut done = false;
        match r {
            Ok(()) => {
                st.completed += 1;
                done = true;
            }
            Err(e) => match e.downcast_ref::<Abort>() {
                Some(Abort::Infeasible) => st.infeasible += 1,
                Some(Abort::Unsupported(s)) => {
                    // only matters if the path is real
                    match query(&[], 4000) {
                        Res::Unsat => st.infeasible += 1,
                        _ => { incon.get_or_insert(format!("unsupported: {s}")); }
                    }
                }
                Some(Abort::Budget(s)) => {
                    incon.get_or_insert(format!("budget: {s}"));
                    if starts.len() < 4 {
                        if let Res::Sat(m) = query(&[], 4000) { starts.push(var_model(&m)); }
                    }
                }
                None => {
                    let msg = payload(&e);
                    if msg.contains("arena.rs") || msg.contains("path.rs") || msg.contains("harness.rs") {
                        incon.get_or_insert(format!("engine: {msg}"));
                    } else {
                        match hunted(|| query(&[], 8000)) {
                            Res::Unsat => st.infeasible += 1,
                            Res::Sat(m) => cands.push(Fail { label: "panic".into(), detail: msg, model: var_model(&m), certain: true }),
                            Res::Unknown(_) => cands.push(Fail { label: "panic".into(), detail: msg, model: HashMap::new(), certain: false }),
                        }
                    }
                }
            },
        }
        cands.extend(cx.fails.iter().cloned());
        let deferred_free = path(|p| p.free_explore);
        if done || !cx.pending.is_empty() {
            let mut bad_here = false;
            for (label, a, b) in cx.pending.iter() {
                if Instant::now() > limit || o.over() {
                    incon.get_or_insert("time".into());
                    break;
                }
                match hunted(|| catch_unwind(AssertUnwindSafe(|| eq_decide(*a, *b, c.native_tol)))) {
                    Ok(EqRes::Exact) => {
                        st.exact += 1;
                    }
                    Ok(EqRes::Concrete) => st.concrete += 1,
                    Ok(EqRes::Weighted) => st.weighted += 1,
                    Ok(EqRes::Nra) => st.nra += 1,
                    Ok(EqRes::Bad(m, d)) => {
                        // on freely explored paths make sure the path itself is possible
                        if deferred_free {
                            if let Res::Unsat = query(&[], 8000) { break; }
                        }
                        cands.push(Fail { label: label.clone(), detail: d, certain: !m.is_empty(), model: m });
                        bad_here = true;
                    }
                    Ok(EqRes::Unknown(w)) => { incon.get_or_insert(format!("{label}: {w}")); }
                    Err(e) => { incon.get_or_insert(format!("{label}: engine: {}", payload(&e))); }
                }
                if bad_here && cands.len() > 8 {
                    break;
                }
            }
        }
        if done && cands.is_empty() && !cx.pending.is_empty() {
            nf_check(&cx.pending, &mut st, &mut raw_err);
        }
        if done && !raw_done && cands.is_empty() && !cx.pending.is_empty() {
            // cross-check: hand the exact identities of the first path to the solver un-normalised
            raw_done = true;
            let raws: Vec<(NodeId, NodeId)> = cx.pending.iter().filter_map(|(_, a, b)| match (a, b) {
                (Sym::T(x), Sym::T(y)) => Some((*x, *y)),
                _ => None,
            }).take(400).collect();
            raw_check(&raws, o, &mut st, &mut raw_err, &c.name);
        }
        if done && witness.len() < 3 {
            // reachability witness of this path (vacuity guard)
            if let Res::Sat(m) = query(&[], 4000) {
                witness.push(var_model(&m));
            }
        }
        trace = path(|p| std::mem::take(&mut p.trace));
        if cands.len() >= 4 {
            break;
        }
        if !backtrack(&mut trace) {
            break;
        }
        if st.paths >= c.max_paths {
            incon.get_or_insert(format!("path budget {}", c.max_paths));
            break;
        }
        if Instant::now() > limit || o.over() {
            incon.get_or_insert(format!("time budget {}s", c.case_s));
            break;
        }
    }
    if let Some(e) = raw_err {
        incon.get_or_insert(e);
    }
    SOLVER.with(|s| {
        let s = s.borrow();
        st.queries = s.queries;
        st.sat = s.sat;
        st.unsat = s.unsat;
        st.unknown = s.unknown;
        st.solver_s = s.time;
        st.max_query_s = s.max_time;
    });
    st.witness = witness.len() as u64;
    let mut out = Outcome { name: c.name.clone(), status: "pass", note: String::new(), label: String::new(), input: HashMap::new(), stats: st, secs: 0.0, nvars: vars.len() };
    if !cands.is_empty() || incon.is_some() {
        // replay natively: first the solver's models, then a search in the box
        let mut found = None;
        let mut tries = 0u64;
        for f in &cands {
            if let Native::Fail(fs, vals) = run_native(c, &f.model, o.seed) {
                found = Some((fs[0].clone(), vals, "solver model"));
                break;
            }
            tries += 1;
        }
        for m in &starts {
            if found.is_some() {
                break;
            }
            if let Native::Fail(fs, vals) = run_native(c, m, o.seed) {
                found = Some((fs[0].clone(), vals, "input of a path cut off"));
            }
            tries += 1;
        }
        if found.is_none() {
            let end = Instant::now() + Duration::from_secs(20);
            let mut rng = Rng::new(o.seed ^ 77);
            let n = if cands.is_empty() { 400 } else { 20000 };
            for k in 0..n {
                if Instant::now() > end {
                    break;
                }
                let mut vals = HashMap::new();
                if !cands.is_empty() && k % 2 == 0 {
                    // perturb a model
                    let f = &cands[(k / 2) % cands.len()];
                    for (n, (lo, hi)) in &vars {
                        if let Some(v) = f.model.get(n) {
                            let w = (hi - lo) * 0.1 * (rng.unit() - 0.5) * rng.unit();
                            vals.insert(n.clone(), if rng.next() % 3 == 0 { *v } else { (v + w).clamp(*lo, *hi) });
                        }
                    }
                }
                tries += 1;
                if let Native::Fail(fs, v) = run_native(c, &vals, rng.next()) {
                    found = Some((fs[0].clone(), v, "native search in the counterexample box"));
                    break;
                }
            }
        }
        match found {
            Some((f, vals, how)) if !cands.is_empty() || true => {
                out.status = "violation";
                out.label = f.label.clone();
                out.note = format!("{} ({}; {})", f.detail, how, cands.first().map(|c| format!("{}: {}", c.label, c.detail)).unwrap_or_else(|| incon.clone().unwrap_or_default()));
                out.input = vals;
            }
            _ => {
                out.status = "inconclusive";
                out.note = format!("{} [{} native tries did not reproduce]", cands.first().map(|c| format!("{}: {} {:?}", c.label, c.detail, c.model)).unwrap_or_else(|| incon.clone().unwrap_or_default()), tries);
            }
        }
    } else if out.stats.completed == 0 || out.stats.asserts == 0 {
        out.status = "inconclusive";
        out.note = "vacuous: no path reached an assertion".into();
    } else if out.stats.witness == 0 {
        out.status = "inconclusive";
        out.note = "vacuous: no reachability witness".into();
    } else {
        // translation validation: the same harness on the witnesses and on samples, natively
        let mut fails = vec![];
        let mut ran = 0u64;
        for k in 0..(c.validate as u64 * 4) {
            if ran >= c.validate as u64 {
                break;
            }
            let vals = witness.get(k as usize).cloned().unwrap_or_default();
            match run_native(c, &vals, o.seed.wrapping_add(k)) {
                Native::Pass => ran += 1,
                Native::Skipped => {}
                Native::Fail(f, v) => {
                    ran += 1;
                    fails.push((f, v));
                }
            }
        }
        out.stats.native_checks = ran;
        if ran > 0 && fails.len() as u64 * 2 > ran {
            let (f, v) = fails.swap_remove(0);
            out.status = "violation";
            out.label = f[0].label.clone();
            out.note = format!("{} (native execution disagrees although the real-arithmetic encoding holds)", f[0].detail);
            out.input = v;
        } else if !fails.is_empty() {
            out.note = format!("native f64 run differs on {}/{} validation inputs (rounding): {} {}", fails.len(), ran, fails[0].0[0].label, fails[0].0[0].detail);
        }
    }
    if c.extra && out.status == "inconclusive" {
        out.status = "undecided";
    }
    out.secs = t0.elapsed().as_secs_f64();
    out
}
/// The identities of a path in normal form, as one linear query over their monomials.
fn nf_check(pending: &[(String, Sym, Sym)], st: &mut Stats, err: &mut Option<String>) {
    let mut names: std::collections::BTreeSet<MonoId> = Default::default();
    let mut dis = vec![];
    let mut size = 0usize;
    for (_, x, y) in pending {
        let (Sym::T(x), Sym::T(y)) = (x, y) else { continue };
        let parts = with(|a| -> Result<(Poly, Poly, Poly), TooBig> {
            let ra = a.ratfun(*x)?;
            let rb = a.ratfun(*y)?;
            a.work = 0;
            a.common(&ra, &rb)
        });
        let Ok((pa, pb, _)) = parts else { continue };
        if pa != pb {
            continue;
        }
        size += pa.len() + pb.len();
        if size > 6000 {
            break;
        }
        let mut side = |p: &Poly| -> String {
            let t: Vec<String> = p.iter().map(|(m, c)| {
                names.insert(*m);
                format!("(* {} m{m})", rat_to_smt(c))
            }).collect();
            sum(&t)
        };
        dis.push(format!("(distinct {} {})", side(&pa), side(&pb)));
    }
    if dis.is_empty() {
        return;
    }
    let mut body: String = names.iter().map(|m| format!("(declare-const m{m} Real)\n")).collect();
    body.push_str(&format!("(assert (or false {}))\n", dis.join(" ")));
    match SOLVER.with(|s| s.borrow_mut().check(Some("QF_LRA"), &body, &[], 5000)) {
        Res::Unsat => st.nf_ok += dis.len() as u64,
        Res::Unknown(_) => {}
        Res::Sat(m) => *err = Some(format!("solver rejects a normal-form identity: {m:?}")),
    }
}
/// The obligations of a path, exactly as executed (shared DAG, no normalisation), as one query.
fn raw_check(raws: &[(NodeId, NodeId)], o: &Opts, st: &mut Stats, err: &mut Option<String>, name: &str) {
    if o.raw_ms == 0 {
        return;
    }
    // only identities the normaliser called exact (others carry rounding of constants)
    let exact: Vec<(NodeId, NodeId)> = raws.iter().filter(|(x, y)| {
        x == y || with(|a| {
            let d = a.sub(*x, *y);
            match a.ratfun(d) { Ok(rf) => rf.num.is_empty(), Err(_) => false }
        })
    }).cloned().collect();
    if exact.is_empty() {
        return;
    }
    let mut e = Emit::new();
    e.share = true;
    e.nonlinear = true;
    let mut batch = vec![];
    for (x, y) in &exact {
        let s = with(|a| format!("(distinct {} {})", e.node(a, *x), e.node(a, *y)));
        batch.push(s);
    }
    let k = batch.len() as u64;
    let size: usize = e.defs.iter().map(|d| d.len()).sum::<usize>() + batch.iter().map(|d| d.len()).sum::<usize>();
    if e.defs.len() > 24 || size > 12000 {
        return;
    }
    let (divs, pc) = path(|p| (p.divs.clone(), p.pc.clone()));
    for d in divs {
        let s = with(|a| e.node(a, d));
        e.asserts.push(format!("(distinct {s} 0.0)"));
    }
    for l in pc {
        let s = e.lit(l);
        e.asserts.push(s);
    }
    e.asserts.push(if batch.len() == 1 { batch[0].clone() } else { format!("(or {})", batch.join(" ")) });
    match run_query(e, o.raw_ms) {
        Res::Unsat => st.raw_ok += k,
        Res::Unknown(_) => st.raw_unknown += k,
        Res::Sat(m) => {
            let _ = (name, &m);
            *err = Some(format!("solver disagrees with the normaliser on an identity: {m:?}"));
        }
    }
}
fn finish_cone(mut e: Emit, ms: u64) -> Res {
    let pc = path(|p| p.pc.clone());
    for l in pc {
        let s = e.lit(l);
        e.asserts.push(s);
    }
    run_query(e, ms)
}

pub fn main(property: &str, mk: impl Fn(bool) -> Vec<Case>) {
    let args: Vec<String> = std::env::args().collect();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = args.iter().any(|a| a == "--thorough") || tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = args.iter().position(|a| a == "--secs").and_then(|i| args.get(i + 1)).and_then(|s| s.parse().ok()).unwrap_or(700.0);
    let only = args.iter().position(|a| a == "--only").and_then(|i| args.get(i + 1)).cloned();
    let replay = args.iter().position(|a| a == "--replay").and_then(|i| args.get(i + 1)).cloned();
    let verbose = args.iter().any(|a| a == "-v");
    let all = args.iter().any(|a| a == "--all");
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_LOC.try_with(|x| if let Ok(mut x) = x.try_borrow_mut() { *x = l; });
    }));
    let cases: Vec<Case> = mk(thorough).into_iter().filter(|c| only.as_ref().map_or(true, |o| c.name.contains(o.as_str()))).collect();
    if let Some(f) = replay {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        let name = v["case"].as_str().unwrap();
        let all = mk(true).into_iter().chain(mk(false));
        let vals: HashMap<String, f64> = v["input"].as_object().unwrap().iter().map(|(k, x)| (k.clone(), x.as_f64().unwrap_or(0.0))).collect();
        let seed = v["seed"].as_u64().or(v["input"]["#seed"].as_f64().map(|x| x as u64)).unwrap_or(seed);
        for c in all {
            if c.name == name {
                match run_native(&c, &vals, seed) {
                    Native::Fail(f, _) => {
                        println!("REPRODUCED {} {}: {}", name, f[0].label, f[0].detail);
                        std::process::exit(1);
                    }
                    Native::Pass => println!("not reproduced"),
                    Native::Skipped => println!("input outside the harness assumptions"),
                }
                std::process::exit(0);
            }
        }
        println!("unknown case {name}");
        std::process::exit(2);
    }
    let t0 = Instant::now();
    let o = Arc::new(Opts { seed, threads: 8, deadline: t0 + Duration::from_secs_f64(secs), thorough, raw_ms: if thorough { 6000 } else { 1500 }, stop: Default::default() });
    let known: Arc<Vec<String>> = Arc::new(args.iter().enumerate().filter(|(_, a)| *a == "--known").filter_map(|(i, _)| args.get(i + 1).cloned()).collect());
    let n = cases.len();
    let cases = Arc::new(cases);
    let next = Arc::new(Mutex::new(0usize));
    let results: Arc<Mutex<Vec<Option<Outcome>>>> = Arc::new(Mutex::new(vec![None; n]));
    let mut hs = vec![];
    for _ in 0..o.threads.min(n.max(1)) {
        let (cases, next, results, o, known) = (cases.clone(), next.clone(), results.clone(), o.clone(), known.clone());
        hs.push(std::thread::Builder::new().stack_size(512 << 20).spawn(move || loop {
            let i = {
                let mut g = next.lock().unwrap();
                let i = *g;
                *g += 1;
                i
            };
            if i >= cases.len() {
                break;
            }
            let c = &cases[i];
            doing(&c.name, None);
            if let Ok(f) = std::env::var("SYM_PROGRESS") {
                use std::io::Write;
                let _ = std::fs::OpenOptions::new().append(true).create(true).open(f).and_then(|mut f| f.write_all(format!("{}\n", c.name).as_bytes()));
            }
            let out = if o.over() {
                Outcome { name: c.name.clone(), status: "inconclusive", note: "overall time".into(), label: String::new(), input: HashMap::new(), stats: Stats::default(), secs: 0.0, nvars: 0 }
            } else {
                match catch_unwind(AssertUnwindSafe(|| run_sym(c, &o))) {
                    Ok(r) => r,
                    Err(e) => Outcome { name: c.name.clone(), status: "inconclusive", note: format!("engine: {}", payload(&e)), label: String::new(), input: HashMap::new(), stats: Stats::default(), secs: 0.0, nvars: 0 },
                }
            };
            if verbose || out.status != "pass" {
                eprintln!("{:12} {} {:.2}s paths={} asserts={} exact={} conc={} wtd={} nra={} q={} ({:.1}s) {} {}", out.status, out.name, out.secs, out.stats.paths, out.stats.asserts, out.stats.exact, out.stats.concrete, out.stats.weighted, out.stats.nra, out.stats.queries, out.stats.solver_s, out.label, trunc(&out.note, 600));
            }
            if out.status == "violation" && !all && !out.name.starts_with("asis ") && !known.iter().any(|k| glob(k, &out.name)) {
                o.stop.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
            results.lock().unwrap()[i] = Some(out);
            idle();
            if let Ok(f) = std::env::var("SYM_PROGRESS") {
                use std::io::Write;
                let _ = std::fs::OpenOptions::new().append(true).create(true).open(f).and_then(|mut f| f.write_all(format!("-{}\n", c.name).as_bytes()));
            }
        }).unwrap());
    }
    // cases that outlast the time limit (or the first violations) by much are abandoned
    let mut grace: Option<Instant> = None;
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        if let Some(v) = watch(property) {
            eprintln!("{:12} {} {} {}", v.status, v.name, v.label, v.note);
            if let Some(i) = cases.iter().position(|c| c.name == v.name) {
                results.lock().unwrap()[i] = Some(v);
                o.stop.fetch_add(3, std::sync::atomic::Ordering::Relaxed);
            }
        }
        if o.over() {
            let early = Instant::now() <= o.deadline;
            let g = *grace.get_or_insert(Instant::now() + Duration::from_secs(if early { 10 } else { 40 }));
            if Instant::now() > g {
                break;
            }
        }
    }
    let res: Vec<Outcome> = results.lock().unwrap().iter().enumerate().map(|(i, r)| r.clone().unwrap_or_else(|| {
        Outcome { name: cases[i].name.clone(), status: "inconclusive", note: "overall time: abandoned".into(), label: String::new(), input: HashMap::new(), stats: Stats::default(), secs: 0.0, nvars: 0 }
    })).collect();
    let js: Vec<Value> = res.iter().map(|r| {
        json!({"case": r.name, "status": r.status, "label": r.label, "note": trunc(&r.note, 1500), "input": r.input.iter().map(|(k, v)| (k.clone(), json!(v))).collect::<serde_json::Map<_, _>>(), "secs": r.secs,
            "paths": r.stats.paths, "completed": r.stats.completed, "asserts": r.stats.asserts, "exact": r.stats.exact, "concrete": r.stats.concrete, "weighted": r.stats.weighted, "nra": r.stats.nra,
            "queries": r.stats.queries, "sat": r.stats.sat, "unsat": r.stats.unsat, "unknown": r.stats.unknown, "solver_s": r.stats.solver_s, "max_query_s": r.stats.max_query_s, "decisions": r.stats.decisions, "box_decided": r.stats.box_decided,
            "nf_ok": r.stats.nf_ok, "raw_ok": r.stats.raw_ok, "raw_unknown": r.stats.raw_unknown, "div_assumed": r.stats.div_assumed, "witness": r.stats.witness, "native_checks": r.stats.native_checks, "symbols": r.nvars})
    }).collect();
    println!("{}", json!({"property": property, "thorough": thorough, "seed": seed, "wall_s": t0.elapsed().as_secs_f64(), "cases": js, "expected_cases": n}));
    let _ = (1.0f64).to_u8();
    let _ = Rat::zero().is_negative();
    use std::io::Write;
    let _ = std::io::stdout().flush();
    crate::smt::kill_all();
    std::process::exit(0);
}
pub fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.to_string() } else { s.chars().take(n).collect::<String>() + "..." }
}
