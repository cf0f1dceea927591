//! Path conditions, branching on symbolic comparisons, and solver queries.
use crate::arena::*;
use crate::smt::*;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};

pub const LT: u8 = 1;
pub const EQ: u8 = 2;
pub const GT: u8 = 4;
pub const NE: u8 = 5;
pub const LE: u8 = 3;
pub const GE: u8 = 6;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Lit {
    pub node: NodeId,
    pub mask: u8,
}

/// Control-flow payloads thrown through the code under test.
#[derive(Debug, Clone)]
pub enum Abort {
    Infeasible,
    Unsupported(String),
    Budget(String),
}

#[derive(Default)]
pub struct Path {
    pub active: bool,
    pub trace: Vec<(bool, bool)>, // (value, forced)
    pub pos: usize,
    pub known: HashMap<NodeId, u8>,
    pub pc: Vec<Lit>,
    pub div_seen: HashSet<NodeId>,
    pub divs: Vec<NodeId>,
    pub model: Option<HashMap<AtomId, f64>>,
    pub pending_model: Option<HashMap<AtomId, f64>>,
    pub feas_ms: u64,
    pub decisions: u64,
    pub interval_decided: u64,
    pub max_trace: usize,
    pub axioms: Vec<(Vec<AtomId>, Vec<Lit>)>,
    pub axset: HashSet<Vec<Lit>>,
    pub free_explore: bool,
    pub fork_div: bool,
    /// do not trust floating-point evaluation of the last model
    pub no_guess: bool,
}

thread_local! {
    pub static PATH: RefCell<Path> = RefCell::new(Path::default());
    pub static SOLVER: RefCell<Solver> = RefCell::new(Solver::new());
}

pub fn path<R>(f: impl FnOnce(&mut Path) -> R) -> R {
    PATH.with(|p| f(&mut p.borrow_mut()))
}

pub fn throw(a: Abort) -> ! {
    std::panic::resume_unwind(Box::new(a))
}
pub fn unsupported(s: impl Into<String>) -> ! {
    throw(Abort::Unsupported(s.into()))
}

/// Make the leading coefficient positive; returns (node, flipped).
fn canon(n: NodeId) -> (NodeId, bool) {
    with(|a| {
        let t = a.nodes[n as usize].clone();
        if t.is_empty() {
            return (n, false);
        }
        let c = t[0].1.clone();
        let neg = c.is_negative();
        let n2 = a.scale(n, &c.recip());
        (n2, neg)
    })
}
fn flip(mask: u8) -> u8 {
    (mask & EQ) | if mask & LT != 0 { GT } else { 0 } | if mask & GT != 0 { LT } else { 0 }
}

fn sign_mask_const(n: NodeId) -> Option<u8> {
    with(|a| {
        if let Some(c) = a.as_const(n) {
            return Some(rat_mask(&c));
        }
        match a.ratfun(n) {
            Ok(rf) => {
                if let Ok((p, _)) = a.cleared_num(&rf) {
                    let p = a.reduce(RF { num: p, den: Default::default() }).map(|r| r.num).unwrap_or_default();
                    if p.is_empty() {
                        return Some(EQ);
                    }
                }
                if rf.den.is_empty() && rf.num.len() == 1 && rf.num.contains_key(&0) {
                    return Some(rat_mask(&rf.num[&0]));
                }
                None
            }
            Err(_) => None,
        }
    })
}
fn rat_mask(c: &Rat) -> u8 {
    use num_traits::Zero;
    if c.is_zero() { EQ } else if c.is_negative() { LT } else { GT }
}

fn interval_mask(n: NodeId) -> u8 {
    let (lo, hi) = with(|a| a.interval(n));
    let mut m = 0;
    if lo < 0.0 {
        m |= LT;
    }
    if lo <= 0.0 && hi >= 0.0 {
        m |= EQ;
    }
    if hi > 0.0 {
        m |= GT;
    }
    if m == 0 { 7 } else { m }
}

/// Replace c1*sqrt(A) + c2*sqrt(B) (or a constant) of opposite signs by a
/// polynomial of the same sign.
fn unsqrt(n: NodeId) -> NodeId {
    let mut n = n;
    for _ in 0..4 {
        let r = with(|a| {
            let t = a.nodes[n as usize].clone();
            if t.len() != 2 {
                return None;
            }
            let part = |a: &Arena, m: MonoId| -> Option<Option<NodeId>> {
                if m == 0 {
                    return Some(None);
                }
                let mm = a.monos[m as usize].clone();
                if mm.len() == 1 && mm[0].1 == 1 {
                    if let AtomKey::Fun("sqrt", g, _) = &a.atoms[mm[0].0 as usize].key {
                        return Some(Some(g[0]));
                    }
                }
                None
            };
            let (p, q) = (part(a, t[0].0)?, part(a, t[1].0)?);
            if p.is_none() && q.is_none() {
                return None;
            }
            if t[0].1.is_negative() == t[1].1.is_negative() {
                return None;
            }
            let sq = |a: &mut Arena, x: Option<NodeId>, c: &Rat| {
                let k = c * c;
                match x {
                    Some(n) => a.scale(n, &k),
                    None => a.constant(k),
                }
            };
            let x = sq(a, p, &t[0].1);
            let y = sq(a, q, &t[1].1);
            Some(if t[0].1.is_negative() { a.sub(y, x) } else { a.sub(x, y) })
        });
        match r {
            Some(m) => n = m,
            None => break,
        }
    }
    n
}

/// Decide a comparison `node (mask) 0`, forking if both answers are feasible.
pub fn decide(node: NodeId, mask: u8) -> bool {
    let node = unsqrt(node);
    let (n, fl) = canon(node);
    let mask = if fl { flip(mask) } else { mask };
    let known = path(|p| p.known.get(&n).copied());
    let known = match known {
        Some(k) => k,
        None => {
            let k = match sign_mask_const(n) {
                Some(k) => k,
                None => interval_mask(n),
            };
            path(|p| {
                p.known.insert(n, k);
            });
            k
        }
    };
    if known & mask == 0 {
        path(|p| p.interval_decided += 1);
        return false;
    }
    if known & !mask & 7 == 0 {
        path(|p| p.interval_decided += 1);
        return true;
    }
    path(|p| {
        if !p.active {
            panic!("symbolic comparison outside a path");
        }
        p.decisions += 1;
    });
    // replayed decision?
    let rep = path(|p| {
        if p.pos < p.trace.len() {
            let v = p.trace[p.pos].0;
            p.pos += 1;
            Some(v)
        } else {
            None
        }
    });
    let (tm, fm) = (known & mask, known & !mask & 7);
    let v = match rep {
        Some(v) => v,
        None => {
            if path(|p| p.trace.len() >= p.max_trace) {
                throw(Abort::Budget("branch depth".into()));
            }
            // model guidance
            let guess = path(|p| p.model.as_ref().filter(|_| !p.no_guess).map(|m| {
                let env = |a: AtomId| m.get(&a).copied();
                let x = with(|ar| ar.eval(n, &env));
                if x.is_nan() { 0 } else if x < 0.0 { LT } else if x > 0.0 { GT } else { EQ }
            })).unwrap_or(0);
            let free = path(|p| p.free_explore);
            let ft = free || guess & tm != 0 || feasible(Lit { node: n, mask: tm });
            let ff = free || guess & fm != 0 || feasible(Lit { node: n, mask: fm });
            match (ft, ff) {
                (false, false) => throw(Abort::Infeasible),
                (true, false) => {
                    path(|p| {
                        p.trace.push((true, true));
                        p.pos += 1;
                    });
                    true
                }
                (false, true) => {
                    path(|p| {
                        p.trace.push((false, true));
                        p.pos += 1;
                    });
                    false
                }
                (true, true) => {
                    // follow the model if there is one, otherwise true first
                    let first = true;
                    path(|p| {
                        p.trace.push((first, false));
                        p.pos += 1;
                        if guess != 0 && guess & tm == 0 {
                            p.model = p.pending_model.take();
                        }
                    });
                    first
                }
            }
        }
    };
    let m = if v { tm } else { fm };
    path(|p| {
        p.known.insert(n, m);
        p.pc.push(Lit { node: n, mask: m });
        // drop a model that no longer satisfies the path condition
        if let Some(md) = p.model.take() {
            let env = |a: AtomId| md.get(&a).copied();
            let x = with(|ar| ar.eval(n, &env));
            let g = if x.is_nan() { 0 } else if x < 0.0 { LT } else if x > 0.0 { GT } else { EQ };
            if g & m != 0 {
                p.model = Some(md);
            }
        }
    });
    v
}

/// Add an assumption without forking.
pub fn assume_lit(node: NodeId, mask: u8) {
    let node = unsqrt(node);
    let (n, fl) = canon(node);
    let mask = if fl { flip(mask) } else { mask };
    let known = match path(|p| p.known.get(&n).copied()) {
        Some(k) => k,
        None => sign_mask_const(n).unwrap_or_else(|| interval_mask(n)),
    };
    let m = known & mask;
    if m == 0 {
        throw(Abort::Infeasible);
    }
    path(|p| {
        p.known.insert(n, m);
        if m != known {
            p.pc.push(Lit { node: n, mask: m });
        }
    });
}

pub fn add_axiom(atom: AtomId, clause: Vec<Lit>) {
    push_axiom(vec![atom], clause)
}
pub fn add_axiom2(a: AtomId, b: AtomId, clause: Vec<Lit>) {
    push_axiom(vec![a, b], clause)
}
pub fn add_axiom_node(n: NodeId, clause: Vec<Lit>) {
    let mut s = BTreeSet::new();
    with(|ar| for (m, _) in ar.nodes[n as usize].iter() {
        for (a, _) in ar.monos[*m as usize].iter() { s.insert(*a); }
    });
    push_axiom(s.into_iter().collect(), clause)
}
/// Facts about function atoms: true on every path, so kept for the whole case.
fn push_axiom(atoms: Vec<AtomId>, clause: Vec<Lit>) {
    path(|p| {
        if p.axset.insert(clause.clone()) {
            p.axioms.push((atoms, clause));
        }
    });
}

/// Is the divisor zero?  Default mode: non-zero divisors are an assumption
/// (recorded); fork mode: both cases are explored.
pub fn div_is_zero(n: NodeId) -> bool {
    let (c, _) = canon(n);
    if path(|p| p.fork_div) {
        return decide(n, EQ);
    }
    if !path(|p| p.div_seen.insert(c)) {
        return false;
    }
    let k = path(|p| p.known.get(&c).copied())
        .unwrap_or_else(|| sign_mask_const(c).unwrap_or_else(|| interval_mask(c)));
    if k == EQ {
        return true;
    }
    if k & EQ != 0 {
        path(|p| {
            p.known.insert(c, k & !EQ & 7);
            p.divs.push(c);
        });
    }
    false
}

pub fn feasible(extra: Lit) -> bool {
    let ms = path(|p| p.feas_ms);
    match query(&[vec![extra]], ms) {
        Res::Unsat => false,
        Res::Sat(m) => {
            let env: HashMap<AtomId, f64> = sat_env(&m);
            path(|p| {
                if p.model.is_none() {
                    p.model = Some(env);
                } else {
                    p.pending_model = Some(env);
                }
            });
            true
        }
        Res::Unknown(_) => true,
    }
}

pub fn sat_env(m: &HashMap<String, f64>) -> HashMap<AtomId, f64> {
    m.iter().filter_map(|(k, v)| k.strip_prefix('x').and_then(|s| s.parse().ok()).map(|i| (i, *v))).collect()
}

pub struct Emit {
    pub atoms: BTreeSet<AtomId>,
    pub asserts: Vec<String>,
    pub nonlinear: bool,
    pub defs: Vec<String>,
    pub shared: HashMap<NodeId, String>,
    pub share: bool,
}
impl Emit {
    pub fn new() -> Self {
        Emit { atoms: BTreeSet::new(), asserts: vec![], nonlinear: false, defs: vec![], shared: HashMap::new(), share: false }
    }
    fn sym(&mut self, a: &Arena, id: AtomId) -> String {
        let mut set = std::mem::take(&mut self.atoms);
        let mut p = Poly::new();
        let _ = &mut p;
        collect_atom(a, id, &mut set);
        self.atoms = set;
        if a.atoms[id as usize].is_int { format!("(to_real x{id})") } else { format!("x{id}") }
    }
    fn mono(&mut self, a: &Arena, m: MonoId) -> Vec<String> {
        let mm = a.monos[m as usize].clone();
        let mut f = vec![];
        let mut deg = 0;
        for (at, e) in mm.iter() {
            let s = match &a.atoms[*at as usize].key {
                AtomKey::Sum(n) => self.node(a, *n),
                _ => self.sym(a, *at),
            };
            deg += e.abs();
            if *e >= 0 {
                for _ in 0..*e {
                    f.push(s.clone());
                }
            } else {
                let k = vec![s; e.unsigned_abs() as usize];
                f.push(format!("(/ 1.0 {})", prod(&k)));
                deg += 1;
            }
        }
        if deg > 1 {
            self.nonlinear = true;
        }
        f
    }
    pub fn poly(&mut self, a: &Arena, p: &Poly) -> String {
        let mut ts = vec![];
        for (m, c) in p {
            let mut f = self.mono(a, *m);
            if !num_traits::One::is_one(c) || f.is_empty() {
                f.insert(0, rat_to_smt(c));
            }
            ts.push(prod(&f));
        }
        sum(&ts)
    }
    /// raw (un-normalised) emission
    pub fn node(&mut self, a: &Arena, n: NodeId) -> String {
        if let Some(s) = self.shared.get(&n) {
            return s.clone();
        }
        let t = a.nodes[n as usize].clone();
        let mut ts = vec![];
        for (m, c) in t.iter() {
            let mut f = self.mono(a, *m);
            if !num_traits::One::is_one(c) || f.is_empty() {
                f.insert(0, rat_to_smt(c));
            }
            ts.push(prod(&f));
        }
        let s = sum(&ts);
        if self.share && s.len() > 40 {
            let nm = format!("n{n}");
            self.defs.push(format!("(define-fun {nm} () Real {s})"));
            self.shared.insert(n, nm.clone());
            return nm;
        }
        s
    }
    /// expression with the same sign as the node
    pub fn signed(&mut self, n: NodeId) -> String {
        let r = with(|a| a.ratfun(n));
        match r {
            Ok(rf) => with(|a| match a.cleared_num(&rf) {
                Ok((p, cm)) => {
                    let mut f = vec![];
                    f.push(self.poly(a, &p));
                    let cmm = a.monos[cm as usize].clone();
                    for (at, e) in cmm.iter() {
                        if e % 2 != 0 {
                            let s = self.sym(a, *at);
                            f.push(s);
                        }
                    }
                    for (d, e) in rf.den.iter() {
                        if e % 2 != 0 {
                            let dp = a.polys[*d as usize].clone();
                            f.push(self.poly(a, &dp));
                        }
                    }
                    if f.len() > 1 {
                        self.nonlinear = true;
                    }
                    prod(&f)
                }
                Err(_) => self.node(a, n),
            }),
            Err(_) => with(|a| self.node(a, n)),
        }
    }
    pub fn lit(&mut self, l: Lit) -> String {
        let s = self.signed(l.node);
        let op = match l.mask {
            LT => "<",
            LE => "<=",
            EQ => "=",
            GE => ">=",
            GT => ">",
            NE => "distinct",
            0 => return "false".into(),
            _ => return "true".into(),
        };
        format!("({op} {s} 0.0)")
    }
    pub fn clause(&mut self, c: &[Lit]) -> String {
        let v: Vec<_> = c.iter().map(|l| self.lit(*l)).collect();
        if v.len() == 1 { v[0].clone() } else if v.is_empty() { "false".into() } else { format!("(or {})", v.join(" ")) }
    }
    /// (declarations + asserts, variable names)
    pub fn finish(mut self, axioms: &[(Vec<AtomId>, Vec<Lit>)]) -> (String, Vec<String>, bool, bool) {
        // close under axioms and rules
        let mut done_rules = HashSet::new();
        let mut done_ax = HashSet::new();
        loop {
            let before = self.atoms.len();
            let rules = with(|a| a.rules.clone());
            for (i, r) in rules.iter().enumerate() {
                if done_rules.contains(&i) {
                    continue;
                }
                let (lhs, need): (Vec<(AtomId, i32)>, Vec<AtomId>) = match r {
                    Rule::Pow { atom, n, .. } => (vec![(*atom, *n)], vec![*atom]),
                    Rule::Pair { a, b, .. } => (vec![(*a.min(b), 1), (*a.max(b), 1)], vec![*a, *b]),
                };
                if !need.iter().all(|x| self.atoms.contains(x)) {
                    continue;
                }
                done_rules.insert(i);
                let rhs = match r {
                    Rule::Pow { rhs, .. } | Rule::Pair { rhs, .. } => *rhs,
                };
                // raw difference, not reduced by the rule itself
                let s = with(|a| {
                    let m = a.mono(lhs);
                    let mut p = Poly::new();
                    p.insert(m, num_traits::One::one());
                    let l = self.poly(a, &p);
                    match a.ratfun(rhs) {
                        Ok(rf) => {
                            let mut f = vec![l];
                            for (d, e) in rf.den.iter() {
                                let dp = a.polys[*d as usize].clone();
                                let s = self.poly(a, &dp);
                                for _ in 0..*e {
                                    f.push(s.clone());
                                }
                            }
                            let (np, cm) = a.cleared_num(&rf).unwrap_or((rf.num.clone(), 0));
                            let cmm = a.monos[cm as usize].clone();
                            for (at, e) in cmm.iter() {
                                let s = self.sym(a, *at);
                                for _ in 0..*e { f.push(s.clone()); }
                            }
                            let rr = self.poly(a, &np);
                            format!("(= {} {})", prod(&f), rr)
                        }
                        Err(_) => {
                            let rr = self.node(a, rhs);
                            format!("(= {l} {rr})")
                        }
                    }
                });
                self.nonlinear = true;
                self.asserts.push(s);
            }
            for (i, (at, c)) in axioms.iter().enumerate() {
                if !done_ax.contains(&i) && at.iter().all(|x| self.atoms.contains(x)) {
                    done_ax.insert(i);
                    let s = self.clause(c);
                    self.asserts.push(s);
                }
            }
            if self.atoms.len() == before {
                break;
            }
        }
        let mut out = String::new();
        let mut names = vec![];
        let mut ints = false;
        with(|a| {
            for id in self.atoms.iter() {
                let info = &a.atoms[*id as usize];
                if matches!(info.key, AtomKey::Sum(_)) {
                    continue;
                }
                let nm = format!("x{id}");
                if info.is_int {
                    ints = true;
                    out.push_str(&format!("(declare-const {nm} Int)\n"));
                } else {
                    out.push_str(&format!("(declare-const {nm} Real)\n"));
                }
                let r = if info.is_int { format!("(to_real {nm})") } else { nm.clone() };
                if info.lo.is_finite() {
                    out.push_str(&format!("(assert (>= {r} {}))\n", rat_to_smt(&rat_of_f64(info.lo))));
                }
                if info.hi.is_finite() {
                    out.push_str(&format!("(assert (<= {r} {}))\n", rat_to_smt(&rat_of_f64(info.hi))));
                }
                names.push(nm);
            }
        });
        for d in &self.defs {
            out.push_str(d);
            out.push('\n');
        }
        for s in &self.asserts {
            out.push_str(&format!("(assert {s})\n"));
        }
        (out, names, self.nonlinear, ints)
    }
}
fn collect_atom(a: &Arena, id: AtomId, out: &mut BTreeSet<AtomId>) {
    let mut p = vec![];
    p.push(id);
    while let Some(x) = p.pop() {
        if !out.insert(x) {
            continue;
        }
        match &a.atoms[x as usize].key {
            AtomKey::Sum(n) => {
                for (m, _) in a.nodes[*n as usize].iter() {
                    for (y, _) in a.monos[*m as usize].iter() {
                        p.push(*y);
                    }
                }
            }
            AtomKey::Fun(_, args, _) => {
                for n in args {
                    for (m, _) in a.nodes[*n as usize].iter() {
                        for (y, _) in a.monos[*m as usize].iter() {
                            p.push(*y);
                        }
                    }
                }
            }
            AtomKey::Var(_) => {}
        }
    }
}
pub fn prod(f: &[String]) -> String {
    match f.len() {
        0 => "1.0".into(),
        1 => f[0].clone(),
        _ => format!("(* {})", f.join(" ")),
    }
}
pub fn sum(f: &[String]) -> String {
    match f.len() {
        0 => "0.0".into(),
        1 => f[0].clone(),
        _ => format!("(+ {})", f.join(" ")),
    }
}

pub fn run_query(e: Emit, timeout_ms: u64) -> Res {
    let ax = path(|p| p.axioms.clone());
    let (body, names, nonlin, ints) = e.finish(&ax);
    if ints {
        // the real relaxation first: its unsatisfiability carries over, an integral model too
        let mut relaxed = String::with_capacity(body.len());
        let mut rest = body.as_str();
        while let Some(i) = rest.find("(to_real ") {
            relaxed.push_str(&rest[..i]);
            rest = &rest[i + 9..];
            let j = rest.find(')').unwrap();
            relaxed.push_str(&rest[..j]);
            rest = &rest[j + 1..];
        }
        relaxed.push_str(rest);
        let relaxed = relaxed.replace(" Int)", " Real)");
        let logic = if nonlin { "QF_NRA" } else { "QF_LRA" };
        match SOLVER.with(|s| s.borrow_mut().check(Some(logic), &relaxed, &names, timeout_ms)) {
            Res::Unsat => return Res::Unsat,
            Res::Sat(m) if m.iter().all(|(k, v)| {
                let int = k.strip_prefix('x').and_then(|s| s.parse::<usize>().ok()).map_or(true, |i| with(|a| a.atoms[i].is_int));
                !int || (v.fract() == 0.0 && v.abs() < 9e15)
            }) => return Res::Sat(m),
            _ => {}
        }
    }
    let logic = if ints { None } else if nonlin { Some("QF_NRA") } else { Some("QF_LRA") };
    let r = SOLVER.with(|s| s.borrow_mut().check(logic, &body, &names, timeout_ms));
    match r {
        Res::Unknown(_) if nonlin && HUNT.with(|h| h.get()) => hunt(&body, &names, logic).map(Res::Sat).unwrap_or(r),
        _ => r,
    }
}
thread_local! {
    /// look for a model with most inputs fixed when a query stays undecided (only helps to refute)
    pub static HUNT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn hunt(body: &str, names: &[String], logic: Option<&str>) -> Option<HashMap<String, f64>> {
    let vars: Vec<(String, f64, f64, bool)> = with(|a| names.iter().filter_map(|n| {
        let i: usize = n.strip_prefix('x')?.parse().ok()?;
        let t = &a.atoms[i];
        (matches!(t.key, AtomKey::Var(_)) && t.lo.is_finite() && t.hi.is_finite()).then(|| (n.clone(), t.lo, t.hi, t.is_int))
    }).collect());
    if vars.len() < 2 {
        return None;
    }
    let mut rng = crate::harness::Rng::new(vars.len() as u64);
    for k in 0..8usize {
        // leave one to three inputs free
        let free: Vec<usize> = (0..1 + k % 3).map(|_| rng.next() as usize % vars.len()).collect();
        let mut b = body.to_string();
        for (i, (n, lo, hi, int)) in vars.iter().enumerate() {
            if free.contains(&i) {
                continue;
            }
            let u = (rng.unit() * 64.0).floor() / 64.0;
            let v = lo + (hi - lo) * u;
            let v = if *int { v.floor() } else { v };
            let c = rat_to_smt(&rat_of_f64(v));
            b.push_str(&if *int { format!("(assert (= (to_real {n}) {c}))\n") } else { format!("(assert (= {n} {c}))\n") });
        }
        if let Res::Sat(m) = SOLVER.with(|s| s.borrow_mut().check(logic, &b, names, 700)) {
            return Some(m);
        }
    }
    None
}

/// Satisfiability of the path condition together with extra clauses.
pub fn query(extra: &[Vec<Lit>], timeout_ms: u64) -> Res {
    let mut e = Emit::new();
    for c in extra {
        let s = e.clause(c);
        e.asserts.push(s);
    }
    // Cone of influence: path conditions sharing atoms (transitively) with the extra clauses.
    // (The rest of the path condition was satisfiable on its own, over disjoint variables.)
    let pc = path(|p| p.pc.clone());
    let mut left: Vec<(Lit, BTreeSet<AtomId>)> = pc.into_iter().map(|l| {
        let mut s = BTreeSet::new();
        with(|a| a.atoms_of_node(l.node, &mut s));
        with(|a| s.retain(|x| !matches!(a.atoms[*x as usize].key, AtomKey::Sum(_))));
        (l, s)
    }).collect();
    if extra.is_empty() {
        for (l, _) in left {
            let s = e.lit(l);
            e.asserts.push(s);
        }
        return run_query(e, timeout_ms);
    }
    let mut cone: BTreeSet<AtomId> = e.atoms.clone();
    loop {
        let mut rest = vec![];
        let mut any = false;
        for (l, s) in left {
            if s.iter().any(|x| cone.contains(x)) {
                cone.extend(s.iter().copied());
                let t = e.lit(l);
                e.asserts.push(t);
                cone.extend(e.atoms.iter().copied());
                any = true;
            } else {
                rest.push((l, s));
            }
        }
        left = rest;
        if !any {
            break;
        }
    }
    run_query(e, timeout_ms)
}
