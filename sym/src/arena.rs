//! Hash-consed symbolic real terms.
//!
//! A node is a sum of monomials with exact rational coefficients; a monomial
//! is a product of atoms with integer exponents; an atom is a variable, an
//! opaque (un-distributed) sum, or a function application.
use num_bigint::BigInt;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub use crate::rat::Rat;
pub type AtomId = u32;
pub type MonoId = u32;
pub type NodeId = u32;
pub type Terms = Vec<(MonoId, Rat)>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AtomKey {
    Var(String),
    Sum(NodeId),
    /// function name, argument nodes, integer parameter
    Fun(&'static str, Vec<NodeId>, i64),
}

#[derive(Clone, Debug)]
pub struct AtomInfo {
    pub key: AtomKey,
    pub lo: f64,
    pub hi: f64,
    pub is_int: bool,
}

/// Rewrite rule on monomials of base atoms.
#[derive(Clone, Debug)]
pub enum Rule {
    /// atom^n -> rhs, and (when given) atom^-n -> inv
    Pow { atom: AtomId, n: i32, rhs: NodeId, inv: Option<NodeId> },
    /// a*b -> rhs
    Pair { a: AtomId, b: AtomId, rhs: NodeId },
}

/// Polynomial (Laurent) over base atoms.
pub type Poly = BTreeMap<MonoId, Rat>;

#[derive(Clone, Debug, Default)]
pub struct RF {
    pub num: Poly,
    /// interned polynomial -> exponent
    pub den: BTreeMap<u32, u32>,
}

#[derive(Default)]
pub struct Arena {
    pub atoms: Vec<AtomInfo>,
    atom_ix: HashMap<AtomKey, AtomId>,
    pub monos: Vec<Rc<Vec<(AtomId, i32)>>>,
    mono_ix: HashMap<Rc<Vec<(AtomId, i32)>>, MonoId>,
    pub nodes: Vec<Rc<Terms>>,
    node_ix: HashMap<Rc<Terms>, NodeId>,
    pub polys: Vec<Rc<Poly>>,
    poly_ix: HashMap<Rc<Poly>, u32>,
    rf_memo: HashMap<NodeId, Rc<RF>>,
    atom_rules: HashMap<AtomId, Vec<usize>>,
    pub rules: Vec<Rule>,
    mono_red: HashMap<MonoId, bool>,
    iv_memo: HashMap<NodeId, (f64, f64)>,
    fun_fuzzy: HashMap<String, AtomId>,
    pub budget: usize,
    pub work: usize,
}

thread_local! {
    pub static AR: RefCell<Arena> = RefCell::new(Arena::new());
}

pub fn with<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    AR.with(|a| f(&mut a.borrow_mut()))
}

pub fn rat_of_f64(x: f64) -> Rat {
    Rat::from_float(x).expect("finite constant")
}

pub fn rat_to_f64(r: &Rat) -> f64 {
    // robust for huge numerators/denominators
    let n = r.numer();
    let d = r.denom();
    if let (Some(a), Some(b)) = (n.to_f64(), d.to_f64()) {
        if a.is_finite() && b.is_finite() && n.bits() < 1000 && d.bits() < 1000 {
            return a / b;
        }
    }
    let sh = n.bits() as i64 - d.bits() as i64;
    // scale so the quotient has ~64 bits
    let k = 64 - sh;
    let q = if k >= 0 { (n << (k as usize)) / d } else { n / (d << ((-k) as usize)) };
    let q = q.to_f64().unwrap_or(0.0);
    q * 2f64.powi((-k).clamp(-2000, 2000) as i32)
}

pub fn exact_f64(r: &Rat) -> Option<f64> {
    let d = r.denom();
    if d.bits() > 1000 || r.numer().bits() > 1000 {
        return None;
    }
    let x = rat_to_f64(r);
    if x.is_finite() && rat_of_f64(x) == *r { Some(x) } else { None }
}

#[derive(Debug)]
pub struct TooBig;

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { budget: 3_000_000, ..Default::default() };
        a.mono(vec![]);
        a.node(vec![]);
        a
    }
    pub fn reset(&mut self) {
        *self = Arena::new();
    }
    pub fn mono(&mut self, m: Vec<(AtomId, i32)>) -> MonoId {
        let m = Rc::new(m);
        if let Some(&i) = self.mono_ix.get(&m) {
            return i;
        }
        let i = self.monos.len() as u32;
        self.monos.push(m.clone());
        self.mono_ix.insert(m, i);
        i
    }
    pub fn node(&mut self, t: Terms) -> NodeId {
        let t = Rc::new(t);
        if let Some(&i) = self.node_ix.get(&t) {
            return i;
        }
        let i = self.nodes.len() as u32;
        if i > 8_000_000 {
            crate::path::throw(crate::path::Abort::Budget("terms".into()));
        }
        self.nodes.push(t.clone());
        self.node_ix.insert(t, i);
        i
    }
    pub fn atom(&mut self, key: AtomKey, lo: f64, hi: f64) -> AtomId {
        if let Some(&i) = self.atom_ix.get(&key) {
            return i;
        }
        let i = self.atoms.len() as u32;
        self.atoms.push(AtomInfo { key: key.clone(), lo, hi, is_int: false });
        self.atom_ix.insert(key, i);
        i
    }
    pub fn find_atom(&self, key: &AtomKey) -> Option<AtomId> {
        self.atom_ix.get(key).copied()
    }
    pub fn atom_node(&mut self, a: AtomId) -> NodeId {
        let m = self.mono(vec![(a, 1)]);
        self.node(vec![(m, Rat::one())])
    }
    pub fn var(&mut self, name: &str, lo: f64, hi: f64) -> NodeId {
        let a = self.atom(AtomKey::Var(name.into()), lo, hi);
        self.atom_node(a)
    }
    pub fn constant(&mut self, r: Rat) -> NodeId {
        if r.is_zero() { self.node(vec![]) } else { self.node(vec![(0, r)]) }
    }
    pub fn as_const(&self, n: NodeId) -> Option<Rat> {
        let t = &self.nodes[n as usize];
        match t.len() {
            0 => Some(Rat::zero()),
            1 if t[0].0 == 0 => Some(t[0].1.clone()),
            _ => None,
        }
    }
    pub fn add_scaled(&mut self, a: NodeId, b: NodeId, k: &Rat) -> NodeId {
        let ta = self.nodes[a as usize].clone();
        let tb = self.nodes[b as usize].clone();
        let mut out: Terms = Vec::with_capacity(ta.len() + tb.len());
        let (mut i, mut j) = (0, 0);
        while i < ta.len() || j < tb.len() {
            if j >= tb.len() || (i < ta.len() && ta[i].0 < tb[j].0) {
                out.push(ta[i].clone());
                i += 1;
            } else if i >= ta.len() || tb[j].0 < ta[i].0 {
                out.push((tb[j].0, &tb[j].1 * k));
                j += 1;
            } else {
                let c = &ta[i].1 + &tb[j].1 * k;
                if !c.is_zero() {
                    out.push((ta[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        self.node(out)
    }
    pub fn add(&mut self, a: NodeId, b: NodeId) -> NodeId {
        self.add_scaled(a, b, &Rat::one())
    }
    pub fn sub(&mut self, a: NodeId, b: NodeId) -> NodeId {
        self.add_scaled(a, b, &-Rat::one())
    }
    pub fn scale(&mut self, a: NodeId, k: &Rat) -> NodeId {
        if k.is_zero() {
            return self.node(vec![]);
        }
        if k.is_one() {
            return a;
        }
        let t = self.nodes[a as usize].iter().map(|(m, c)| (*m, c * k)).collect();
        self.node(t)
    }
    fn mono_mul(&mut self, a: MonoId, b: MonoId) -> MonoId {
        if a == 0 {
            return b;
        }
        if b == 0 {
            return a;
        }
        let ma = self.monos[a as usize].clone();
        let mb = self.monos[b as usize].clone();
        let mut out = Vec::with_capacity(ma.len() + mb.len());
        let (mut i, mut j) = (0, 0);
        while i < ma.len() || j < mb.len() {
            if j >= mb.len() || (i < ma.len() && ma[i].0 < mb[j].0) {
                out.push(ma[i]);
                i += 1;
            } else if i >= ma.len() || mb[j].0 < ma[i].0 {
                out.push(mb[j]);
                j += 1;
            } else {
                let e = ma[i].1 + mb[j].1;
                if e != 0 {
                    out.push((ma[i].0, e));
                }
                i += 1;
                j += 1;
            }
        }
        self.mono(out)
    }
    fn mono_pow(&mut self, a: MonoId, k: i32) -> MonoId {
        let m = self.monos[a as usize].iter().map(|(x, e)| (*x, e * k)).filter(|x| x.1 != 0).collect();
        self.mono(m)
    }
    /// Write a non-constant node as coefficient * monomial (making multi-term sums opaque).
    fn as_factor(&mut self, n: NodeId) -> (MonoId, Rat) {
        let t = self.nodes[n as usize].clone();
        if t.len() == 1 {
            return t[0].clone();
        }
        let c = t[0].1.clone();
        let inv = c.recip();
        let n2 = self.scale(n, &inv);
        let a = self.atom(AtomKey::Sum(n2), f64::NEG_INFINITY, f64::INFINITY);
        let m = self.mono(vec![(a, 1)]);
        (m, c)
    }
    pub fn mul(&mut self, a: NodeId, b: NodeId) -> NodeId {
        if let Some(c) = self.as_const(a) {
            return self.scale(b, &c);
        }
        if let Some(c) = self.as_const(b) {
            return self.scale(a, &c);
        }
        let (m1, c1) = self.as_factor(a);
        let (m2, c2) = self.as_factor(b);
        let m = self.mono_mul(m1, m2);
        let c = c1 * c2;
        self.mono_node(m, c)
    }
    /// coefficient*monomial with the eager sqrt^2 reduction.
    fn mono_node(&mut self, m: MonoId, c: Rat) -> NodeId {
        let mm = self.monos[m as usize].clone();
        for (a, e) in mm.iter() {
            if e.abs() >= 2 {
                if let AtomKey::Fun("sqrt", args, _) = self.atoms[*a as usize].key.clone() {
                    let rest: Vec<_> = mm.iter().filter(|x| x.0 != *a).cloned()
                        .chain(if e % 2 != 0 { Some((*a, e % 2)) } else { None })
                        .collect();
                    let mut rest = rest;
                    rest.sort();
                    let rm = self.mono(rest);
                    let rest = self.mono_node(rm, c);
                    let p = self.powi(args[0], e / 2);
                    return self.mul(rest, p);
                }
            }
        }
        // a Sum atom alone with exponent 1: unwrap
        if mm.len() == 1 && mm[0].1 == 1 {
            if let AtomKey::Sum(n) = self.atoms[mm[0].0 as usize].key {
                return self.scale(n, &c);
            }
        }
        if mm.is_empty() {
            return self.constant(c);
        }
        self.node(vec![(m, c)])
    }
    pub fn inv(&mut self, b: NodeId) -> NodeId {
        if let Some(c) = self.as_const(b) {
            return self.constant(c.recip());
        }
        let (m, c) = self.as_factor(b);
        let m = self.mono_pow(m, -1);
        self.mono_node(m, c.recip())
    }
    pub fn powi(&mut self, a: NodeId, n: i32) -> NodeId {
        if n == 0 {
            return self.constant(Rat::one());
        }
        if let Some(c) = self.as_const(a) {
            let r = num_traits::pow(c, n.unsigned_abs() as usize);
            return self.constant(if n < 0 { r.recip() } else { r });
        }
        if n == 1 {
            return a;
        }
        let (m, c) = self.as_factor(a);
        let m = self.mono_pow(m, n);
        let c = num_traits::pow(c, n.unsigned_abs() as usize);
        self.mono_node(m, if n < 0 { c.recip() } else { c })
    }
    pub fn add_rule(&mut self, r: Rule) {
        let ix = self.rules.len();
        match &r {
            Rule::Pow { atom, .. } => self.atom_rules.entry(*atom).or_default().push(ix),
            Rule::Pair { a, b, .. } => {
                self.atom_rules.entry(*a).or_default().push(ix);
                self.atom_rules.entry(*b).or_default().push(ix);
            }
        }
        self.rules.push(r);
        self.mono_red.clear();
    }
    /// Function atom lookup with the arguments' coefficients rounded, so that
    /// the same mathematical argument reached through differently rounded
    /// constants gives the same atom.  Returns (atom, fresh).
    pub fn fun(&mut self, name: &'static str, args: &[NodeId], par: i64) -> (AtomId, bool) {
        let mut key = format!("{name}:{par}");
        for &a in args {
            key.push('|');
            key.push_str(&self.fuzzy(a));
        }
        if let Some(&i) = self.fun_fuzzy.get(&key) {
            return (i, false);
        }
        let i = self.atom(AtomKey::Fun(name, args.to_vec(), par), f64::NEG_INFINITY, f64::INFINITY);
        self.fun_fuzzy.insert(key, i);
        (i, true)
    }
    fn fuzzy(&mut self, n: NodeId) -> String {
        let s = match self.ratfun(n) {
            Ok(rf) => {
                let mut s = String::new();
                for (m, c) in rf.num.iter() {
                    s.push_str(&format!("{:.11e}*{};", rat_to_f64(c), m));
                }
                for (p, e) in rf.den.iter() {
                    s.push_str(&format!("/({}^{})", p, e));
                }
                s
            }
            Err(_) => format!("#{n}"),
        };
        s
    }

    // ---------------- polynomials ----------------
    fn poly_intern(&mut self, p: Poly) -> u32 {
        let p = Rc::new(p);
        if let Some(&i) = self.poly_ix.get(&p) {
            return i;
        }
        let i = self.polys.len() as u32;
        self.polys.push(p.clone());
        self.poly_ix.insert(p, i);
        i
    }
    fn tick(&mut self, n: usize) -> Result<(), TooBig> {
        self.work += n;
        if self.work > self.budget { Err(TooBig) } else { Ok(()) }
    }
    pub fn pmul(&mut self, a: &Poly, b: &Poly) -> Result<Poly, TooBig> {
        self.tick(a.len() * b.len())?;
        let mut out = Poly::new();
        for (ma, ca) in a {
            for (mb, cb) in b {
                let m = self.mono_mul(*ma, *mb);
                let c = ca * cb;
                let e = out.entry(m).or_insert_with(Rat::zero);
                *e += c;
            }
        }
        out.retain(|_, c| !c.is_zero());
        Ok(out)
    }
    fn padd(a: &mut Poly, b: &Poly) {
        for (m, c) in b {
            let e = a.entry(*m).or_insert_with(Rat::zero);
            *e += c;
            if e.is_zero() {
                a.remove(m);
            }
        }
    }
    fn rf_const(c: Rat) -> RF {
        let mut num = Poly::new();
        if !c.is_zero() {
            num.insert(0, c);
        }
        RF { num, den: BTreeMap::new() }
    }
    fn den_poly(&mut self, den: &BTreeMap<u32, u32>) -> Result<Poly, TooBig> {
        let mut p = Poly::new();
        p.insert(0, Rat::one());
        for (id, e) in den {
            let q = self.polys[*id as usize].clone();
            for _ in 0..*e {
                p = self.pmul(&p, &q)?;
            }
        }
        Ok(p)
    }
    pub fn rf_mul(&mut self, a: &RF, b: &RF) -> Result<RF, TooBig> {
        let mut den = a.den.clone();
        for (k, v) in &b.den {
            *den.entry(*k).or_insert(0) += v;
        }
        let num = self.pmul(&a.num, &b.num)?;
        let rf = self.reduce(RF { num, den })?;
        self.cancel(rf)
    }
    /// cancel the numerator against denominators when it is itself (a multiple of) one of them
    fn cancel(&mut self, mut rf: RF) -> Result<RF, TooBig> {
        if rf.num.is_empty() {
            rf.den.clear();
            return Ok(rf);
        }
        if !rf.den.is_empty() && rf.num.len() > 1 {
            let lead = rf.num.values().next().unwrap().clone();
            let monic: Poly = rf.num.iter().map(|(m, c)| (*m, c / &lead)).collect();
            if let Some(&id) = self.poly_ix.get(&monic) {
                if let Some(e) = rf.den.get_mut(&id) {
                    *e -= 1;
                    if *e == 0 {
                        rf.den.remove(&id);
                    }
                    rf.num = Self::rf_const(lead).num;
                }
            }
        }
        Ok(rf)
    }
    fn rf_inv(&mut self, a: &RF) -> Result<RF, TooBig> {
        let num = self.den_poly(&a.den)?;
        if a.num.len() == 1 {
            let (m, c) = a.num.iter().next().unwrap();
            let mi = self.mono_pow(*m, -1);
            let mut one = Poly::new();
            one.insert(mi, c.recip());
            let num = self.pmul(&num, &one)?;
            return self.reduce(RF { num, den: BTreeMap::new() });
        }
        assert!(!a.num.is_empty(), "symbolic division by an identically zero term");
        let lead = a.num.values().next().unwrap().clone();
        let monic: Poly = a.num.iter().map(|(m, c)| (*m, c / &lead)).collect();
        let id = self.poly_intern(monic);
        let mut den = BTreeMap::new();
        den.insert(id, 1);
        let num = num.iter().map(|(m, c)| (*m, c / &lead)).collect();
        Ok(RF { num, den })
    }
    pub fn rf_add(&mut self, a: &RF, b: &RF) -> Result<RF, TooBig> {
        if a.den == b.den {
            let mut num = a.num.clone();
            self.tick(b.num.len())?;
            Self::padd(&mut num, &b.num);
            let rf = RF { num, den: a.den.clone() };
            return self.cancel(rf);
        }
        let mut den = a.den.clone();
        for (k, v) in &b.den {
            let e = den.entry(*k).or_insert(0);
            *e = (*e).max(*v);
        }
        let missing = |x: &BTreeMap<u32, u32>| -> BTreeMap<u32, u32> {
            den.iter().filter_map(|(k, v)| {
                let h = x.get(k).copied().unwrap_or(0);
                if *v > h { Some((*k, *v - h)) } else { None }
            }).collect()
        };
        let (fa, fb) = (missing(&a.den), missing(&b.den));
        let pa = self.den_poly(&fa)?;
        let pb = self.den_poly(&fb)?;
        let mut num = self.pmul(&a.num, &pa)?;
        let nb = self.pmul(&b.num, &pb)?;
        Self::padd(&mut num, &nb);
        let rf = self.reduce(RF { num, den })?;
        self.cancel(rf)
    }
    /// numerators of two rational functions over their common denominator
    pub fn common(&mut self, a: &RF, b: &RF) -> Result<(Poly, Poly, Poly), TooBig> {
        let mut den = a.den.clone();
        for (k, v) in &b.den {
            let e = den.entry(*k).or_insert(0);
            *e = (*e).max(*v);
        }
        let missing = |x: &BTreeMap<u32, u32>| -> BTreeMap<u32, u32> {
            den.iter().filter_map(|(k, v)| {
                let h = x.get(k).copied().unwrap_or(0);
                if *v > h { Some((*k, *v - h)) } else { None }
            }).collect()
        };
        let (fa, fb) = (missing(&a.den), missing(&b.den));
        let pa = self.den_poly(&fa)?;
        let pb = self.den_poly(&fb)?;
        let na = self.pmul(&a.num, &pa)?;
        let nb = self.pmul(&b.num, &pb)?;
        let na = self.reduce(RF { num: na, den: BTreeMap::new() })?;
        let nb = self.reduce(RF { num: nb, den: BTreeMap::new() })?;
        if !na.den.is_empty() || !nb.den.is_empty() {
            // the rewrite rules brought denominators of their own
            let mut ra = na;
            let mut rb = nb;
            for (k, v) in &den {
                *ra.den.entry(*k).or_insert(0) += v;
                *rb.den.entry(*k).or_insert(0) += v;
            }
            let mut den2 = ra.den.clone();
            for (k, v) in &rb.den {
                let e = den2.entry(*k).or_insert(0);
                *e = (*e).max(*v);
            }
            let miss = |x: &BTreeMap<u32, u32>| -> BTreeMap<u32, u32> {
                den2.iter().filter_map(|(k, v)| {
                    let h = x.get(k).copied().unwrap_or(0);
                    if *v > h { Some((*k, *v - h)) } else { None }
                }).collect()
            };
            let (fa, fb) = (miss(&ra.den), miss(&rb.den));
            let pa = self.den_poly(&fa)?;
            let pb = self.den_poly(&fb)?;
            let na = self.pmul(&ra.num, &pa)?;
            let nb = self.pmul(&rb.num, &pb)?;
            let d = self.den_poly(&den2)?;
            return Ok((na, nb, d));
        }
        let d = self.den_poly(&den)?;
        Ok((na.num, nb.num, d))
    }
    /// index of a rule that applies to the monomial, with the exponent to strip
    fn find_rule(&mut self, m: MonoId) -> Option<usize> {
        if self.rules.is_empty() {
            return None;
        }
        if let Some(false) = self.mono_red.get(&m) {
            return None;
        }
        let mm = self.monos[m as usize].clone();
        for (a, e) in mm.iter() {
            if let Some(rs) = self.atom_rules.get(a) {
                for &ri in rs {
                    match &self.rules[ri] {
                        Rule::Pow { n, inv, .. } => {
                            if *e >= *n || (*e < 0 && inv.is_some()) {
                                return Some(ri);
                            }
                        }
                        Rule::Pair { a: x, b: y, .. } => {
                            let ex = mm.iter().find(|q| q.0 == *x).map(|q| q.1).unwrap_or(0);
                            let ey = mm.iter().find(|q| q.0 == *y).map(|q| q.1).unwrap_or(0);
                            if ex >= 1 && ey >= 1 {
                                return Some(ri);
                            }
                        }
                    }
                }
            }
        }
        self.mono_red.insert(m, false);
        None
    }
    pub fn reduce(&mut self, rf: RF) -> Result<RF, TooBig> {
        if self.rules.is_empty() {
            return Ok(rf);
        }
        let mut rf = rf;
        loop {
            // find the first reducible monomial
            let mut hit = None;
            let keys: Vec<MonoId> = rf.num.keys().copied().collect();
            for m in keys {
                if let Some(r) = self.find_rule(m) {
                    hit = Some(r);
                    break;
                }
            }
            let Some(ri) = hit else { return Ok(rf) };
            let rule = self.rules[ri].clone();
            // split num into untouched part and the part this rule rewrites
            let mut rest = Poly::new();
            let mut pos = Poly::new(); // cofactor of rhs
            let mut neg = Poly::new(); // cofactor of inv
            for (m, c) in rf.num.iter() {
                let mm = self.monos[*m as usize].clone();
                match &rule {
                    Rule::Pow { atom, n, inv, .. } => {
                        let e = mm.iter().find(|q| q.0 == *atom).map(|q| q.1).unwrap_or(0);
                        let strip = if e >= *n { *n } else if e < 0 && inv.is_some() { -*n } else { 0 };
                        if strip == 0 {
                            rest.insert(*m, c.clone());
                        } else {
                            let q: Vec<_> = mm.iter().map(|x| if x.0 == *atom { (x.0, x.1 - strip) } else { *x })
                                .filter(|x| x.1 != 0).collect();
                            let id = self.mono(q);
                            if strip > 0 { pos.insert(id, c.clone()); } else { neg.insert(id, c.clone()); }
                        }
                    }
                    Rule::Pair { a, b, .. } => {
                        let ex = mm.iter().find(|q| q.0 == *a).map(|q| q.1).unwrap_or(0);
                        let ey = mm.iter().find(|q| q.0 == *b).map(|q| q.1).unwrap_or(0);
                        if ex >= 1 && ey >= 1 {
                            let q: Vec<_> = mm.iter().map(|x| if x.0 == *a || x.0 == *b { (x.0, x.1 - 1) } else { *x })
                                .filter(|x| x.1 != 0).collect();
                            let id = self.mono(q);
                            pos.insert(id, c.clone());
                        } else {
                            rest.insert(*m, c.clone());
                        }
                    }
                }
            }
            let (rhs, inv) = match &rule {
                Rule::Pow { rhs, inv, .. } => (*rhs, *inv),
                Rule::Pair { rhs, .. } => (*rhs, None),
            };
            self.tick(rf.num.len())?;
            let mut acc = RF { num: rest, den: BTreeMap::new() };
            if !pos.is_empty() {
                let r = self.ratfun_raw(rhs)?;
                let num = self.pmul(&pos, &r.num)?;
                let t = RF { num, den: r.den.clone() };
                acc = self.rf_add_noreduce(&acc, &t)?;
            }
            if !neg.is_empty() {
                let r = self.ratfun_raw(inv.unwrap())?;
                let num = self.pmul(&neg, &r.num)?;
                let t = RF { num, den: r.den.clone() };
                acc = self.rf_add_noreduce(&acc, &t)?;
            }
            for (k, v) in &rf.den {
                *acc.den.entry(*k).or_insert(0) += v;
            }
            rf = acc;
        }
    }
    fn rf_add_noreduce(&mut self, a: &RF, b: &RF) -> Result<RF, TooBig> {
        if a.num.is_empty() {
            return Ok(b.clone());
        }
        let mut den = a.den.clone();
        for (k, v) in &b.den {
            let e = den.entry(*k).or_insert(0);
            *e = (*e).max(*v);
        }
        let missing = |x: &BTreeMap<u32, u32>| -> BTreeMap<u32, u32> {
            den.iter().filter_map(|(k, v)| {
                let h = x.get(k).copied().unwrap_or(0);
                if *v > h { Some((*k, *v - h)) } else { None }
            }).collect()
        };
        let (fa, fb) = (missing(&a.den), missing(&b.den));
        let pa = self.den_poly(&fa)?;
        let pb = self.den_poly(&fb)?;
        let mut num = self.pmul(&a.num, &pa)?;
        let nb = self.pmul(&b.num, &pb)?;
        Self::padd(&mut num, &nb);
        Ok(RF { num, den })
    }
    fn ratfun_raw(&mut self, n: NodeId) -> Result<Rc<RF>, TooBig> {
        if let Some(r) = self.rf_memo.get(&n) {
            return Ok(r.clone());
        }
        let terms = self.nodes[n as usize].clone();
        let mut acc = Self::rf_const(Rat::zero());
        // group by simple monomials first for speed
        for (m, c) in terms.iter() {
            let mm = self.monos[*m as usize].clone();
            let base: Vec<_> = mm.iter().filter(|(a, _)| !matches!(self.atoms[*a as usize].key, AtomKey::Sum(_))).cloned().collect();
            let sums: Vec<_> = mm.iter().filter(|(a, _)| matches!(self.atoms[*a as usize].key, AtomKey::Sum(_))).cloned().collect();
            let bm = self.mono(base);
            let mut num = Poly::new();
            num.insert(bm, c.clone());
            let mut t = self.reduce(RF { num, den: BTreeMap::new() })?;
            for (a, e) in sums {
                let AtomKey::Sum(s) = self.atoms[a as usize].key else { unreachable!() };
                let r = self.ratfun_raw(s)?;
                let r = if e < 0 { Rc::new(self.rf_inv(&r)?) } else { r };
                for _ in 0..e.abs() {
                    t = self.rf_mul(&t, &r)?;
                }
            }
            acc = self.rf_add(&acc, &t)?;
        }
        let acc = self.cancel(acc)?;
        let acc = Rc::new(acc);
        self.rf_memo.insert(n, acc.clone());
        Ok(acc)
    }
    /// polynomial over base atoms as a node
    pub fn poly_node(&mut self, p: &Poly) -> NodeId {
        let mut out = self.constant(Rat::zero());
        for (m, c) in p.iter() {
            let mut t = self.constant(c.clone());
            for (at, e) in self.monos[*m as usize].clone().iter() {
                let b = self.atom_node(*at);
                let q = self.powi(b, *e);
                t = self.mul(t, q);
            }
            out = self.add(out, t);
        }
        out
    }
    pub fn ratfun(&mut self, n: NodeId) -> Result<Rc<RF>, TooBig> {
        self.work = 0;
        self.ratfun_raw(n)
    }
    /// Numerator with negative powers of base atoms cleared; zero iff the term is identically zero.
    pub fn cleared_num(&mut self, rf: &RF) -> Result<(Poly, MonoId), TooBig> {
        let mut mins: BTreeMap<AtomId, i32> = BTreeMap::new();
        for m in rf.num.keys() {
            for (a, e) in self.monos[*m as usize].iter() {
                if *e < 0 {
                    let x = mins.entry(*a).or_insert(0);
                    *x = (*x).min(*e);
                }
            }
        }
        if mins.is_empty() {
            return Ok((rf.num.clone(), 0));
        }
        let cm: Vec<_> = mins.into_iter().map(|(a, e)| (a, -e)).collect();
        let cm = self.mono(cm);
        let mut one = Poly::new();
        one.insert(cm, Rat::one());
        let p = self.pmul(&rf.num, &one)?;
        Ok((p, cm))
    }

    // ---------------- intervals ----------------
    pub fn interval(&mut self, n: NodeId) -> (f64, f64) {
        if let Some(r) = self.iv_memo.get(&n) {
            return *r;
        }
        let terms = self.nodes[n as usize].clone();
        let (mut lo, mut hi) = (0.0f64, 0.0f64);
        for (m, c) in terms.iter() {
            let (a, b) = self.mono_interval(*m);
            let k = rat_to_f64(c);
            let (x, y) = (mulx(a, k), mulx(b, k));
            lo += x.min(y);
            hi += x.max(y);
        }
        let r = if lo.is_nan() || hi.is_nan() {
            (f64::NEG_INFINITY, f64::INFINITY)
        } else {
            let pad = 1e-13 * (lo.abs().max(hi.abs()).min(1e300));
            (lo - pad, hi + pad)
        };
        // exact constants stay exact in sign
        let r = if let Some(c) = self.as_const(n) { let v = rat_to_f64(&c); (v, v) } else { r };
        self.iv_memo.insert(n, r);
        r
    }
    pub fn clear_intervals(&mut self) {
        self.iv_memo.clear();
    }
    pub fn atom_interval(&mut self, a: AtomId) -> (f64, f64) {
        let info = self.atoms[a as usize].clone();
        let (mut lo, mut hi) = (info.lo, info.hi);
        if let AtomKey::Sum(n) = info.key {
            let (x, y) = self.interval(n);
            lo = lo.max(x);
            hi = hi.min(y);
        }
        (lo, hi)
    }
    pub fn mono_interval(&mut self, m: MonoId) -> (f64, f64) {
        let mm = self.monos[m as usize].clone();
        let (mut lo, mut hi) = (1.0f64, 1.0f64);
        for (a, e) in mm.iter() {
            let (x, y) = self.atom_interval(*a);
            let (x, y) = ipow(x, y, *e);
            let c = [mulx(lo, x), mulx(lo, y), mulx(hi, x), mulx(hi, y)];
            lo = c.iter().cloned().fold(f64::INFINITY, f64::min);
            hi = c.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        }
        (lo, hi)
    }
    pub fn poly_bound(&mut self, p: &Poly) -> f64 {
        let mut s = 0.0;
        for (m, c) in p {
            let (a, b) = self.mono_interval(*m);
            s += mulx(rat_to_f64(c).abs(), a.abs().max(b.abs()));
        }
        s * (1.0 + 1e-9)
    }
    /// base atoms occurring (transitively, through function arguments) in a polynomial
    pub fn atoms_of_poly(&self, p: &Poly, out: &mut std::collections::BTreeSet<AtomId>) {
        for m in p.keys() {
            for (a, _) in self.monos[*m as usize].iter() {
                self.atoms_rec(*a, out);
            }
        }
    }
    pub fn atoms_of_node(&self, n: NodeId, out: &mut std::collections::BTreeSet<AtomId>) {
        for (m, _) in self.nodes[n as usize].iter() {
            for (a, _) in self.monos[*m as usize].iter() {
                self.atoms_rec(*a, out);
            }
        }
    }
    fn atoms_rec(&self, a: AtomId, out: &mut std::collections::BTreeSet<AtomId>) {
        match &self.atoms[a as usize].key {
            AtomKey::Sum(n) => {
                // Sum atoms are kept in `out` too, to stop re-visiting
                if out.insert(a) {
                    self.atoms_of_node(*n, out);
                }
            }
            AtomKey::Var(_) => {
                out.insert(a);
            }
            AtomKey::Fun(_, args, _) => {
                if out.insert(a) {
                    for n in args.clone() {
                        self.atoms_of_node(n, out);
                    }
                    if let Some(rs) = self.atom_rules.get(&a) {
                        for r in rs.clone() {
                            match self.rules[r].clone() {
                                Rule::Pow { rhs, inv, .. } => {
                                    self.atoms_of_node(rhs, out);
                                    if let Some(i) = inv { self.atoms_of_node(i, out); }
                                }
                                Rule::Pair { a: x, b: y, rhs } => {
                                    self.atoms_rec(x, out);
                                    self.atoms_rec(y, out);
                                    self.atoms_of_node(rhs, out);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    pub fn show(&self, n: NodeId) -> String {
        let mut s = String::new();
        for (i, (m, c)) in self.nodes[n as usize].iter().enumerate() {
            if i > 12 {
                s.push_str(" + ...");
                break;
            }
            if i > 0 {
                s.push_str(" + ");
            }
            s.push_str(&format!("{:.6}", rat_to_f64(c)));
            for (a, e) in self.monos[*m as usize].iter() {
                s.push_str(&format!("*{}^{}", self.atom_name(*a), e));
            }
        }
        if s.is_empty() { "0".into() } else { s }
    }
    pub fn atom_name(&self, a: AtomId) -> String {
        match &self.atoms[a as usize].key {
            AtomKey::Var(v) => v.clone(),
            AtomKey::Sum(n) => format!("(#{n})"),
            AtomKey::Fun(f, args, p) => format!("{f}{p}({args:?})"),
        }
    }
    /// numeric evaluation under an assignment of variables (for guiding exploration only)
    pub fn eval(&self, n: NodeId, env: &dyn Fn(AtomId) -> Option<f64>) -> f64 {
        let mut s = 0.0;
        for (m, c) in self.nodes[n as usize].iter() {
            let mut t = rat_to_f64(c);
            for (a, e) in self.monos[*m as usize].iter() {
                let v = match &self.atoms[*a as usize].key {
                    AtomKey::Sum(k) => self.eval(*k, env),
                    _ => env(*a).unwrap_or(f64::NAN),
                };
                t *= v.powi(*e);
            }
            s += t;
        }
        s
    }
}

fn mulx(a: f64, b: f64) -> f64 {
    if a == 0.0 || b == 0.0 { 0.0 } else { a * b }
}
fn ipow(lo: f64, hi: f64, e: i32) -> (f64, f64) {
    if e < 0 {
        if lo > 0.0 || hi < 0.0 {
            return ipow(1.0 / hi, 1.0 / lo, -e);
        }
        return (f64::NEG_INFINITY, f64::INFINITY);
    }
    let (a, b) = (lo.powi(e), hi.powi(e));
    if e % 2 == 0 {
        if lo <= 0.0 && hi >= 0.0 { (0.0, a.max(b)) } else { (a.min(b), a.max(b)) }
    } else {
        (a, b)
    }
}
pub fn bigint_to_smt(n: &BigInt) -> String {
    if n.is_negative() { format!("(- {}.0)", -n) } else { format!("{n}.0") }
}
pub fn rat_to_smt(r: &Rat) -> String {
    if r.denom().is_one() {
        bigint_to_smt(r.numer())
    } else if r.is_negative() {
        format!("(- (/ {}.0 {}.0))", -r.numer(), r.denom())
    } else {
        format!("(/ {}.0 {}.0)", r.numer(), r.denom())
    }
}
