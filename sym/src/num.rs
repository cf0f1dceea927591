//! `Sym`: a scalar that is either a concrete f64 or a symbolic real term.
//! It implements every numeric trait the code under test is generic over, so
//! the compiled functions of sci-rs run on it unchanged.
use crate::arena::*;
use crate::path::*;
use num_traits::{Float, FloatConst, FromPrimitive, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::num::FpCategory;
use std::ops::*;

#[derive(Clone, Copy)]
pub enum Sym {
    C(f64),
    T(NodeId),
}
use Sym::*;

pub fn mk(n: NodeId) -> Sym {
    match with(|a| a.as_const(n)) {
        Some(r) => match exact_f64(&r) {
            Some(x) => C(x),
            None => T(n),
        },
        None => T(n),
    }
}
impl Sym {
    pub fn node(self) -> NodeId {
        match self {
            T(n) => n,
            C(x) => {
                if !x.is_finite() {
                    unsupported("non-finite constant in a symbolic term");
                }
                with(|a| {
                    let r = rat_of_f64(x);
                    a.constant(r)
                })
            }
        }
    }
    /// concrete value, if the term is constant
    pub fn concrete(self) -> Option<f64> {
        match self {
            C(x) => Some(x),
            T(n) => with(|a| a.as_const(n)).map(|r| rat_to_f64(&r)),
        }
    }
    pub fn interval(self) -> (f64, f64) {
        match self {
            C(x) => (x, x),
            T(n) => with(|a| a.interval(n)),
        }
    }
    fn cmp_mask(self, o: Sym, mask: u8) -> bool {
        match (self, o) {
            (C(a), C(b)) => {
                let m = match a.partial_cmp(&b) {
                    Some(Ordering::Less) => LT,
                    Some(Ordering::Equal) => EQ,
                    Some(Ordering::Greater) => GT,
                    None => return mask == NE,
                };
                m & mask != 0
            }
            (C(a), T(_)) if !a.is_finite() => {
                if a.is_nan() {
                    return mask == NE;
                }
                (if a > 0.0 { GT } else { LT }) & mask != 0
            }
            (T(_), C(b)) if !b.is_finite() => {
                if b.is_nan() {
                    return mask == NE;
                }
                (if b > 0.0 { LT } else { GT }) & mask != 0
            }
            (a, b) => {
                let d = sub(a, b);
                match d {
                    C(x) => (if x < 0.0 { LT } else if x > 0.0 { GT } else { EQ }) & mask != 0,
                    T(n) => decide(n, mask),
                }
            }
        }
    }
}
fn sub(a: Sym, b: Sym) -> Sym {
    let (x, y) = (a.node(), b.node());
    mk(with(|ar| ar.sub(x, y)))
}

impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            C(x) => write!(f, "{x:?}"),
            T(n) => write!(f, "<{}>", with(|a| a.show(*n))),
        }
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl fmt::LowerExp for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl Default for Sym {
    fn default() -> Self {
        C(0.0)
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Self) -> bool {
        self.cmp_mask(*o, EQ)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        if self.nan() || o.nan() {
            return None;
        }
        Some(if self.cmp_mask(*o, LT) {
            Ordering::Less
        } else if self.cmp_mask(*o, EQ) {
            Ordering::Equal
        } else {
            Ordering::Greater
        })
    }
    fn lt(&self, o: &Self) -> bool {
        self.cmp_mask(*o, LT)
    }
    fn le(&self, o: &Self) -> bool {
        self.cmp_mask(*o, LE)
    }
    fn gt(&self, o: &Self) -> bool {
        self.cmp_mask(*o, GT)
    }
    fn ge(&self, o: &Self) -> bool {
        self.cmp_mask(*o, GE)
    }
}
impl Sym {
    fn nan(self) -> bool {
        matches!(self, C(x) if x.is_nan())
    }
    fn nonfin(self) -> bool {
        matches!(self, C(x) if !x.is_finite())
    }
}

fn arith(op: u8, a: Sym, b: Sym) -> Sym {
    match (a, b) {
        (C(x), C(y)) => {
            return C(match op {
                0 => x + y,
                1 => x - y,
                2 => x * y,
                _ => x / y,
            })
        }
        _ => {}
    }
    // a non-finite constant meeting a (finite) symbolic value
    if a.nonfin() || b.nonfin() {
        if a.nan() || b.nan() {
            return C(f64::NAN);
        }
        let sg = |s: Sym| -> f64 {
            match s {
                C(x) => x.signum(),
                T(n) => if decide(n, LT) { -1.0 } else if decide(n, EQ) { 0.0 } else { 1.0 },
            }
        };
        return C(match op {
            0 => if let C(x) = a { x } else if let C(y) = b { y } else { unreachable!() },
            1 => if let C(x) = a { x } else if let C(y) = b { -y } else { unreachable!() },
            2 => {
                let s = sg(a) * sg(b);
                if s == 0.0 { f64::NAN } else { s * f64::INFINITY }
            }
            _ => {
                if b.nonfin() { 0.0 } else {
                    let s = sg(b);
                    if s == 0.0 { if let C(x) = a { x } else { f64::NAN } } else if let C(x) = a { x * s } else { unreachable!() }
                }
            }
        });
    }
    match op {
        0 => {
            if let C(x) = a { if x == 0.0 { return b; } }
            if let C(x) = b { if x == 0.0 { return a; } }
            let (x, y) = (a.node(), b.node());
            mk(with(|ar| ar.add(x, y)))
        }
        1 => {
            if let C(x) = b { if x == 0.0 { return a; } }
            let (x, y) = (a.node(), b.node());
            mk(with(|ar| ar.sub(x, y)))
        }
        2 => {
            if matches!(a, C(x) if x == 0.0) || matches!(b, C(x) if x == 0.0) {
                return C(0.0);
            }
            let (x, y) = (a.node(), b.node());
            mk(with(|ar| ar.mul(x, y)))
        }
        _ => {
            if let C(y) = b {
                if y == 0.0 {
                    // finite / constant zero
                    let T(n) = a else { unreachable!() };
                    let s = if decide(n, EQ) { f64::NAN } else if decide(n, LT) { f64::NEG_INFINITY } else { f64::INFINITY };
                    return C(s * if y.is_sign_negative() { -1.0 } else { 1.0 });
                }
            }
            let y = b.node();
            if div_is_zero(y) {
                // division by a term equal to zero on this path
                return match a {
                    C(x) => C(x / 0.0),
                    T(n) => if decide(n, EQ) { C(f64::NAN) } else if decide(n, LT) { C(f64::NEG_INFINITY) } else { C(f64::INFINITY) },
                };
            }
            if matches!(a, C(x) if x == 0.0) {
                return C(0.0);
            }
            let x = a.node();
            mk(with(|ar| {
                let i = ar.inv(y);
                ar.mul(x, i)
            }))
        }
    }
}

macro_rules! ops {
    ($($tr:ident $f:ident $tra:ident $fa:ident $op:expr;)*) => {$(
        impl $tr for Sym { type Output = Sym; fn $f(self, o: Sym) -> Sym { arith($op, self, o) } }
        impl<'a> $tr<&'a Sym> for Sym { type Output = Sym; fn $f(self, o: &Sym) -> Sym { arith($op, self, *o) } }
        impl<'a> $tr<Sym> for &'a Sym { type Output = Sym; fn $f(self, o: Sym) -> Sym { arith($op, *self, o) } }
        impl<'a, 'b> $tr<&'a Sym> for &'b Sym { type Output = Sym; fn $f(self, o: &Sym) -> Sym { arith($op, *self, *o) } }
        impl $tra for Sym { fn $fa(&mut self, o: Sym) { *self = arith($op, *self, o) } }
        impl<'a> $tra<&'a Sym> for Sym { fn $fa(&mut self, o: &Sym) { *self = arith($op, *self, *o) } }
    )*};
}
ops! {
    Add add AddAssign add_assign 0;
    Sub sub SubAssign sub_assign 1;
    Mul mul MulAssign mul_assign 2;
    Div div DivAssign div_assign 3;
}
/// x - m*trunc(x/m)
fn rem(a: Sym, b: Sym) -> Sym {
    if let (C(x), C(y)) = (a, b) {
        return C(x % y);
    }
    if a.nonfin() || b.nan() {
        return C(f64::NAN);
    }
    if b.nonfin() {
        return a;
    }
    if matches!(b, C(x) if x == 0.0) {
        return C(f64::NAN);
    }
    if let T(y) = b {
        if div_is_zero(y) {
            return C(f64::NAN);
        }
    }
    let q = Float::trunc(a / b);
    a - b * q
}
impl Rem for Sym { type Output = Sym; fn rem(self, o: Sym) -> Sym { rem(self, o) } }
impl<'a> Rem<&'a Sym> for Sym { type Output = Sym; fn rem(self, o: &Sym) -> Sym { rem(self, *o) } }
impl<'a> Rem<Sym> for &'a Sym { type Output = Sym; fn rem(self, o: Sym) -> Sym { rem(*self, o) } }
impl<'a, 'b> Rem<&'a Sym> for &'b Sym { type Output = Sym; fn rem(self, o: &Sym) -> Sym { rem(*self, *o) } }
impl RemAssign for Sym { fn rem_assign(&mut self, o: Sym) { *self = rem(*self, o) } }
impl<'a> RemAssign<&'a Sym> for Sym { fn rem_assign(&mut self, o: &Sym) { *self = rem(*self, *o) } }
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        match self {
            C(x) => C(-x),
            T(n) => mk(with(|a| {
                let k = -Rat::one();
                a.scale(n, &k)
            })),
        }
    }
}
impl<'a> Neg for &'a Sym { type Output = Sym; fn neg(self) -> Sym { -*self } }
impl std::iter::Sum for Sym { fn sum<I: Iterator<Item = Sym>>(i: I) -> Sym { i.fold(C(0.0), |a, b| a + b) } }
impl<'a> std::iter::Sum<&'a Sym> for Sym { fn sum<I: Iterator<Item = &'a Sym>>(i: I) -> Sym { i.fold(C(0.0), |a, b| a + *b) } }
impl std::iter::Product for Sym { fn product<I: Iterator<Item = Sym>>(i: I) -> Sym { i.fold(C(1.0), |a, b| a * b) } }
impl<'a> std::iter::Product<&'a Sym> for Sym { fn product<I: Iterator<Item = &'a Sym>>(i: I) -> Sym { i.fold(C(1.0), |a, b| a * *b) } }
impl Zero for Sym {
    fn zero() -> Self { C(0.0) }
    fn is_zero(&self) -> bool { *self == C(0.0) }
}
impl One for Sym { fn one() -> Self { C(1.0) } }
impl Num for Sym {
    type FromStrRadixErr = num_traits::ParseFloatError;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(C)
    }
}
impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> { self.conc_or_stop().to_i64() }
    fn to_u64(&self) -> Option<u64> { self.conc_or_stop().to_u64() }
    fn to_f64(&self) -> Option<f64> { Some(self.conc_or_stop()) }
    fn to_f32(&self) -> Option<f32> { Some(self.conc_or_stop() as f32) }
    fn to_i128(&self) -> Option<i128> { self.conc_or_stop().to_i128() }
    fn to_u128(&self) -> Option<u128> { self.conc_or_stop().to_u128() }
    fn to_usize(&self) -> Option<usize> { self.conc_or_stop().to_usize() }
    fn to_isize(&self) -> Option<isize> { self.conc_or_stop().to_isize() }
    fn to_u8(&self) -> Option<u8> { self.conc_or_stop().to_u8() }
    fn to_u16(&self) -> Option<u16> { self.conc_or_stop().to_u16() }
    fn to_u32(&self) -> Option<u32> { self.conc_or_stop().to_u32() }
    fn to_i8(&self) -> Option<i8> { self.conc_or_stop().to_i8() }
    fn to_i16(&self) -> Option<i16> { self.conc_or_stop().to_i16() }
    fn to_i32(&self) -> Option<i32> { self.conc_or_stop().to_i32() }
}
impl Sym {
    fn conc_or_stop(&self) -> f64 {
        match self.concrete() {
            Some(x) => x,
            None => unsupported("conversion of a symbolic value to a machine number"),
        }
    }
}
impl FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Self> { Some(C(n as f64)) }
    fn from_u64(n: u64) -> Option<Self> { Some(C(n as f64)) }
    fn from_f64(n: f64) -> Option<Self> { Some(C(n)) }
    fn from_f32(n: f32) -> Option<Self> { Some(C(n as f64)) }
    fn from_i128(n: i128) -> Option<Self> { Some(C(n as f64)) }
    fn from_u128(n: u128) -> Option<Self> { Some(C(n as f64)) }
}
impl NumCast for Sym {
    fn from<X: ToPrimitive>(n: X) -> Option<Self> {
        // A symbolic value cast to its own type stays symbolic.
        if std::any::type_name::<X>() == std::any::type_name::<Sym>() && std::mem::size_of::<X>() == std::mem::size_of::<Sym>() {
            let s: Sym = unsafe { std::ptr::read(&n as *const X as *const Sym) };
            return Some(s);
        }
        n.to_f64().map(C)
    }
}
impl Signed for Sym {
    fn abs(&self) -> Self { Float::abs(*self) }
    fn abs_sub(&self, o: &Self) -> Self { if *self <= *o { C(0.0) } else { *self - *o } }
    fn signum(&self) -> Self { Float::signum(*self) }
    fn is_positive(&self) -> bool { *self > C(0.0) }
    fn is_negative(&self) -> bool { *self < C(0.0) }
}
macro_rules! consts { ($($n:ident)*) => { impl FloatConst for Sym { $( fn $n() -> Self { C(std::f64::consts::$n) } )* } } }
consts!(E FRAC_1_PI FRAC_1_SQRT_2 FRAC_2_PI FRAC_2_SQRT_PI FRAC_PI_2 FRAC_PI_3 FRAC_PI_4 FRAC_PI_6 FRAC_PI_8 LN_10 LN_2 LOG10_E LOG2_E PI SQRT_2);

fn down(x: f64) -> f64 { if x.is_finite() { x - x.abs() * 1e-12 - 1e-300 } else { x } }
fn up(x: f64) -> f64 { if x.is_finite() { x + x.abs() * 1e-12 + 1e-300 } else { x } }

fn set_iv(a: AtomId, lo: f64, hi: f64) {
    with(|ar| {
        ar.atoms[a as usize].lo = if lo.is_nan() { f64::NEG_INFINITY } else { lo };
        ar.atoms[a as usize].hi = if hi.is_nan() { f64::INFINITY } else { hi };
    })
}
fn atom_sym(a: AtomId) -> Sym {
    T(with(|ar| ar.atom_node(a)))
}
fn lit(n: NodeId, mask: u8) -> Lit { Lit { node: n, mask } }
fn diff(a: NodeId, b: NodeId) -> NodeId { with(|ar| ar.sub(a, b)) }

/// monotone increasing uninterpreted function with a numeric enclosure
fn mono_fun(name: &'static str, par: i64, arg: Sym, f: impl Fn(f64) -> f64) -> Sym {
    if let Some(x) = arg.concrete() {
        return C(f(x));
    }
    let n = arg.node();
    let (a, fresh) = with(|ar| ar.fun(name, &[n], par));
    if fresh {
        let (lo, hi) = arg.interval();
        set_iv(a, down(f(lo)), up(f(hi)));
        let an = atom_sym(a).node();
        let others: Vec<(AtomId, NodeId)> = with(|ar| ar.atoms.iter().enumerate().filter_map(|(i, x)| match &x.key {
            AtomKey::Fun(m, g, p) if *m == name && *p == par && i as u32 != a => Some((i as u32, g[0])),
            _ => None,
        }).collect());
        for (o, g) in others {
            let on = atom_sym(o).node();
            let da = diff(n, g);
            let df = diff(an, on);
            add_axiom2(a, o, vec![lit(da, GE), lit(df, LT)]);
            add_axiom2(a, o, vec![lit(da, LE), lit(df, GT)]);
            add_axiom2(a, o, vec![lit(da, NE), lit(df, EQ)]);
        }
    }
    atom_sym(a)
}

fn floor_sym(x: Sym) -> Sym {
    let n = x.node();
    let (a, fresh) = with(|ar| ar.fun("floor", &[n], 0));
    if fresh {
        let (lo, hi) = x.interval();
        set_iv(a, lo.floor(), hi.floor());
        with(|ar| ar.atoms[a as usize].is_int = true);
        let an = atom_sym(a).node();
        let d = diff(n, an); // 0 <= x - q < 1
        add_axiom(a, vec![lit(d, GE)]);
        let one = C(1.0).node();
        let d1 = diff(d, one);
        add_axiom(a, vec![lit(d1, LT)]);
    }
    let (lo, hi) = with(|ar| ar.atom_interval(a));
    if lo == hi {
        return C(lo);
    }
    atom_sym(a)
}

/// largest square factor of a positive rational that we extract: powers of 4 and whole perfect squares
fn square_part(r: &Rat) -> Rat {
    let (n, d) = (r.numer().clone(), r.denom().clone());
    if n.bits() < 600 && d.bits() < 600 {
        let (sn, sd) = (n.sqrt(), d.sqrt());
        if &sn * &sn == n && &sd * &sd == d {
            return Rat::new(sn, sd);
        }
    }
    let (mut n, mut d) = (n, d);
    let mut out = Rat::one();
    let four = num_bigint::BigInt::from(4);
    let two = Rat::from_integer(2.into());
    while !n.is_zero() && (&n % &four).is_zero() {
        n /= &four;
        out *= &two;
    }
    while (&d % &four).is_zero() {
        d /= &four;
        out = &out / &two;
    }
    out
}

/// short terms over rewritten atoms: bring them to normal form
fn canon_small(n: NodeId) -> NodeId {
    with(|a| {
        if a.nodes[n as usize].len() > 6 || a.rules.is_empty() {
            return n;
        }
        let Ok(rf) = a.ratfun(n) else { return n };
        if !rf.den.is_empty() || rf.num.is_empty() || rf.num.len() > 4 {
            return n;
        }
        let p = rf.num.clone();
        if p.len() >= a.nodes[n as usize].len() {
            return n;
        }
        a.poly_node(&p)
    })
}
pub fn sqrt_sym(x: Sym) -> Sym {
    if let Some(v) = x.concrete() {
        return C(v.sqrt());
    }
    let n = x.node();
    if decide(n, LT) {
        return C(f64::NAN);
    }
    // sqrt(p / q) = sqrt(p) / sqrt(q) for short terms with q of known sign
    let split = with(|a| {
        let t = a.nodes[n as usize].clone();
        if t.len() < 2 || t.len() > 6 || !t.iter().any(|(m, _)| a.monos[*m as usize].iter().any(|x| x.1 < 0)) {
            return None;
        }
        let rf = a.ratfun(n).ok()?;
        if rf.num.len() > 6 {
            return None;
        }
        let (num, clear) = a.cleared_num(&rf).ok()?;
        let mut den = a.poly_node(&{ let mut p = Poly::new(); p.insert(clear, Rat::one()); p });
        for (k, e) in rf.den.clone() {
            let p = a.polys[k as usize].clone();
            if p.len() > 4 {
                return None;
            }
            let q = a.poly_node(&p);
            for _ in 0..e {
                den = a.mul(den, q);
            }
        }
        let num = a.reduce(RF { num, den: Default::default() }).ok()?;
        if !num.den.is_empty() {
            return None;
        }
        let pn = a.poly_node(&num.num);
        let (lo, hi) = a.interval(den);
        if lo > 0.0 { Some((pn, den)) } else if hi < 0.0 { let m = -Rat::one(); Some((a.scale(pn, &m), a.scale(den, &m))) } else { None }
    });
    if let Some((p, q)) = split {
        if p != n && with(|a| a.as_const(q)).is_none() {
            return sqrt_sym(mk(p)) / sqrt_sym(mk(q));
        }
    }
    let x = { let c = canon_small(n); mk(c) };
    let n = match x { C(v) => return C(v.sqrt()), T(n) => n };
    // sqrt(c * m^2) = sqrt(c) * |m|
    let t = with(|a| a.nodes[n as usize].clone());
    if t.len() == 1 {
        let m = with(|a| a.monos[t[0].0 as usize].clone());
        if m.iter().all(|x| x.1 % 2 == 0) && t[0].1.is_positive() {
            let h = with(|a| {
                let h: Vec<_> = m.iter().map(|x| (x.0, x.1 / 2)).collect();
                let mut node = a.constant(Rat::one());
                for (at, e) in h {
                    let b = match a.atoms[at as usize].key.clone() {
                        AtomKey::Sum(s) => s,
                        _ => a.atom_node(at),
                    };
                    let p = a.powi(b, e);
                    node = a.mul(node, p);
                }
                node
            });
            let c = rat_to_f64(&t[0].1).sqrt();
            let sq = square_part(&t[0].1);
            let c = if &sq * &sq == t[0].1 { let q = with(|a| a.constant(sq)); mk(q) } else { C(c) };
            return c * Float::abs(mk(h));
        }
    }
    // pull square factors out of the coefficients
    let lead = t[0].1.clone();
    let sp = if lead.is_positive() { square_part(&lead) } else { square_part(&-lead) };
    if !sp.is_one() && !sp.is_zero() {
        let k = (&sp * &sp).recip();
        let n2 = with(|a| a.scale(n, &k));
        let s = sqrt_atom(mk(n2));
        let f = with(|a| a.constant(sp));
        return mk(f) * s;
    }
    sqrt_atom(x)
}
fn sqrt_atom(x: Sym) -> Sym {
    if let Some(v) = x.concrete() {
        return C(v.sqrt());
    }
    let n = x.node();
    let (a, fresh) = with(|ar| ar.fun("sqrt", &[n], 0));
    if fresh {
        let (lo, hi) = x.interval();
        set_iv(a, down(lo.max(0.0).sqrt()).max(0.0), up(hi.max(0.0).sqrt()));
        with(|ar| ar.add_rule(Rule::Pow { atom: a, n: 2, rhs: n, inv: None }));
    }
    atom_sym(a)
}

/// coefficient and atom if the node is exactly c * fun-atom
fn single_fun(n: NodeId) -> Option<(Rat, AtomId, &'static str, Vec<NodeId>, i64)> {
    with(|ar| {
        let t = ar.nodes[n as usize].clone();
        if t.len() != 1 {
            return None;
        }
        let m = ar.monos[t[0].0 as usize].clone();
        if m.len() != 1 || m[0].1 != 1 {
            return None;
        }
        match &ar.atoms[m[0].0 as usize].key {
            AtomKey::Fun(f, a, p) => Some((t[0].1.clone(), m[0].0, *f, a.clone(), *p)),
            _ => None,
        }
    })
}

/// exp(asinh(arg)/n) as an algebraic atom, n >= 1
fn e_atom(arg: NodeId, n: i64) -> Sym {
    let x = mk(arg);
    let y = sqrt_sym(x * x + C(1.0));
    if n == 1 {
        return x + y;
    }
    let (a, fresh) = with(|ar| ar.fun("E", &[arg], n));
    if fresh {
        let (lo, hi) = x.interval();
        let f = |v: f64| (v.asinh() / n as f64).exp();
        set_iv(a, down(f(lo)).max(1e-300), up(f(hi)));
        let rhs = (x + y).node();
        let inv = (y - x).node();
        with(|ar| ar.add_rule(Rule::Pow { atom: a, n: n as i32, rhs, inv: Some(inv) }));
    }
    atom_sym(a)
}
fn exp_pair(x: Sym) -> (Sym, Sym) {
    // (e^x, e^-x)
    if let Some(v) = x.concrete() {
        return (C(v.exp()), C((-v).exp()));
    }
    let n = x.node();
    if let Some((c, _, "asinh", args, _)) = single_fun(n) {
        let inv = rat_to_f64(&c.recip());
        let k = inv.round();
        if k != 0.0 && (inv - k).abs() < 1e-9 {
            let e = e_atom(args[0], k.abs() as i64);
            let i = inv_pos(e);
            return if k > 0.0 { (e, i) } else { (i, e) };
        }
        let cf = rat_to_f64(&c);
        let k = cf.round();
        if k != 0.0 && (cf - k).abs() < 1e-9 {
            let e = Float::powi(e_atom(args[0], 1), k.abs() as i32);
            let i = inv_pos(e);
            return if k > 0.0 { (e, i) } else { (i, e) };
        }
    }
    // sign-canonical argument
    let neg = with(|ar| ar.nodes[n as usize][0].1.is_negative());
    let base = if neg { -x } else { x };
    let e = mono_fun("exp", 0, base, f64::exp);
    if let T(en) = e {
        add_axiom_node(en, vec![lit(en, GT)]);
    }
    let i = inv_pos(e);
    if neg { (i, e) } else { (e, i) }
}
fn inv_pos(e: Sym) -> Sym {
    match e {
        C(x) => C(1.0 / x),
        T(n) => mk(with(|a| a.inv(n))),
    }
}

/// cos/sin of a rational multiple of an atan2 angle
fn theta_cs(c: &Rat, args: &[NodeId]) -> Option<(Sym, Sym)> {
    let (im, re) = (mk(args[0]), mk(args[1]));
    let cf = rat_to_f64(c);
    let (neg, k) = (cf < 0.0, cf.abs());
    let h = sqrt_sym(re * re + im * im);
    let (co, si) = if (k - 1.0).abs() < 1e-12 {
        (re / h, im / h)
    } else if (k - 0.5).abs() < 1e-12 {
        let (u, v) = half_atoms(re, im, h);
        let r = sqrt_sym(h);
        (u / r, v / r)
    } else if (k - k.round()).abs() < 1e-12 && k.round() <= 16.0 {
        let m = k.round() as i32;
        let (c1, s1) = (re / h, im / h);
        let (mut c, mut s) = (C(1.0), C(0.0));
        for _ in 0..m {
            (c, s) = (c * c1 - s * s1, c * s1 + s * c1);
        }
        (c, s)
    } else {
        return None;
    };
    Some((co, if neg { -si } else { si }))
}
/// (U, V) with U + iV the principal square root of re + i*im
fn half_atoms(re: Sym, im: Sym, h: Sym) -> (Sym, Sym) {
    let (rn, inn) = (re.node(), im.node());
    let (u, fresh) = with(|ar| ar.fun("halfU", &[rn, inn], 0));
    let (v, _) = with(|ar| ar.fun("halfV", &[rn, inn], 0));
    if fresh {
        let (_, hh) = h.interval();
        let b = up(hh.max(0.0).sqrt());
        set_iv(u, 0.0, b);
        set_iv(v, -b, b);
        let half = C(0.5);
        let u2 = ((h + re) * half).node();
        let v2 = ((h - re) * half).node();
        let uv = (im * half).node();
        let (us, vs) = (atom_sym(u), atom_sym(v));
        let uh = (vs * im + us * re).node();
        let vh = (us * im - vs * re).node();
        let hn = h.node();
        let hat = with(|ar| {
            let t = ar.nodes[hn as usize].clone();
            if t.len() == 1 && t[0].1.is_one() {
                let m = ar.monos[t[0].0 as usize].clone();
                if m.len() == 1 && m[0].1 == 1 { Some(m[0].0) } else { None }
            } else { None }
        });
        with(|ar| {
            ar.add_rule(Rule::Pow { atom: u, n: 2, rhs: u2, inv: None });
            ar.add_rule(Rule::Pow { atom: v, n: 2, rhs: v2, inv: None });
            ar.add_rule(Rule::Pair { a: u, b: v, rhs: uv });
            if let Some(ha) = hat {
                ar.add_rule(Rule::Pair { a: u, b: ha, rhs: uh });
                ar.add_rule(Rule::Pair { a: v, b: ha, rhs: vh });
            }
        });
        let vi = (vs * im).node();
        add_axiom(v, vec![lit(vi, GE)]);
    }
    (atom_sym(u), atom_sym(v))
}

fn sincos_sym(x: Sym) -> (Sym, Sym) {
    if let Some(v) = x.concrete() {
        return (C(v.sin()), C(v.cos()));
    }
    let n = x.node();
    if let Some((c, _, "theta", args, _)) = single_fun(n) {
        if let Some((co, si)) = theta_cs(&c, &args) {
            return (si, co);
        }
        unsupported("sin/cos of an unusual multiple of atan2");
    }
    let neg = with(|ar| ar.nodes[n as usize][0].1.is_negative());
    let b = if neg { -x } else { x };
    let bn = b.node();
    let (s, fresh) = with(|ar| ar.fun("sin", &[bn], 0));
    let (c, _) = with(|ar| ar.fun("cos", &[bn], 0));
    if fresh {
        let (lo, hi) = b.interval();
        set_iv(s, -1.0, 1.0);
        set_iv(c, -1.0, 1.0);
        if lo >= 0.0 && hi <= std::f64::consts::PI { set_iv(s, 0.0, 1.0); }
        if lo >= -std::f64::consts::FRAC_PI_2 && hi <= std::f64::consts::FRAC_PI_2 { set_iv(c, 0.0, 1.0); }
        let sn = atom_sym(s);
        let rhs = (C(1.0) - sn * sn).node();
        with(|ar| ar.add_rule(Rule::Pow { atom: c, n: 2, rhs, inv: None }));
    }
    let (s, c) = (atom_sym(s), atom_sym(c));
    (if neg { -s } else { s }, c)
}

macro_rules! opaque { ($name:literal, $x:expr, $f:expr) => {{
    let x: Sym = $x;
    match x.concrete() { Some(v) => C(($f)(v)), None => { let n = x.node(); let (a, _) = with(|ar| ar.fun($name, &[n], 0)); atom_sym(a) } }
}} }

impl Float for Sym {
    fn nan() -> Self { C(f64::NAN) }
    fn infinity() -> Self { C(f64::INFINITY) }
    fn neg_infinity() -> Self { C(f64::NEG_INFINITY) }
    fn neg_zero() -> Self { C(-0.0) }
    fn min_value() -> Self { C(f64::MIN) }
    fn min_positive_value() -> Self { C(f64::MIN_POSITIVE) }
    fn epsilon() -> Self { C(f64::EPSILON) }
    fn max_value() -> Self { C(f64::MAX) }
    fn is_nan(self) -> bool { self.nan() }
    fn is_infinite(self) -> bool { matches!(self, C(x) if x.is_infinite()) }
    fn is_finite(self) -> bool { !self.nonfin() }
    fn is_normal(self) -> bool { match self { C(x) => x.is_normal(), T(_) => self != C(0.0) } }
    fn classify(self) -> FpCategory { match self { C(x) => x.classify(), T(_) => if self == C(0.0) { FpCategory::Zero } else { FpCategory::Normal } } }
    fn floor(self) -> Self { match self { C(x) => C(x.floor()), _ => floor_sym(self) } }
    fn ceil(self) -> Self { match self { C(x) => C(x.ceil()), _ => -floor_sym(-self) } }
    fn round(self) -> Self {
        match self { C(x) => C(x.round()), _ => if self < C(0.0) { -floor_sym(-self + C(0.5)) } else { floor_sym(self + C(0.5)) } }
    }
    fn trunc(self) -> Self {
        match self { C(x) => C(x.trunc()), _ => if self < C(0.0) { -floor_sym(-self) } else { floor_sym(self) } }
    }
    fn fract(self) -> Self { self - Float::trunc(self) }
    fn abs(self) -> Self {
        match self { C(x) => C(x.abs()), _ => if self < C(0.0) { -self } else { self } }
    }
    fn signum(self) -> Self {
        match self { C(x) => C(x.signum()), _ => if self < C(0.0) { C(-1.0) } else { C(1.0) } }
    }
    fn is_sign_positive(self) -> bool { match self { C(x) => x.is_sign_positive(), _ => self >= C(0.0) } }
    fn is_sign_negative(self) -> bool { match self { C(x) => x.is_sign_negative(), _ => self < C(0.0) } }
    fn mul_add(self, a: Self, b: Self) -> Self { self * a + b }
    fn recip(self) -> Self { C(1.0) / self }
    fn powi(self, n: i32) -> Self {
        match self {
            C(x) => C(x.powi(n)),
            T(t) => {
                if n < 0 { return C(1.0) / Float::powi(self, -n); }
                mk(with(|a| a.powi(t, n)))
            }
        }
    }
    fn powf(self, e: Self) -> Self {
        match (self.concrete(), e.concrete()) {
            (Some(x), Some(y)) => C(x.powf(y)),
            (None, Some(y)) if y == y.round() && y.abs() < 64.0 => Float::powi(self, y as i32),
            (None, Some(y)) if y == 0.5 => sqrt_sym(self),
            (None, Some(y)) if y == -0.5 => C(1.0) / sqrt_sym(self),
            (Some(x), None) if x > 1.0 && x.is_finite() => {
                // x^e with the sign of the exponent made canonical, keyed by the base
                let n = e.node();
                let neg = with(|ar| ar.nodes[n as usize][0].1.is_negative());
                let b = if neg { -e } else { e };
                let p = mono_fun("powf", x.to_bits() as i64, b, |v| x.powf(v));
                if let T(pn) = p { add_axiom_node(pn, vec![lit(pn, GT)]); }
                if neg { inv_pos(p) } else { p }
            }
            _ => unsupported("powf with a symbolic base and non-integer exponent"),
        }
    }
    fn sqrt(self) -> Self { sqrt_sym(self) }
    fn exp(self) -> Self { exp_pair(self).0 }
    fn exp2(self) -> Self { Float::powf(C(2.0), self) }
    fn ln(self) -> Self {
        if let Some(x) = self.concrete() { return C(x.ln()); }
        if !(self > C(0.0)) { return if self == C(0.0) { C(f64::NEG_INFINITY) } else { C(f64::NAN) }; }
        if let Some((c, _, "exp", a, _)) = single_fun(self.node()) { if c.is_one() { return mk(a[0]); } }
        mono_fun("ln", 0, self, f64::ln)
    }
    fn log(self, b: Self) -> Self { Float::ln(self) / Float::ln(b) }
    fn log2(self) -> Self { match self.concrete() { Some(x) => C(x.log2()), None => Float::ln(self) / C(2f64.ln()) } }
    fn log10(self) -> Self { match self.concrete() { Some(x) => C(x.log10()), None => Float::ln(self) / C(10f64.ln()) } }
    fn max(self, o: Self) -> Self { if self.nan() { return o; } if o.nan() { return self; } if self < o { o } else { self } }
    fn min(self, o: Self) -> Self { if self.nan() { return o; } if o.nan() { return self; } if o < self { o } else { self } }
    fn abs_sub(self, o: Self) -> Self { if self <= o { C(0.0) } else { self - o } }
    fn cbrt(self) -> Self { opaque!("cbrt", self, f64::cbrt) }
    fn hypot(self, o: Self) -> Self {
        match (self.concrete(), o.concrete()) { (Some(a), Some(b)) => C(a.hypot(b)), _ => sqrt_sym(self * self + o * o) }
    }
    fn sin(self) -> Self { sincos_sym(self).0 }
    fn cos(self) -> Self { sincos_sym(self).1 }
    fn tan(self) -> Self {
        if let Some(x) = self.concrete() { return C(x.tan()); }
        let (lo, hi) = self.interval();
        let h = std::f64::consts::FRAC_PI_2;
        if lo > -h && hi < h {
            return mono_fun("tan", 0, self, f64::tan);
        }
        let (s, c) = sincos_sym(self);
        s / c
    }
    fn asin(self) -> Self { opaque!("asin", self, f64::asin) }
    fn acos(self) -> Self { opaque!("acos", self, f64::acos) }
    fn atan(self) -> Self { mono_fun("atan", 0, self, f64::atan) }
    fn atan2(self, o: Self) -> Self {
        match (self.concrete(), o.concrete()) {
            (Some(a), Some(b)) => C(a.atan2(b)),
            _ => {
                let (y, x) = (self.node(), o.node());
                let (a, fresh) = with(|ar| ar.fun("theta", &[y, x], 0));
                if fresh { set_iv(a, -3.2, 3.2); }
                atom_sym(a)
            }
        }
    }
    fn sin_cos(self) -> (Self, Self) { sincos_sym(self) }
    fn exp_m1(self) -> Self { Float::exp(self) - C(1.0) }
    fn ln_1p(self) -> Self { Float::ln(self + C(1.0)) }
    fn sinh(self) -> Self {
        if let Some(x) = self.concrete() { return C(x.sinh()); }
        let (a, b) = exp_pair(self);
        (a - b) * C(0.5)
    }
    fn cosh(self) -> Self {
        if let Some(x) = self.concrete() { return C(x.cosh()); }
        let (a, b) = exp_pair(self);
        (a + b) * C(0.5)
    }
    fn tanh(self) -> Self {
        if let Some(x) = self.concrete() { return C(x.tanh()); }
        let (a, b) = exp_pair(self);
        (a - b) / (a + b)
    }
    fn asinh(self) -> Self { mono_fun("asinh", 0, self, f64::asinh) }
    fn acosh(self) -> Self { opaque!("acosh", self, f64::acosh) }
    fn atanh(self) -> Self { opaque!("atanh", self, f64::atanh) }
    fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode(self.conc_or_stop()) }
    fn copysign(self, s: Self) -> Self { let a = Float::abs(self); if Float::is_sign_negative(s) { -a } else { a } }
}

// ---------------- simba / approx ----------------
use simba::scalar::{ComplexField, Field, RealField, SubsetOf};
use simba::simd::SimdValue;
impl SimdValue for Sym {
    const LANES: usize = 1;
    type Element = Self;
    type SimdBool = bool;
    fn splat(v: Self) -> Self { v }
    fn extract(&self, _: usize) -> Self { *self }
    unsafe fn extract_unchecked(&self, _: usize) -> Self { *self }
    fn replace(&mut self, _: usize, v: Self) { *self = v }
    unsafe fn replace_unchecked(&mut self, _: usize, v: Self) { *self = v }
    fn select(self, c: bool, o: Self) -> Self { if c { self } else { o } }
}
impl Field for Sym {}
impl SubsetOf<Sym> for Sym {
    fn to_superset(&self) -> Sym { *self }
    fn from_superset_unchecked(e: &Sym) -> Self { *e }
    fn is_in_subset(_: &Sym) -> bool { true }
}
impl SubsetOf<Sym> for f64 {
    fn to_superset(&self) -> Sym { C(*self) }
    fn from_superset_unchecked(e: &Sym) -> Self { e.conc_or_stop() }
    fn is_in_subset(_: &Sym) -> bool { true }
}
impl SubsetOf<Sym> for f32 {
    fn to_superset(&self) -> Sym { C(*self as f64) }
    fn from_superset_unchecked(e: &Sym) -> Self { e.conc_or_stop() as f32 }
    fn is_in_subset(_: &Sym) -> bool { true }
}
impl approx::AbsDiffEq for Sym {
    type Epsilon = Sym;
    fn default_epsilon() -> Sym { C(f64::EPSILON) }
    fn abs_diff_eq(&self, o: &Sym, e: Sym) -> bool { let d = *self - *o; d <= e && -d <= e }
}
impl approx::RelativeEq for Sym {
    fn default_max_relative() -> Sym { C(f64::EPSILON) }
    fn relative_eq(&self, o: &Sym, e: Sym, m: Sym) -> bool {
        if self == o { return true; }
        let d = Float::abs(*self - *o);
        if d <= e { return true; }
        let big = Float::max(Float::abs(*self), Float::abs(*o));
        d <= big * m
    }
}
impl approx::UlpsEq for Sym {
    fn default_max_ulps() -> u32 { 4 }
    fn ulps_eq(&self, o: &Sym, e: Sym, _: u32) -> bool { approx::AbsDiffEq::abs_diff_eq(self, o, e) }
}
macro_rules! cf1 { ($($n:ident)*) => { $( fn $n(self) -> Self { Float::$n(self) } )* } }
impl ComplexField for Sym {
    type RealField = Sym;
    fn from_real(r: Sym) -> Self { r }
    fn real(self) -> Sym { self }
    fn imaginary(self) -> Sym { C(0.0) }
    fn modulus(self) -> Sym { Float::abs(self) }
    fn modulus_squared(self) -> Sym { self * self }
    fn argument(self) -> Sym { if self >= C(0.0) { C(0.0) } else { C(std::f64::consts::PI) } }
    fn norm1(self) -> Sym { Float::abs(self) }
    fn scale(self, f: Sym) -> Self { self * f }
    fn unscale(self, f: Sym) -> Self { self / f }
    cf1!(floor ceil round trunc fract abs recip sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh log2 log10 ln ln_1p sqrt exp exp2 exp_m1 cbrt);
    fn mul_add(self, a: Self, b: Self) -> Self { self * a + b }
    fn hypot(self, o: Self) -> Sym { Float::hypot(self, o) }
    fn conjugate(self) -> Self { self }
    fn sin_cos(self) -> (Self, Self) { sincos_sym(self) }
    fn log(self, b: Sym) -> Self { Float::log(self, b) }
    fn powi(self, n: i32) -> Self { Float::powi(self, n) }
    fn powf(self, n: Sym) -> Self { Float::powf(self, n) }
    fn powc(self, n: Self) -> Self { Float::powf(self, n) }
    fn is_finite(&self) -> bool { Float::is_finite(*self) }
    fn try_sqrt(self) -> Option<Self> { if self >= C(0.0) { Some(sqrt_sym(self)) } else { None } }
    fn to_polar(self) -> (Sym, Sym) { (Float::abs(self), ComplexField::argument(self)) }
    fn signum(self) -> Self { Float::signum(self) }
}
impl RealField for Sym {
    fn is_sign_positive(&self) -> bool { Float::is_sign_positive(*self) }
    fn is_sign_negative(&self) -> bool { Float::is_sign_negative(*self) }
    fn copysign(self, s: Self) -> Self { Float::copysign(self, s) }
    fn max(self, o: Self) -> Self { Float::max(self, o) }
    fn min(self, o: Self) -> Self { Float::min(self, o) }
    fn clamp(self, a: Self, b: Self) -> Self { if self < a { a } else if self > b { b } else { self } }
    fn atan2(self, o: Self) -> Self { Float::atan2(self, o) }
    fn min_value() -> Option<Self> { Some(C(f64::MIN)) }
    fn max_value() -> Option<Self> { Some(C(f64::MAX)) }
    fn pi() -> Self { C(std::f64::consts::PI) }
    fn two_pi() -> Self { C(std::f64::consts::TAU) }
    fn frac_pi_2() -> Self { C(std::f64::consts::FRAC_PI_2) }
    fn frac_pi_3() -> Self { C(std::f64::consts::FRAC_PI_3) }
    fn frac_pi_4() -> Self { C(std::f64::consts::FRAC_PI_4) }
    fn frac_pi_6() -> Self { C(std::f64::consts::FRAC_PI_6) }
    fn frac_pi_8() -> Self { C(std::f64::consts::FRAC_PI_8) }
    fn frac_1_pi() -> Self { C(std::f64::consts::FRAC_1_PI) }
    fn frac_2_pi() -> Self { C(std::f64::consts::FRAC_2_PI) }
    fn frac_2_sqrt_pi() -> Self { C(std::f64::consts::FRAC_2_SQRT_PI) }
    fn e() -> Self { C(std::f64::consts::E) }
    fn log2_e() -> Self { C(std::f64::consts::LOG2_E) }
    fn log10_e() -> Self { C(std::f64::consts::LOG10_E) }
    fn ln_2() -> Self { C(std::f64::consts::LN_2) }
    fn ln_10() -> Self { C(std::f64::consts::LN_10) }
}
