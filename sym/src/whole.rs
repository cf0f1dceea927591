//! A whole number as an element type of the code under test: division truncates toward zero.
//! Native runs use i64 itself.
use crate::arena::with;
use crate::harness::*;
use crate::ints::Z;
use crate::ll::{icst, iconst, iop, iseq, isless};
use crate::num::{mk, Sym};
use crate::path::{add_axiom, unsupported, Lit, GE};
use num_bigint::BigInt;
use num_traits::{Num, NumCast, One, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::ops::{Add, Div, Mul, Rem, Sub};

#[derive(Clone, Copy, Debug)]
pub struct I(pub Sym);
impl Default for I { fn default() -> I { I(Sym::C(0.0)) } }
impl PartialEq for I { fn eq(&self, o: &I) -> bool { iseq(self.0, o.0) } }
impl PartialOrd for I {
    fn partial_cmp(&self, o: &I) -> Option<Ordering> {
        Some(if isless(self.0, o.0) { Ordering::Less } else if iseq(self.0, o.0) { Ordering::Equal } else { Ordering::Greater })
    }
    fn lt(&self, o: &I) -> bool { isless(self.0, o.0) }
    fn gt(&self, o: &I) -> bool { isless(o.0, self.0) }
    fn le(&self, o: &I) -> bool { !isless(o.0, self.0) }
    fn ge(&self, o: &I) -> bool { !isless(self.0, o.0) }
}
impl Add for I { type Output = I; fn add(self, o: I) -> I { I(iop("add", self.0, o.0)) } }
impl Sub for I { type Output = I; fn sub(self, o: I) -> I { I(iop("sub", self.0, o.0)) } }
impl Mul for I { type Output = I; fn mul(self, o: I) -> I { I(iop("mul", self.0, o.0)) } }
impl Div for I {
    type Output = I;
    fn div(self, o: I) -> I {
        let Some(d) = iconst(o.0) else { unsupported("integer division by a symbolic value") };
        if d.is_zero() {
            panic!("attempt to divide by zero");
        }
        if let Some(c) = iconst(self.0) {
            return I(icst(&(c / d)));
        }
        let zero = icst(&BigInt::zero());
        let neg = isless(self.0, zero);
        let up = if neg { iop("sub", zero, self.0) } else { self.0 };
        let ad = BigInt::from(d.magnitude().clone());
        let flip = neg != (d < BigInt::zero());
        if ad.is_one() {
            return I(if flip { iop("sub", zero, up) } else { up });
        }
        let (un, dn) = (up.node(), icst(&ad).node());
        let at = with(|ar| {
            let (at, _) = ar.fun("iquo", &[un, dn], 0);
            ar.atoms[at as usize].is_int = true;
            at
        });
        let q = mk(with(|ar| ar.atom_node(at)));
        let rest = iop("sub", up, iop("mul", q, icst(&ad)));
        let ge = |n: Sym| add_axiom(at, vec![Lit { node: n.node(), mask: GE }]);
        ge(q);
        ge(rest);
        ge(iop("sub", icst(&(ad - 1)), rest));
        I(if flip { iop("sub", zero, q) } else { q })
    }
}
impl Rem for I {
    type Output = I;
    fn rem(self, o: I) -> I { self - (self / o) * o }
}
impl Zero for I {
    fn zero() -> I { I::default() }
    fn is_zero(&self) -> bool { iseq(self.0, Sym::C(0.0)) }
}
impl One for I { fn one() -> I { I(Sym::C(1.0)) } }
impl Num for I {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<I, ()> { Err(()) }
}
impl ToPrimitive for I {
    fn to_i64(&self) -> Option<i64> { iconst(self.0).and_then(|c| c.to_i64()) }
    fn to_u64(&self) -> Option<u64> { iconst(self.0).and_then(|c| c.to_u64()) }
}
impl NumCast for I {
    fn from<T: ToPrimitive>(n: T) -> Option<I> { n.to_i64().map(|x| I(icst(&BigInt::from(x)))) }
}

/// whole samples, `free` of them symbolic
pub fn signal<S: Scalar>(cx: &mut Cx, n: usize, free: &[usize], lo: i64, hi: i64) -> Vec<S::W> {
    (0..n).map(|i| S::W::of(&if free.contains(&i) { Z::var::<S>(cx, &format!("x{i}"), lo, hi) } else { Z::k::<S>((i as i64 * 37 + 11) % 16 - 9) })).collect()
}
/// an element type with whole values, and its way back to the scalar of the run
pub trait Whole<S>: Num + NumCast + PartialOrd + Copy + Default + std::fmt::Debug {
    fn of(z: &Z) -> Self;
    fn back(self) -> S;
}
impl Whole<f64> for i64 {
    fn of(z: &Z) -> i64 {
        match z {
            Z::N(x) => x.to_i64().unwrap(),
            Z::T(_) => unreachable!(),
        }
    }
    fn back(self) -> f64 { self as f64 }
}
impl Whole<Sym> for I {
    fn of(z: &Z) -> I {
        match z {
            Z::T(x) => I(*x),
            Z::N(_) => unreachable!(),
        }
    }
    fn back(self) -> Sym { self.0 }
}
