//! Exact rationals num / den with den > 0 in lowest terms. Binary floats make denominators powers of
//! two, for which everything is shifts; hashing looks at the digits only.
use num_bigint::{BigInt, Sign};
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use std::cmp::Ordering;
use std::ops::{Add, AddAssign, Div, Mul, MulAssign, Neg, Sub, SubAssign};

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Rat {
    n: BigInt,
    /// odd part of the denominator
    o: BigInt,
    /// power of two in the denominator (n is odd or e is zero)
    e: u64,
}
fn tz(n: &BigInt) -> u64 {
    n.trailing_zeros().unwrap_or(0)
}
impl Rat {
    fn norm2(mut n: BigInt, o: BigInt, mut e: u64) -> Rat {
        if n.sign() == Sign::NoSign {
            return Rat { n, o: BigInt::one(), e: 0 };
        }
        if e > 0 {
            let t = tz(&n).min(e);
            if t > 0 {
                n >>= t;
                e -= t;
            }
        }
        Rat { n, o, e }
    }
    fn norm(mut n: BigInt, mut o: BigInt, e: u64) -> Rat {
        if !o.is_one() {
            let g = n.gcd(&o);
            if !g.is_one() {
                n /= &g;
                o /= &g;
            }
        }
        Rat::norm2(n, o, e)
    }
    pub fn new(mut n: BigInt, mut d: BigInt) -> Rat {
        assert!(!d.is_zero());
        if d.is_negative() {
            n = -n;
            d = -d;
        }
        let t = tz(&d);
        Rat::norm(n, d >> t, t)
    }
    pub fn from_integer(n: BigInt) -> Rat {
        Rat { n, o: BigInt::one(), e: 0 }
    }
    pub fn from_float(x: f64) -> Option<Rat> {
        if !x.is_finite() {
            return None;
        }
        let (m, e, s) = num_traits::float::FloatCore::integer_decode(x);
        let n = BigInt::from(m) * BigInt::from(s);
        Some(if e >= 0 { Rat::from_integer(n << e as usize) } else { Rat::norm2(n, BigInt::one(), (-(e as i64)) as u64) })
    }
    pub fn numer(&self) -> &BigInt {
        &self.n
    }
    pub fn denom(&self) -> BigInt {
        &self.o << self.e
    }
    pub fn recip(&self) -> Rat {
        assert!(!self.n.is_zero());
        let mut m = &self.o << self.e;
        let mut d = self.n.clone();
        if d.is_negative() {
            m = -m;
            d = -d;
        }
        let t = tz(&d);
        Rat { n: m, o: d >> t, e: t }
    }
    pub fn is_integer(&self) -> bool {
        self.e == 0 && self.o.is_one()
    }
    pub fn to_integer(&self) -> BigInt {
        &self.n / self.denom()
    }
    pub fn floor(&self) -> Rat {
        Rat::from_integer(self.n.div_floor(&self.denom()))
    }
    pub fn pow(&self, k: i32) -> Rat {
        let b = if k < 0 { self.recip() } else { self.clone() };
        let mut r = Rat::one();
        for _ in 0..k.unsigned_abs() {
            r = &r * &b;
        }
        r
    }
    pub fn abs(&self) -> Rat {
        Rat { n: self.n.abs(), o: self.o.clone(), e: self.e }
    }
    pub fn is_negative(&self) -> bool {
        self.n.is_negative()
    }
    pub fn is_positive(&self) -> bool {
        self.n.is_positive()
    }
}
fn addsub(a: &Rat, b: &Rat, neg: bool) -> Rat {
    let e = a.e.max(b.e);
    let (mut x, mut y) = (&a.n << (e - a.e), &b.n << (e - b.e));
    let same = a.o == b.o;
    if !same {
        x *= &b.o;
        y *= &a.o;
    }
    let n = if neg { x - y } else { x + y };
    if a.o.is_one() && b.o.is_one() {
        Rat::norm2(n, BigInt::one(), e)
    } else if same {
        Rat::norm(n, a.o.clone(), e)
    } else {
        Rat::norm(n, &a.o * &b.o, e)
    }
}
fn mulr(a: &Rat, b: &Rat) -> Rat {
    let n = &a.n * &b.n;
    if a.o.is_one() && b.o.is_one() {
        Rat::norm2(n, BigInt::one(), a.e + b.e)
    } else {
        Rat::norm(n, &a.o * &b.o, a.e + b.e)
    }
}
macro_rules! ops {
    ($t:ident, $m:ident, $f:expr) => {
        impl $t for Rat { type Output = Rat; fn $m(self, b: Rat) -> Rat { $f(&self, &b) } }
        impl<'a> $t<&'a Rat> for Rat { type Output = Rat; fn $m(self, b: &Rat) -> Rat { $f(&self, b) } }
        impl<'a> $t<Rat> for &'a Rat { type Output = Rat; fn $m(self, b: Rat) -> Rat { $f(self, &b) } }
        impl<'a, 'b> $t<&'b Rat> for &'a Rat { type Output = Rat; fn $m(self, b: &Rat) -> Rat { $f(self, b) } }
    };
}
ops!(Add, add, |a: &Rat, b: &Rat| addsub(a, b, false));
ops!(Sub, sub, |a: &Rat, b: &Rat| addsub(a, b, true));
ops!(Mul, mul, mulr);
ops!(Div, div, |a: &Rat, b: &Rat| mulr(a, &b.recip()));
impl AddAssign for Rat { fn add_assign(&mut self, b: Rat) { *self = addsub(self, &b, false) } }
impl<'a> AddAssign<&'a Rat> for Rat { fn add_assign(&mut self, b: &Rat) { *self = addsub(self, b, false) } }
impl SubAssign for Rat { fn sub_assign(&mut self, b: Rat) { *self = addsub(self, &b, true) } }
impl<'a> SubAssign<&'a Rat> for Rat { fn sub_assign(&mut self, b: &Rat) { *self = addsub(self, b, true) } }
impl MulAssign for Rat { fn mul_assign(&mut self, b: Rat) { *self = mulr(self, &b) } }
impl<'a> MulAssign<&'a Rat> for Rat { fn mul_assign(&mut self, b: &Rat) { *self = mulr(self, b) } }
impl Neg for Rat { type Output = Rat; fn neg(self) -> Rat { Rat { n: -self.n, o: self.o, e: self.e } } }
impl<'a> Neg for &'a Rat { type Output = Rat; fn neg(self) -> Rat { -self.clone() } }
impl Zero for Rat {
    fn zero() -> Rat { Rat::from_integer(BigInt::zero()) }
    fn is_zero(&self) -> bool { self.n.is_zero() }
}
impl One for Rat {
    fn one() -> Rat { Rat::from_integer(BigInt::one()) }
}
impl PartialOrd for Rat { fn partial_cmp(&self, b: &Rat) -> Option<Ordering> { Some(self.cmp(b)) } }
impl Ord for Rat {
    fn cmp(&self, b: &Rat) -> Ordering {
        addsub(self, b, true).n.cmp(&BigInt::zero())
    }
}
impl std::fmt::Display for Rat {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.is_integer() { write!(f, "{}", self.n) } else { write!(f, "{}/{}", self.n, self.denom()) }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use num_rational::BigRational;
    #[test]
    fn agrees() {
        let v: Vec<(i64, i64)> = (-24..=24).flat_map(|n| [1, 2, 3, 4, 5, 6, 8, 12, 15, 16, -7, -10].map(|d| (n, d))).collect();
        let r = |p: &(i64, i64)| (Rat::new(p.0.into(), p.1.into()), BigRational::new(p.0.into(), p.1.into()));
        let same = |a: &Rat, b: &BigRational| {
            assert_eq!(a.numer(), b.numer());
            assert_eq!(&a.denom(), b.denom());
            assert_eq!(a, &Rat::new(b.numer().clone() * 6, b.denom().clone() * 6));
        };
        for p in &v {
            for q in &v {
                let ((a, x), (b, y)) = (r(p), r(q));
                same(&(&a + &b), &(&x + &y));
                same(&(&a - &b), &(&x - &y));
                same(&(&a * &b), &(&x * &y));
                if q.0 != 0 {
                    same(&(&a / &b), &(&x / &y));
                }
                assert_eq!(a.cmp(&b), x.cmp(&y));
                assert_eq!(a == b, x == y);
            }
        }
        for x in [0.1, -3.75, 1e300, 5e-324, 0.0, 123456789.0] {
            same(&Rat::from_float(x).unwrap(), &BigRational::from_float(x).unwrap());
        }
    }
}
