//! Integers of the harnesses: exact numbers in a native run, exact terms over integer atoms in a symbolic one.
use crate::harness::*;
use crate::ll::{self, icst, iconst, iop, iseq, isless, vint, Exec, Ty, V};
use crate::num::{mk, Sym};
use crate::arena::{with, Rat};
use num_bigint::BigInt;
use num_traits::{Bounded, One, ToPrimitive, Zero};
use sci_rs::special::{Combinatoric, Factorial};

include!("../../ir/src/ints.rs");

#[derive(Clone, Debug)]
pub enum Z {
    N(BigInt),
    T(Sym),
}
use Z::*;
impl Z {
    pub fn k<S: Scalar>(x: impl Into<BigInt>) -> Z {
        let x = x.into();
        if S::SYM { T(icst(&x)) } else { N(x) }
    }
    pub fn var<S: Scalar>(cx: &mut Cx, name: &str, lo: i64, hi: i64) -> Z {
        let v: S = cx.var(name, lo as f64, hi as f64);
        match v.sym() {
            Some(s) => {
                let n = s.node();
                with(|a| {
                    let m = a.nodes[n as usize][0].0;
                    let at = a.monos[m as usize][0].0;
                    a.atoms[at as usize].is_int = true;
                });
                crate::path::path(|p| p.no_guess = true);
                T(s)
            }
            None => N(BigInt::from(v.f64v().round() as i64)),
        }
    }
    fn op(w: &str, a: &Z, b: &Z) -> Z {
        match (a, b) {
            (N(x), N(y)) => N(match w { "add" => x + y, "sub" => x - y, _ => x * y }),
            (T(x), T(y)) => T(iop(w, *x, *y)),
            _ => unreachable!(),
        }
    }
    pub fn add(&self, b: &Z) -> Z { Z::op("add", self, b) }
    pub fn sub(&self, b: &Z) -> Z { Z::op("sub", self, b) }
    pub fn mul(&self, b: &Z) -> Z { Z::op("mul", self, b) }
    /// division known to leave no remainder
    pub fn div(&self, d: &BigInt) -> Z {
        match self {
            N(x) => N(x / d),
            T(x) => T(iop("mul", *x, mk(with(|a| a.constant(Rat::new(BigInt::one(), d.clone())))))),
        }
    }
    pub fn lt(&self, b: &Z) -> bool {
        match (self, b) {
            (N(x), N(y)) => x < y,
            (T(x), T(y)) => isless(*x, *y),
            _ => unreachable!(),
        }
    }
    pub fn le(&self, b: &Z) -> bool { !b.lt(self) }
    pub fn same(&self, b: &Z) -> bool {
        match (self, b) {
            (N(x), N(y)) => x == y,
            (T(x), T(y)) => iseq(*x, *y),
            _ => unreachable!(),
        }
    }
    /// the value, in a symbolic run one path per value of the range
    pub fn pick<S: Scalar>(&self, lo: i64, hi: i64) -> i64 {
        match self {
            N(x) => i64::try_from(x.clone()).unwrap(),
            T(x) => i64::try_from(ll::pick(*x, lo.into(), hi.into())).unwrap(),
        }
    }
    fn v(&self, b: u32) -> V {
        match self {
            N(x) => vint(b, x),
            T(x) => match iconst(*x) {
                Some(c) => vint(b, &c),
                None => ll::sint(b, *x),
            },
        }
    }
}
pub struct IntTy {
    pub name: &'static str,
    pub bits: u32,
    pub min: BigInt,
    pub max: BigInt,
    native: fn(&str, &BigInt, &BigInt) -> Option<BigInt>,
}
/// call an entry point; Ok(None): it panicked
pub fn call<S: Scalar>(cx: &mut Cx, t: &IntTy, f: &str, n: &Z, k: &Z) -> Option<Z> {
    match (n, k) {
        (N(n), N(k)) => {
            if *n < t.min || *n > t.max || *k < t.min || *k > t.max {
                cx.assume(false);
            }
            let r = cx.catch(|| (t.native)(f, n, k));
            r.map(|r| N(r.unwrap()))
        }
        _ => {
            for v in [n, k] {
                cx.assume(Z::k::<S>(t.min.clone()).le(v));
                cx.assume(v.le(&Z::k::<S>(t.max.clone())));
            }
            let w = (t.bits / 8) as usize;
            let r = cx.catch(|| {
                let mut ex = Exec::new(ll::module());
                let p = [ex.mem.alloc(w), ex.mem.alloc(w), ex.mem.alloc(w)];
                let ty = Ty::I(t.bits);
                ex.mem.store(p[0], &ty, &n.v(t.bits));
                ex.mem.store(p[1], &ty, &k.v(t.bits));
                ex.call(&format!("{f}_{}", t.name), p.iter().map(|p| V::I(64, *p as u128)).collect());
                let r = ex.mem.load(p[2], &ty);
                ll::ivalue(&r, t.min < BigInt::zero())
            });
            if let Some(u) = ll::take_ub() {
                cx.check(&format!("no undefined behaviour: {u}"), false);
            }
            r.map(T)
        }
    }
}
fn conv<T: Bounded + Copy + std::convert::TryFrom<i128> + std::convert::TryFrom<u128>>(x: &BigInt) -> T {
    if let Some(v) = x.to_i128() {
        if let Ok(v) = T::try_from(v) {
            return v;
        }
    }
    T::try_from(x.to_u128().expect("range")).ok().expect("range")
}
pub fn types() -> Vec<IntTy> {
    let mut v = vec![];
    macro_rules! ints {
        ($($t:ident $f:ident $f2:ident $fk:ident $c:ident $cr:ident $p:ident $s:ident),* $(,)?) => { $( {
            fn native(f: &str, n: &BigInt, k: &BigInt) -> Option<BigInt> {
                let (n, k): ($t, $t) = (conv(n), conv(k));
                Some(BigInt::from(match f {
                    "f" => Factorial::factorial(n),
                    "f2" => Factorial::factorial2(n),
                    "fk" => Factorial::factorialk(n, k),
                    "comb" => Combinatoric::comb(n, k),
                    "combrep" => Combinatoric::comb_rep(n, k),
                    "perm" => Combinatoric::perm(n, k),
                    "stirling" => Combinatoric::stirling2(n, k),
                    _ => return None,
                }))
            }
            v.push(IntTy { name: stringify!($t), bits: <$t>::BITS, min: BigInt::from(<$t>::MIN), max: BigInt::from(<$t>::MAX), native });
        } )* };
    }
    int_types!(ints);
    v
}
