//! C23: factorials are exact whenever the result is representable.
use num_bigint::BigInt;
use num_traits::{One, Zero};
use symcore::harness::*;
use symcore::ints::*;

fn ty(i: usize) -> IntTy {
    types().remove(i)
}
/// n (n-k) (n-2k) ...
fn multi(n: &BigInt, k: &BigInt) -> BigInt {
    let (mut a, mut p) = (n.clone(), BigInt::one());
    while a > BigInt::zero() {
        p *= &a;
        a -= k;
    }
    p
}
fn expect<S: Scalar>(cx: &mut Cx, t: &IntTy, f: &str, n: &Z, k: &Z, want: &Z) {
    let got = call::<S>(cx, t, f, n, k);
    if cx.check(&format!("{f} does not panic"), got.is_some()) {
        let ok = got.unwrap().same(want);
        cx.check(&format!("{f} value"), ok);
    }
}
/// every n whose factorial is representable
struct Table {
    t: usize,
    f: &'static str,
    step: u32,
    hi: i64,
}
impl Harness for Table {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let t = ty(self.t);
        let n = Z::var::<S>(cx, "n", 0, self.hi);
        let one = Z::k::<S>(self.step);
        let got = call::<S>(cx, &t, self.f, &n, &one);
        if !cx.check(&format!("{} does not panic", self.f), got.is_some()) {
            return;
        }
        let got = got.unwrap();
        let i = n.pick::<S>(0, self.hi);
        let ok = got.same(&Z::k::<S>(multi(&BigInt::from(i), &BigInt::from(self.step))));
        cx.check(&format!("{} value", self.f), ok);
    }
}
/// n = s + m k with 1 <= s <= k: the product of m + 1 terms
struct Steps {
    t: usize,
    m: u32,
    /// the largest k considered
    k: BigInt,
}
impl Harness for Steps {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let t = ty(self.t);
        let d = Z::var::<S>(cx, "d", 0, span(&self.k));
        let k = Z::k::<S>(self.k.clone()).sub(&d);
        let s = Z::var::<S>(cx, "s", 1, span(&self.k).saturating_add(1).min(i64::try_from(self.k.clone()).unwrap_or(i64::MAX)).min(1 << 44));
        cx.assume(s.le(&k));
        let mut want = Z::k::<S>(1);
        let mut n = s.clone();
        for i in 0..=self.m {
            if i > 0 {
                n = n.add(&k);
            }
            want = want.mul(&n);
        }
        let max = Z::k::<S>(t.max.clone());
        if self.m > 0 {
            cx.assume(want.le(&max));
        }
        expect::<S>(cx, &t, "fk", &n, &k, &want);
    }
}
fn span(k: &BigInt) -> i64 {
    i64::try_from((k - BigInt::one()).min(BigInt::from(1i64 << 40))).unwrap()
}
/// the step fixed, n in a range
struct Multi {
    t: usize,
    k: u32,
    hi: i64,
}
impl Harness for Multi {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        Table { t: self.t, f: "fk", step: self.k, hi: self.hi }.run::<S>(cx)
    }
}
/// a negative argument gives zero, zero gives one, a step that is not positive panics
struct Edge {
    t: usize,
    f: &'static str,
    what: u8,
}
impl Harness for Edge {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let t = ty(self.t);
        let big = if t.bits < 53 { i64::try_from(t.max.clone()).unwrap() } else { 1 << 52 };
        let low = if t.min < BigInt::zero() { -big } else { 0 };
        match self.what {
            0 => {
                let n = Z::var::<S>(cx, "n", low, -1);
                let k = Z::var::<S>(cx, "k", 1, big);
                expect::<S>(cx, &t, self.f, &n, &k, &Z::k::<S>(0));
            }
            1 => {
                let k = Z::var::<S>(cx, "k", 1, big);
                expect::<S>(cx, &t, self.f, &Z::k::<S>(0), &k, &Z::k::<S>(1));
            }
            2 => {
                let n = Z::var::<S>(cx, "n", low, big);
                let k = Z::var::<S>(cx, "k", low, 0);
                let r = call::<S>(cx, &t, self.f, &n, &k);
                cx.check("a step that is not positive panics", r.is_none());
            }
            3 => {
                // the least value of the type
                let d = Z::var::<S>(cx, "d", 0, 100);
                let k = Z::var::<S>(cx, "k", 1, if t.bits == 8 { 127 } else { 10000 });
                expect::<S>(cx, &t, self.f, &Z::k::<S>(t.min.clone()).add(&d), &k, &Z::k::<S>(0));
            }
            _ => {
                // one term: n <= k, up to the largest values of the type
                let d = Z::var::<S>(cx, "d", 0, if t.bits == 8 { 60 } else { 1 << 14 });
                let e = Z::var::<S>(cx, "e", 0, if t.bits == 8 { 60 } else { 1 << 14 });
                cx.assume(e.le(&d));
                let top = Z::k::<S>(t.max.clone());
                let n = top.sub(&d);
                expect::<S>(cx, &t, self.f, &n, &top.sub(&e), &n);
            }
        }
    }
}
fn main() {
    symcore::harness::main("C23", |thorough| {
        let mut v = vec![];
        for (ti, t) in types().iter().enumerate() {
            let nm = t.name;
            let last = |k: u32| {
                let mut i = 0i64;
                while multi(&BigInt::from(i + 1), &BigInt::from(k)) <= t.max {
                    i += 1;
                }
                i
            };
            v.push(Case::new(format!("factorial {nm}"), Table { t: ti, f: "f", step: 1, hi: last(1) }));
            v.push(Case::new(format!("factorial2 {nm}"), Table { t: ti, f: "f2", step: 2, hi: last(2) }));
            for k in 1..=if thorough { 12 } else { 6 } {
                v.push(Case::new(format!("factorialk {nm} k={k}"), Multi { t: ti, k, hi: last(k) }));
            }
            for m in 0..if thorough { 6 } else { 3 } {
                for k in ["7", "100", "10000", "4000000000", "18000000000000000000"] {
                    let k: BigInt = k.parse().unwrap();
                    if k <= t.max && multi(&(&k * m + 1), &k) <= t.max {
                        v.push(Case::new(format!("factorialk {nm} {} terms, step up to {k}", m + 1), Steps { t: ti, m, k }).extra());
                    }
                }
            }
            for f in ["f", "f2", "fk"] {
                if t.min < BigInt::zero() {
                    v.push(Case::new(format!("{f} {nm} n < 0"), Edge { t: ti, f, what: 0 }));
                    v.push(Case::new(format!("{f} {nm} least n"), Edge { t: ti, f, what: 3 }));
                }
                v.push(Case::new(format!("{f} {nm} n = 0"), Edge { t: ti, f, what: 1 }));
            }
            v.push(Case::new(format!("fk {nm} k <= 0"), Edge { t: ti, f: "fk", what: 2 }));
            v.push(Case::new(format!("fk {nm} n <= k near the maximum"), Edge { t: ti, f: "fk", what: 4 }));
        }
        v
    });
}
