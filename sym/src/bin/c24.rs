//! C24: combinatorial counts are exact whenever the result is representable.
use num_bigint::BigInt;
use num_traits::{One, Zero};
use symcore::harness::*;
use symcore::ints::*;

fn fact(k: u32) -> BigInt {
    (1..=k).fold(BigInt::one(), |a, b| a * b)
}
fn ty(i: usize) -> IntTy {
    types().remove(i)
}
/// n (n-1) ... (n-k+1)
fn falling<S: Scalar>(n: &Z, k: u32) -> Z {
    (0..k).fold(Z::k::<S>(1), |a, i| a.mul(&n.sub(&Z::k::<S>(i))))
}
fn expect<S: Scalar>(cx: &mut Cx, t: &IntTy, f: &str, n: &Z, k: &Z, want: &Z) {
    let got = call::<S>(cx, t, f, n, k);
    if cx.check(&format!("{f} does not panic"), got.is_some()) {
        let ok = got.unwrap().same(want);
        cx.check(&format!("{f} value"), ok);
    }
}
/// n = base + step q, q symbolic; k (or n - k) fixed
struct Row {
    t: usize,
    f: &'static str,
    k: u32,
    base: BigInt,
    step: u32,
    qmax: i64,
    mirror: bool,
    /// take every value of n in turn
    split: bool,
}
impl Harness for Row {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let t = ty(self.t);
        let q = Z::var::<S>(cx, "q", 0, self.qmax);
        let mut n = Z::k::<S>(self.base.clone()).add(&Z::k::<S>(self.step).mul(&q));
        if self.split {
            let v = q.pick::<S>(0, self.qmax);
            n = Z::k::<S>(&self.base + BigInt::from(self.step) * v);
        }
        let kz = Z::k::<S>(self.k);
        match self.f {
            "comb" => {
                let want = falling::<S>(&n, self.k).div(&fact(self.k));
                let k = if self.mirror { n.sub(&kz) } else { kz };
                expect::<S>(cx, &t, "comb", &n, &k, &want);
            }
            "perm" => {
                let want = falling::<S>(&n, self.k);
                expect::<S>(cx, &t, "perm", &n, &kz, &want);
            }
            _ => {
                // the pool has n = N + k - 1 places; mirrored: k + 1 kinds, n - k drawn
                let want = falling::<S>(&n, self.k).div(&fact(self.k));
                if self.mirror {
                    expect::<S>(cx, &t, "combrep", &kz.add(&Z::k::<S>(1)), &n.sub(&kz), &want);
                } else {
                    expect::<S>(cx, &t, "combrep", &n.sub(&kz).add(&Z::k::<S>(1)), &kz, &want);
                }
            }
        }
    }
}
/// n close to the largest value of the type
struct Top {
    t: usize,
    f: &'static str,
    k: u32,
    mirror: bool,
}
impl Harness for Top {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let t = ty(self.t);
        let d = Z::var::<S>(cx, "d", 0, if t.bits < 16 { 40 } else { 1 << 14 });
        let n = Z::k::<S>(t.max.clone()).sub(&d);
        let want = if self.k == 0 { Z::k::<S>(1) } else { n.clone() };
        let kz = Z::k::<S>(self.k);
        let k = if self.mirror { n.sub(&kz) } else { kz };
        expect::<S>(cx, &t, self.f, &n, &k, &want);
    }
}
/// zero outside 0 <= k <= n
struct Outside {
    t: usize,
    f: &'static str,
    why: u8,
}
impl Harness for Outside {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let t = ty(self.t);
        let big = if t.bits < 53 { i64::try_from(t.max.clone()).unwrap() } else { 1 << 52 };
        let lo = if t.min < BigInt::zero() { -big } else { 0 };
        let n = Z::var::<S>(cx, "n", lo, big);
        let k = Z::var::<S>(cx, "k", lo, big);
        let z = Z::k::<S>(0);
        match self.why {
            0 => cx.assume(n.lt(&k)),
            1 => cx.assume(n.lt(&z)),
            _ => cx.assume(k.lt(&z)),
        }
        expect::<S>(cx, &t, self.f, &n, &k, &z);
    }
}
/// all n in a range against the table of Stirling numbers
struct Stirling {
    t: usize,
    n: u32,
}
fn stirling_table(n: usize) -> Vec<Vec<BigInt>> {
    let mut s = vec![vec![BigInt::zero(); n + 1]; n + 1];
    s[0][0] = BigInt::one();
    for i in 1..=n {
        for k in 1..=i {
            s[i][k] = &s[i - 1][k] * k + &s[i - 1][k - 1];
        }
    }
    s
}
impl Harness for Stirling {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let t = ty(self.t);
        let n = Z::var::<S>(cx, "n", 0, self.n as i64);
        let k = Z::var::<S>(cx, "k", 0, self.n as i64);
        cx.assume(k.le(&n));
        let tab = stirling_table(self.n as usize);
        let got = call::<S>(cx, &t, "stirling", &n, &k);
        // the entries that apply on this path
        let i = n.pick::<S>(0, self.n as i64) as usize;
        let j = k.pick::<S>(0, i as i64) as usize;
        if tab[i][j] <= t.max && cx.check("stirling does not panic", got.is_some()) {
            let ok = got.clone().unwrap().same(&Z::k::<S>(tab[i][j].clone()));
            cx.check("stirling value", ok);
        }
    }
}
/// one column of Stirling numbers
struct Column {
    t: usize,
    j: u32,
    lo: u32,
    hi: u32,
    mirror: bool,
    split: bool,
}
impl Harness for Column {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let t = ty(self.t);
        let mut n = Z::var::<S>(cx, "n", self.lo.max(self.j) as i64, self.hi as i64);
        let kz = Z::k::<S>(self.j);
        if self.split {
            n = Z::k::<S>(n.pick::<S>(self.lo.max(self.j) as i64, self.hi as i64));
        }
        let k = if self.mirror { n.sub(&kz) } else { kz };
        let got = call::<S>(cx, &t, "stirling", &n, &k);
        let tab = stirling_table(self.hi as usize);
        let i = n.pick::<S>(self.lo.max(self.j) as i64, self.hi as i64) as u32;
        let want = &tab[i as usize][if self.mirror { i - self.j } else { self.j } as usize];
        if *want <= t.max && cx.check("stirling does not panic", got.is_some()) {
            let ok = got.unwrap().same(&Z::k::<S>(want.clone()));
            cx.check("stirling value", ok);
        }
    }
}
fn main() {
    symcore::harness::main("C24", |thorough| {
        let mut v = vec![];
        for (ti, t) in types().iter().enumerate() {
            let nm = t.name;
            // the largest n with the value representable
            let limit = |k: u32, f: &str| -> BigInt {
                let val = |n: &BigInt| falling_big(n, k) / if f == "perm" { BigInt::one() } else { fact(k) };
                let (mut a, mut b) = (BigInt::from(k), t.max.clone());
                while a < b {
                    let m: BigInt = &a + (&b - &a + 1) / 2;
                    if val(&m) <= t.max { a = m } else { b = m - 1 }
                }
                a
            };
            let main = ["u8", "i8", "u16", "i32", "u64", "i128"].contains(&nm) || thorough;
            let span = BigInt::from(1i64 << 44);
            let whole = |lo: &BigInt, hi: &BigInt, step: u32| -> Vec<(BigInt, i64)> {
                // one stretch from each end, or one that covers it all
                let n: BigInt = (hi - lo) / step;
                if n <= span {
                    vec![(lo.clone(), i64::try_from(n).unwrap())]
                } else {
                    let top: BigInt = hi - &span * step;
                    let r: BigInt = (&top - lo) % step;
                    vec![(lo.clone(), i64::try_from(span.clone()).unwrap()), (top - r, i64::try_from(span.clone()).unwrap())]
                }
            };
            for k in 0..70u32 {
                let hi = limit(k, "comb");
                let lo = BigInt::from(2 * k);
                if hi < lo {
                    break;
                }
                for (f, mirror, nmz) in [("comb", false, "comb"), ("comb", true, "comb(n-k)"), ("combrep", false, "comb_rep"), ("combrep", true, "comb_rep(n-k)")] {
                    // every n, by residue
                    let period = [1u32, 1, 2, 6, 24, 120][k.min(5) as usize];
                    if k <= 3 || (k == 4 && main) || (k == 5 && thorough) {
                        for r in 0..period {
                            let lo: BigInt = &lo + r;
                            if lo > hi {
                                continue;
                            }
                            for (w, (base, qmax)) in whole(&lo, &hi, period).into_iter().enumerate() {
                                v.push(Case::new(format!("{nmz} {nm} k={k} residue {r} of {period}{}", if w == 1 { " top" } else { "" }), Row { t: ti, f, k, base, step: period, qmax, mirror, split: false }).paths(100000).extra());
                            }
                        }
                    }
                    if !(main || k < 4 || k % 5 == 0) || (f == "combrep" && !main && k > 8) {
                        continue;
                    }
                    let w = if thorough { 60 } else { 6 };
                    let win = i64::try_from((&hi - &lo).min(BigInt::from(w))).unwrap();
                    v.push(Case::new(format!("{nmz} {nm} k={k} low"), Row { t: ti, f, k, base: lo.clone(), step: 1, qmax: win, mirror, split: true }).paths(100000));
                    if &hi - &lo > BigInt::from(win) {
                        v.push(Case::new(format!("{nmz} {nm} k={k} high"), Row { t: ti, f, k, base: &hi - win, step: 1, qmax: win, mirror, split: true }).paths(100000));
                    }
                }
            }
            for k in 0..40u32 {
                let lo = BigInt::from(k);
                if falling_big(&lo, k) > t.max {
                    break;
                }
                let hi = limit(k, "perm");
                for (w, (base, qmax)) in whole(&lo, &hi, 1).into_iter().enumerate() {
                    v.push(Case::new(format!("perm {nm} k={k}{}", if w == 1 { " top" } else { "" }), Row { t: ti, f: "perm", k, base, step: 1, qmax, mirror: false, split: false }).extra());
                }
                let win = i64::try_from((&hi - &lo).min(BigInt::from(6))).unwrap();
                v.push(Case::new(format!("perm {nm} k={k} low"), Row { t: ti, f: "perm", k, base: lo.clone(), step: 1, qmax: win, mirror: false, split: true }));
                if &hi - &lo > BigInt::from(win) {
                    v.push(Case::new(format!("perm {nm} k={k} high"), Row { t: ti, f: "perm", k, base: &hi - win, step: 1, qmax: win, mirror: false, split: true }));
                }
            }
            for f in ["comb", "perm"] {
                for k in 0..2 {
                    v.push(Case::new(format!("{f} {nm} n near the maximum, k={k}"), Top { t: ti, f, k, mirror: false }));
                }
            }
            for k in 0..2 {
                v.push(Case::new(format!("comb {nm} n near the maximum, k=n-{k}"), Top { t: ti, f: "comb", k, mirror: true }));
            }
            for f in ["comb", "perm", "stirling"] {
                v.push(Case::new(format!("{f} {nm} k > n"), Outside { t: ti, f, why: 0 }));
            }
            if t.min < BigInt::zero() {
                for f in ["comb", "perm", "stirling", "combrep"] {
                    v.push(Case::new(format!("{f} {nm} n < 0"), Outside { t: ti, f, why: 1 }));
                    v.push(Case::new(format!("{f} {nm} k < 0"), Outside { t: ti, f, why: 2 }));
                }
            }
            let small = ["u8", "i32", "u64", "i128"].contains(&nm) || thorough;
            if small {
                v.push(Case::new(format!("stirling2 {nm} n<=7"), Stirling { t: ti, n: if thorough { 11 } else { 6 } }));
            }
            for j in 0..=if thorough { 12 } else { 5 } {
                let cap = if t.bits == 8 { 20 } else { 1000 };
                let hi = [150u32, 150, 60, 26, 16, 14, 14, 14, 15, 15, 16, 16, 17][j as usize].min(cap);
                v.push(Case::new(format!("stirling2 {nm} k={j}"), Column { t: ti, j, lo: 0, hi, mirror: false, split: true }));
                if small {
                    v.push(Case::new(format!("stirling2 {nm} k={j} n<={}", hi.min(9)), Column { t: ti, j, lo: 0, hi: hi.min(9), mirror: false, split: false }));
                }
                let hi = [120u32, 40, 20, 14, 13, 12, 12, 13, 14, 15, 16, 16, 17][j as usize].min(cap);
                v.push(Case::new(format!("stirling2 {nm} k=n-{j}"), Column { t: ti, j, lo: 0, hi, mirror: true, split: true }));
                if small {
                    v.push(Case::new(format!("stirling2 {nm} k=n-{j} n<={}", hi.min(9)), Column { t: ti, j, lo: 0, hi: hi.min(9), mirror: true, split: false }));
                }
            }
        }
        v
    });
}
fn falling_big(n: &BigInt, k: u32) -> BigInt {
    (0..k).fold(BigInt::one(), |a, i| a * (n - i).max(BigInt::zero()))
}
