//! C12: poly_dyn / zpk2tf_dyn expand roots into coefficient vectors.
use sci_rs::signal::filter::design::{poly_dyn, zpk2tf_dyn};
use symcore::harness::*;
use symcore::spec::*;

fn horner<S: Scalar>(p: &[C<S>], x: C<S>) -> C<S> {
    p.iter().fold(re(S::zero()), |a, c| a * x + *c)
}
fn rhorner<S: Scalar>(p: &[S], x: S) -> S {
    p.iter().fold(S::zero(), |a, c| a * x + *c)
}
const NUM: [(f64, f64); 12] = [
    (-0.5, 0.25), (0.75, 0.0), (-1.5, 1.0), (0.0, 2.0), (1.25, 0.0), (-0.5, 0.5),
    (0.75, 0.75), (-2.0, 0.0), (0.0, 0.0), (-1.0, 0.5), (2.5, 0.0), (0.25, 1.5),
];
/// conjugate-closed numeric roots, `n` of them, starting anywhere in the table
fn numeric<S: Scalar>(n: usize, from: usize) -> Vec<C<S>> {
    let mut v = vec![];
    let mut i = from;
    while v.len() < n {
        let (a, b) = NUM[i % 12];
        i += 1;
        if b != 0.0 {
            if v.len() + 2 > n {
                continue;
            }
            v.push(cx(S::k(a), S::k(b)));
            v.push(cx(S::k(a), S::k(-b)));
        } else {
            v.push(re(S::k(a)));
        }
    }
    v
}
fn shuffle<T: Clone>(v: &[T], mode: usize) -> Vec<T> {
    let n = v.len();
    match mode {
        0 => v.to_vec(),
        1 => v.iter().rev().cloned().collect(),
        // even positions first: conjugates end up apart
        _ => v.iter().step_by(2).chain(v.iter().skip(1).step_by(2)).cloned().collect::<Vec<_>>()[..n].to_vec(),
    }
}
struct Poly {
    pairs: usize,
    reals: usize,
    num: usize,
    mode: usize,
}
impl Harness for Poly {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let mut r: Vec<C<S>> = roots(cx, "r", self.pairs, self.reals, -3.0, 3.0);
        r.extend(numeric::<S>(self.num, self.mode * 3));
        let r = shuffle(&r, self.mode);
        let x: S = cx.var("x", -3.0, 3.0);
        let y: S = cx.var("y", -3.0, 3.0);
        let p = poly_dyn(&r);
        if !cx.check("degree", p.len() == r.len() + 1) {
            return;
        }
        ceq(cx, "monic", p[0], re(S::one()));
        for (i, c) in p.iter().enumerate() {
            cx.eq(&format!("real coefficient {i}"), c.im, S::zero());
        }
        let at = symcore::spec::cx(x, y);
        let at = if r.len() > 4 { re(x) } else { at };
        ceq(cx, "value", horner(&p, at), rootprod(at, &r));
    }
}
/// roots not closed under conjugation: complex coefficients, the same value
struct Free {
    n: usize,
    /// real roots and conjugate pairs among them
    reals: usize,
    pairs: usize,
    mode: usize,
    /// the first two are almost conjugates of each other
    almost: Option<f64>,
}
impl Harness for Free {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let r: Vec<C<S>> = (0..self.n).map(|i| symcore::spec::cx(cx.var(&format!("a{i}"), -3.0, 3.0), cx.var(&format!("b{i}"), 0.1, 3.0))).collect();
        let mut r = r;
        if let Some(e) = self.almost {
            r[1] = symcore::spec::cx(r[0].re, S::k(e) - r[0].im);
        }
        r.extend(roots::<S>(cx, "r", self.pairs, self.reals, -3.0, 3.0));
        let r = shuffle(&r, self.mode);
        let x: S = cx.var("x", -3.0, 3.0);
        let p = poly_dyn(&r);
        if cx.check("degree", p.len() == r.len() + 1) {
            ceq(cx, "value", horner(&p, re(x)), rootprod(re(x), &r));
        }
    }
}
/// real scalar type instead of a complex one
struct Reals {
    n: usize,
}
impl Harness for Reals {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let r: Vec<S> = cx.vars("r", self.n, -3.0, 3.0);
        let x: S = cx.var("x", -3.0, 3.0);
        let p = poly_dyn(&r);
        if cx.check("degree", p.len() == r.len() + 1) {
            cx.eq("value", rhorner(&p, x), r.iter().fold(S::one(), |a, b| a * (x - *b)));
        }
    }
}
struct Tf {
    z: (usize, usize, usize),
    p: (usize, usize, usize),
    slack: usize,
    mode: usize,
}
impl Harness for Tf {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let mut z: Vec<C<S>> = roots(cx, "z", self.z.0, self.z.1, -3.0, 3.0);
        z.extend(numeric::<S>(self.z.2, self.mode));
        let mut p: Vec<C<S>> = roots(cx, "p", self.p.0, self.p.1, -3.0, 3.0);
        p.extend(numeric::<S>(self.p.2, 5 + self.mode));
        let z = shuffle(&z, self.mode);
        let p = shuffle(&p, self.mode);
        let k: S = cx.sig("k", 1, -3.0, 3.0)[0];
        let x: S = cx.var("x", -3.0, 3.0);
        let order = z.len().max(p.len()) + self.slack;
        let f = zpk2tf_dyn(order, &z, &p, k);
        if !cx.check("lengths", f.b.len() == order + 1 && f.a.len() == order + 1) {
            return;
        }
        let (n, d) = (rootprod(re(x), &z), rootprod(re(x), &p));
        clin(cx, "ratio", re(rhorner(&f.b, x)) * d, re(rhorner(&f.a, x)) * re(k) * n);
        // the denominator is the monic pole polynomial times a power of x that b shares
        let deg = z.len().max(p.len());
        let lead = f.a.iter().position(|c| *c == S::one()).unwrap_or(order + 1);
        let own = deg - p.len();
        if !cx.check("denominator monic within the slack", lead >= own && lead - own <= self.slack) {
            return;
        }
        let mut xs = S::one();
        for _ in lead - own..self.slack {
            xs = xs * x;
        }
        ceq(cx, "denominator", re(rhorner(&f.a, x)), d * re(xs));
        clin(cx, "numerator", re(rhorner(&f.b, x)), n * re(k * xs));
    }
}
fn main() {
    symcore::harness::main("C12", |thorough| {
        let mut v = vec![];
        for mode in 0..3 {
            for pairs in 0..=2usize {
                for reals in 0..=(if thorough { 4 } else { 3 }) {
                    if pairs * 2 + reals <= if thorough { 6 } else { 5 } {
                        v.push(Case::new(format!("poly pairs={pairs} reals={reals} mode={mode}"), Poly { pairs, reals, num: 0, mode }).secs(60.0));
                    }
                }
            }
            for num in 1..=if thorough { 16 } else { 11 } {
                v.push(Case::new(format!("poly numeric={num} mode={mode}"), Poly { pairs: 0, reals: 0, num, mode }).tol(1e-5));
                v.push(Case::new(format!("poly numeric={num} +1 real mode={mode}"), Poly { pairs: 0, reals: 1, num, mode }).tol(1e-5).secs(60.0));
                if num <= 6 || thorough {
                    v.push(Case::new(format!("poly numeric={num} +1 pair mode={mode}"), Poly { pairs: 1, reals: 0, num, mode }).tol(1e-5).secs(60.0));
                }
            }
            for (zp, zr) in [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (0, 3)] {
                for (pp, pr) in [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (2, 0)] {
                    for slack in 0..=3 {
                        if mode > 0 && slack > 1 {
                            continue;
                        }
                        v.push(Case::new(format!("tf zeros={zp}pairs+{zr} poles={pp}pairs+{pr} slack={slack} mode={mode}"), Tf { z: (zp, zr, 0), p: (pp, pr, 0), slack, mode }).secs(60.0));
                    }
                }
            }
            for nz in 0..=if thorough { 12 } else { 8 } {
                for np in [0, 1, 2, 3, 4, 5, 6, 8] {
                    v.push(Case::new(format!("tf numeric zeros={nz} poles={np} mode={mode}"), Tf { z: (0, 0, nz), p: (0, 0, np), slack: (nz + np) % 3, mode }).tol(1e-5));
                }
            }
        }
        for (z, p) in [((0, 0, 0), (0, 1, 0)), ((0, 1, 0), (0, 2, 0)), ((1, 0, 0), (1, 0, 0)), ((0, 0, 4), (0, 0, 4))] {
            for e in [-80, -40, 40] {
                v.push(Case::new(format!("tf gain zeros={z:?} poles={p:?}"), Tf { z, p, slack: 0, mode: 0 }).scaled(e));
            }
        }
        for n in 1..=if thorough { 5 } else { 4 } {
            v.push(Case::new(format!("poly free n={n}"), Free { n, reals: 0, pairs: 0, mode: 0, almost: None }));
            for mode in 0..3 {
                for (reals, pairs) in [(1, 0), (2, 0), (0, 1), (1, 1), (3, 0)] {
                    if n + reals + 2 * pairs <= if thorough { 6 } else { 4 } {
                        v.push(Case::new(format!("poly free n={n} reals={reals} pairs={pairs} mode={mode}"), Free { n, reals, pairs, mode, almost: None }).secs(60.0));
                    }
                    if n == 2 && reals + pairs < 2 {
                        for e in [0.5, 1e-2, 1e-3, -1e-4] {
                            v.push(Case::new(format!("poly almost conjugates by {e:e} reals={reals} pairs={pairs} mode={mode}"), Free { n, reals, pairs, mode, almost: Some(e) }).secs(60.0));
                        }
                    }
                }
            }
        }
        for n in 0..=if thorough { 5 } else { 4 } {
            v.push(Case::new(format!("poly real type n={n}"), Reals { n }));
        }
        v
    });
}
