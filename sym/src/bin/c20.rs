//! C20: Fourier resampling.
use sci_rs::signal::resample::resample;
use symcore::harness::*;

/// harmonic j of the signal x (both parts), by the defining sum
fn cossin(j: usize, num: usize, den: usize) -> (f64, f64) {
    let r = (j * num) % den;
    let a = 2.0 * std::f64::consts::PI * r as f64 / den as f64;
    (a.cos(), a.sin())
}
/// an arbitrary signal: the result is the interpolation by the retained harmonics
struct Any {
    m: usize,
    n: usize,
    free: usize,
}
impl Harness for Any {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let (m, n) = (self.m, self.n);
        let x: Vec<S> = (0..m)
            .map(|i| if self.free >= m || (i * 7 + 3) % m < self.free { cx.var(&format!("x{i}"), -4.0, 4.0) } else { S::k(((i * 37 + 11) % 17) as f64 / 4.0 - 2.0) })
            .collect();
        let u: S = cx.up();
        let x: Vec<S> = if cx.pow == 0 { x } else { x.into_iter().map(|v: S| v * u).collect() };
        let y = resample(&x, n);
        if !cx.check("n samples", y.len() == n) {
            return;
        }
        let half = m.min(n) / 2;
        // Dirichlet kernel of the kept bins -half..half-1
        let kern = |p: usize, i: usize| -> f64 {
            // phase p/n - i/m
            let t = ((p * m) as f64 - (i * n) as f64) / (m * n) as f64;
            let w = |j: f64| (2.0 * std::f64::consts::PI * j * t).cos();
            let mut s = 0.0;
            for j in 0..half {
                s += w(j as f64);
                s += w((j + 1) as f64);
            }
            s / m as f64
        };
        for p in 0..n {
            let mut s = S::zero();
            for i in 0..m {
                s = s + x[i] * S::k(kern(p, i));
            }
            cx.lin(&format!("y[{p}]"), y[p], s);
        }
    }
}
/// a signal made of harmonics: those below the retained half are reproduced, those above removed
struct Harm {
    m: usize,
    n: usize,
}
impl Harness for Harm {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let (m, n) = (self.m, self.n);
        let half = m.min(n) / 2;
        let top = (m - 1) / 2; // harmonics with both parts free
        let a: Vec<S> = cx.vars("a", top + 1, -2.0, 2.0);
        let b: Vec<S> = cx.vars("b", top + 1, -2.0, 2.0);
        let keep = |j: usize| j < half;
        let skip = |j: usize| j == half; // the split bin: not claimed
        let x: Vec<S> = (0..m)
            .map(|i| {
                let mut s = S::zero();
                for j in (0..=top).filter(|j| !skip(*j)) {
                    let (c, d) = cossin(j, i, m);
                    s = s + a[j] * S::k(c) + b[j] * S::k(d);
                }
                s
            })
            .collect();
        let y = resample(&x, n);
        if !cx.check("n samples", y.len() == n) {
            return;
        }
        for p in 0..n {
            let mut s = S::zero();
            for j in (0..=top).filter(|j| keep(*j)) {
                let (c, d) = cossin(j, p, n);
                s = s + a[j] * S::k(c) + b[j] * S::k(d);
            }
            cx.eq(&format!("y[{p}]"), y[p], s);
        }
        // up (or down) and back
        if n >= m {
            let low: Vec<S> = (0..m)
                .map(|i| {
                    let mut s = S::zero();
                    for j in (0..=top).filter(|j| keep(*j)) {
                        let (c, d) = cossin(j, i, m);
                        s = s + a[j] * S::k(c) + b[j] * S::k(d);
                    }
                    s
                })
                .collect();
            let back = resample(&resample(&low, n), m);
            cx.eqs("back", &back, &low);
        }
    }
}
fn main() {
    symcore::harness::main("C20", |thorough| {
        let mut v = vec![];
        let lim = if thorough { 20usize } else { 13 };
        for m in 1..=lim {
            for n in 0..=lim + 3 {
                if m * n <= 260 || thorough {
                    v.push(Case::new(format!("any m={m} n={n}"), Any { m, n, free: m }).validate(1).tol(1e-6));
                }
                if n > 0 {
                    v.push(Case::new(format!("harmonics m={m} n={n}"), Harm { m, n }).validate(1).tol(1e-6));
                }
            }
        }
        for (m, n) in [(4, 7), (7, 4), (6, 6), (5, 10), (10, 5), (1, 3)] {
            for p in [-80, 80] {
                v.push(Case::new(format!("any m={m} n={n}"), Any { m, n, free: m }).validate(1).tol(1e-6).scaled(p));
            }
        }
        for (m, n) in [(16, 32), (32, 16), (17, 40), (40, 17), (64, 65), (65, 64), (50, 100), (100, 50), (31, 97), (97, 31), (128, 30), (23, 23), (24, 24), (200, 3), (3, 200), (1, 64), (64, 1), (250, 100), (100, 250)] {
            v.push(Case::new(format!("long m={m} n={n}"), Any { m, n, free: 6 }).validate(1).tol(1e-6));
        }
        v
    });
}
