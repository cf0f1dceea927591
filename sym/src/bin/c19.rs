//! C19: convolution and correlation against their defining sums, in every mode.
use sci_rs::signal::convolve::{convolve, correlate, fftconvolve, ConvolveMode};
use symcore::harness::*;

struct Conv {
    n1: usize,
    n2: usize,
    /// how many samples of each signal are symbolic (the rest are numbers)
    s1: usize,
    s2: usize,
    f: usize,
    mode: usize,
}
fn signal<S: Scalar>(cx: &mut Cx, name: &str, n: usize, free: usize) -> Vec<S> {
    let at = |i: usize| free >= n || (i * 7 + 3) % n.max(1) < free || i + 1 == n && free > 0;
    (0..n)
        .map(|i| if at(i) { cx.var(&format!("{name}{i}"), -4.0, 4.0) } else { S::k(((i * 37 + 11) % 17) as f64 / 4.0 - 2.0) })
        .collect()
}
impl Harness for Conv {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let (n1, n2) = (self.n1, self.n2);
        let a: Vec<S> = signal(cx, "a", n1, self.s1);
        let mut b: Vec<S> = signal(cx, "b", n2, self.s2);
        let mut a = a;
        if cx.pow != 0 {
            let u: S = cx.up();
            a.iter_mut().chain(b.iter_mut()).for_each(|v| *v = *v * u);
        }
        let mode = || match self.mode {
            0 => ConvolveMode::Full,
            1 => ConvolveMode::Valid,
            _ => ConvolveMode::Same,
        };
        let y = match self.f {
            0 => convolve(&a, &b, mode()),
            1 => correlate(&a, &b, mode()),
            _ => fftconvolve(&a, &b, mode()),
        };
        let mut full = vec![S::zero(); n1 + n2 - 1];
        for i in 0..n1 {
            for j in 0..n2 {
                let at = if self.f == 1 { n2 - 1 - j } else { j };
                full[i + at] = full[i + at] + a[i] * b[j];
            }
        }
        let (lo, len) = match self.mode {
            0 => (0, n1 + n2 - 1),
            1 => (n1.min(n2) - 1, n1.max(n2) - n1.min(n2) + 1),
            _ => ((n2 - 1) / 2, n1),
        };
        if !cx.check("length", y.len() == len) {
            return;
        }
        for k in 0..len {
            cx.deg(&format!("y[{k}]"), y[k], full[lo + k], 2);
        }
    }
}
fn main() {
    symcore::harness::main("C19", |thorough| {
        let mut v = vec![];
        let lim = if thorough { 12usize } else { 9 };
        for n1 in 1..=lim {
            for n2 in 1..=lim {
                for mode in 0..3 {
                    for f in 0..2 {
                        v.push(Case::new(format!("f={f} mode={mode} n1={n1} n2={n2}"), Conv { n1, n2, s1: n1, s2: n2, f, mode }).validate(1).tol(1e-6));
                    }
                    if n1 + n2 < 7 {
                        v.push(Case::new(format!("f=2 mode={mode} n1={n1} n2={n2}"), Conv { n1, n2, s1: n1, s2: n2, f: 2, mode }).validate(1).tol(1e-6));
                    }
                }
            }
        }
        for (n1, n2) in [(1, 1), (4, 3), (3, 4), (7, 2), (5, 5)] {
            for mode in 0..3 {
                for f in 0..2 {
                    for p in [-60, 60] {
                        v.push(Case::new(format!("f={f} mode={mode} n1={n1} n2={n2}"), Conv { n1, n2, s1: n1, s2: n2, f, mode }).validate(1).tol(1e-6).scaled(p));
                    }
                }
            }
        }
        for (n1, n2) in [(16, 1), (1, 16), (17, 16), (16, 17), (31, 2), (2, 31), (33, 5), (5, 33), (64, 64), (63, 3), (100, 7), (7, 100), (130, 1), (1, 130)] {
            for mode in 0..3 {
                for f in 0..2 {
                    v.push(Case::new(format!("long f={f} mode={mode} n1={n1} n2={n2}"), Conv { n1, n2, s1: 2, s2: 2, f, mode }).validate(1).tol(1e-6));
                    if thorough {
                        v.push(Case::new(format!("long a f={f} mode={mode} n1={n1} n2={n2}"), Conv { n1, n2, s1: 12, s2: 0, f, mode }).validate(1).tol(1e-6));
                        v.push(Case::new(format!("long b f={f} mode={mode} n1={n1} n2={n2}"), Conv { n1, n2, s1: 0, s2: 12, f, mode }).validate(1).tol(1e-6));
                    }
                }
            }
        }
        v
    });
}
