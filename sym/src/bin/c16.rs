//! C16: moment statistics against their definitions.
use num_traits::{Float, NumCast, Zero};
use sci_rs::stats::{autocorr, lag_diff, mean, rmssd, stdev, variance, zscore};
use symcore::harness::*;
use symcore::whole;

fn avg<S: Scalar>(x: &[S]) -> S {
    x.iter().fold(S::zero(), |a, b| a + *b) / S::k(x.len() as f64)
}
fn var<S: Scalar>(x: &[S]) -> S {
    let m = avg(x);
    x.iter().fold(S::zero(), |a, b| a + (*b - m) * (*b - m)) / S::k(x.len() as f64)
}
struct Moments {
    n: usize,
    /// supply the samples by value through an iterator of unknown length
    owned: bool,
    /// only this many samples are symbolic, the others are fixed numbers
    free: usize,
}
fn signal<S: Scalar>(cx: &mut Cx, n: usize, free: usize) -> Vec<S> {
    let u: S = cx.up();
    let flat = cx.pow == 0;
    (0..n)
        .map(|i| if i % (n / free.max(1)).max(1) == 0 && i / (n / free.max(1)).max(1) < free { cx.var(&format!("x{i}"), -4.0, 4.0) } else { S::k(((i * 37 + 11) % 16) as f64 * 0.25 - 1.75) })
        .map(|v: S| if flat { v } else { v * u })
        .collect()
}
impl Harness for Moments {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let n = self.n;
        let x: Vec<S> = signal(cx, n, self.free);
        let (m, mc): (S, usize) = if self.owned { mean(x.clone().into_iter().filter(|_| true)) } else { mean(x.iter()) };
        let (v, vc): (S, usize) = if self.owned { variance(x.clone().into_iter().filter(|_| true)) } else { variance(x.iter()) };
        let (s, sc): (S, usize) = if self.owned { stdev(x.clone().into_iter().filter(|_| true)) } else { stdev(x.iter()) };
        cx.check("counts", mc == n && vc == n && sc == n);
        if n == 0 {
            for (l, a) in [("mean", m), ("variance", v), ("stdev", s)] {
                cx.eq(l, a, S::zero());
            }
            return;
        }
        cx.lin("mean", m, avg(&x));
        cx.deg("variance", v, var(&x), 2);
        cx.deg("stdev squared", s * s, var(&x), 2);
        cx.check("stdev sign", s >= S::zero());
    }
}
/// mean of integer samples: the sum over the count, rounded to a neighbouring integer
struct IntMean {
    n: usize,
    free: usize,
}
impl Harness for IntMean {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let free: Vec<usize> = (0..self.free).map(|i| i * self.n / self.free).collect();
        let x: Vec<S::W> = whole::signal::<S>(cx, self.n, &free, -20, 20);
        let (m, c): (S::W, usize) = mean(x.iter());
        cx.check("count", c == self.n);
        let sum = x.iter().fold(S::W::zero(), |a, b| a + *b);
        if self.n == 0 {
            cx.check("empty", m == S::W::zero());
            return;
        }
        let k = <S::W as NumCast>::from(self.n).unwrap();
        let off = sum - k * m;
        cx.check("integer mean within one of the quotient", off < k && S::W::zero() - k < off);
    }
}
struct Derived {
    n: usize,
    free: usize,
    owned: bool,
}
impl Harness for Derived {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let n = self.n;
        let x: Vec<S> = signal(cx, n, self.free);
        let d: Vec<S> = if self.owned { lag_diff(x.clone().into_iter().filter(|_| true)).collect() } else { lag_diff(x.iter()).collect() };
        let want: Vec<S> = (1..n).map(|i| x[i] - x[i - 1]).collect();
        cx.lins("lag_diff", &d, &want);
        let r: S = if self.owned { rmssd(x.clone().into_iter().filter(|_| true)) } else { rmssd(x.iter()) };
        if n >= 2 {
            let ms = want.iter().fold(S::zero(), |a, b| a + *b * *b) / S::k((n - 1) as f64);
            cx.deg("rmssd squared", r * r, ms, 2);
            cx.check("rmssd sign", r >= S::zero());
        } else {
            cx.eq("rmssd of fewer than two samples", r, S::zero());
        }
        if n >= 2 {
            let z: Vec<S> = if self.owned { zscore(x.clone().into_iter().filter(|_| true)).collect() } else { zscore(x.iter()).collect() };
            let m = avg(&x);
            let sd = Float::sqrt(var(&x));
            cx.check("zscore length", z.len() == n);
            for i in 0..n {
                cx.lin(&format!("zscore[{i}]"), z[i] * sd, x[i] - m);
            }
        }
    }
}
struct Auto {
    n: usize,
    k: usize,
    free: usize,
    owned: bool,
}
impl Harness for Auto {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let x: Vec<S> = signal(cx, self.n, self.free);
        let r: S = if self.owned { autocorr(x.clone().into_iter().filter(|_| true), self.k) } else { autocorr(x.iter(), self.k) };
        let m = avg(&x);
        let mut s = S::zero();
        for i in 0..self.n.saturating_sub(self.k) {
            s = s + (x[i] - m) * (x[i + self.k] - m);
        }
        cx.deg("autocorr", r * var(&x) * S::k(self.n as f64), s, 2);
    }
}
fn main() {
    symcore::harness::main("C16", |thorough| {
        let mut v = vec![];
        for n in [1usize, 2, 3, 5, 8] {
            for p in [-60, 60] {
                v.push(Case::new(format!("moments n={n}"), Moments { n, owned: false, free: n }).scaled(p));
                v.push(Case::new(format!("derived n={n}"), Derived { n, owned: false, free: n }).scaled(p));
                for k in 0..n.min(4) {
                    if n > 1 {
                        v.push(Case::new(format!("autocorr n={n} k={k}"), Auto { n, k, owned: false, free: n }).scaled(p));
                    }
                }
            }
        }
        for n in (0..=12usize).chain([33, 100]) {
            v.push(Case::new(format!("integer mean n={n}"), IntMean { n, free: n.min(6) }));
        }
        for owned in [false, true] {
            for n in (0..=if thorough { 40 } else { 24usize }).chain([33, 64]) {
                v.push(Case::new(format!("moments n={n} owned={owned}"), Moments { n, owned, free: n.min(40) }));
                v.push(Case::new(format!("derived n={n} owned={owned}"), Derived { n, owned, free: if thorough { n.min(16) } else { n.min(8) } }));
            }
            for n in [100, 257, 1000, 1030] {
                v.push(Case::new(format!("moments n={n} owned={owned}"), Moments { n, owned, free: 5 }));
                v.push(Case::new(format!("derived n={n} owned={owned}"), Derived { n, owned, free: 3 }));
                for k in [0, 1, 7, n / 2, n - 1] {
                    v.push(Case::new(format!("autocorr n={n} k={k} owned={owned}"), Auto { n, k, owned, free: 4 }));
                }
            }
            for n in 2..=if thorough { 24 } else { 14usize } {
                for k in 0..=n + 1 {
                    v.push(Case::new(format!("autocorr n={n} k={k} owned={owned}"), Auto { n, k, owned, free: n.min(8) }));
                }
            }
        }
        v
    });
}
