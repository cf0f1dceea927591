//! C15: Savitzky-Golay coefficients and filtering.
use sci_rs::signal::filter::{savgol_coeffs_dyn, savgol_filter_dyn};
use symcore::harness::*;

fn fact(n: usize) -> f64 {
    (1..=n).map(|x| x as f64).product()
}
struct Coeffs {
    w: usize,
    d: usize,
    m: Option<usize>,
    delta: bool,
}
impl Harness for Coeffs {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let (w, d) = (self.w, self.d);
        let m = self.m.unwrap_or(0);
        let delta: S = if self.delta { cx.var("delta", -3.0, 3.0) } else { S::one() };
        cx.assume(delta != S::zero());
        let c: Vec<S> = savgol_coeffs_dyn(w, d, self.m, if self.delta { Some(delta) } else { None });
        if !cx.check("one coefficient per window sample", c.len() == w) {
            return;
        }
        if m > d {
            for (i, x) in c.iter().enumerate() {
                cx.eq(&format!("zero coefficient {i}"), *x, S::zero());
            }
            return;
        }
        // c[i] multiplies the sample at (w-1)/2 - i steps from the centre
        let half = (w as f64 - 1.0) / 2.0;
        let scale = if half > 0.0 { half } else { 1.0 };
        let u: Vec<f64> = (0..w).map(|i| (half - i as f64) / scale).collect();
        let mut dm = S::one();
        for _ in 0..m {
            dm = dm * delta * S::k(scale);
        }
        // every polynomial of degree at most d, in units of the half window
        let q: Vec<S> = cx.vars("q", d + 1, -2.0, 2.0);
        let mut s = S::zero();
        for i in 0..w {
            let p = (0..=d).rev().fold(S::zero(), |a, k| a * S::k(u[i]) + q[k]);
            s = s + c[i] * dm * p;
        }
        cx.eq("derivative of every polynomial at the centre", s, q[m] * S::k(fact(m)));
        // minimal norm: the coefficients are a polynomial of degree at most d in the position
        let mut t: Vec<S> = c.iter().map(|x| *x * dm).collect();
        for _ in 0..=d {
            t = t.windows(2).map(|p| p[1] - p[0]).collect();
        }
        for (i, x) in t.iter().enumerate() {
            cx.eq(&format!("difference of order {} at {i}", d + 1), S::one() + *x, S::one());
        }
    }
}
/// an iterator that claims nothing useful about its length
struct Vague<I>(I, usize);
impl<I: Iterator> Iterator for Vague<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.1 {
            0 => (0, None),
            1 => (0, Some(usize::MAX)),
            _ => (0, Some(usize::MAX / 2)),
        }
    }
}
struct Filter {
    w: usize,
    d: usize,
    m: Option<usize>,
    delta: bool,
    n: usize,
    src: usize,
}
impl Harness for Filter {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let (w, d, n) = (self.w, self.d, self.n);
        let delta: S = if self.delta { cx.var("delta", -3.0, 3.0) } else { S::one() };
        cx.assume(delta != S::zero());
        let od = if self.delta { Some(delta) } else { None };
        let x: Vec<S> = cx.sig("x", n, -4.0, 4.0);
        let y: Vec<S> = match self.src {
            0 => savgol_filter_dyn(x.iter(), w, d, self.m, od),
            1 => savgol_filter_dyn(x.clone().into_iter(), w, d, self.m, od),
            k => savgol_filter_dyn(Vague(x.iter(), k - 2), w, d, self.m, od),
        };
        if !cx.check("one sample per input sample", y.len() == n) {
            return;
        }
        let c: Vec<S> = savgol_coeffs_dyn(w, d, self.m, od);
        let half = (w / 2) as isize;
        for i in 0..n {
            let mut s = S::zero();
            for j in 0..w {
                let at = (i as isize + half - j as isize).clamp(0, n as isize - 1) as usize;
                s = s + c[j] * x[at];
            }
            cx.lin(&format!("y[{i}]"), y[i], s);
        }
    }
}
struct Reject {
    w: usize,
    d: usize,
    n: usize,
    coeffs: bool,
}
impl Harness for Reject {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let x: Vec<S> = cx.vars("x", self.n, -4.0, 4.0);
        let (w, d) = (self.w, self.d);
        if self.coeffs {
            cx.must_panic("too small window rejected", || savgol_coeffs_dyn::<S>(w, d, None, None::<S>));
        } else {
            cx.must_panic("window rejected", || savgol_filter_dyn(x.iter(), w, d, None, None::<S>));
        }
    }
}
fn main() {
    symcore::harness::main("C15", |thorough| {
        let mut v = vec![];
        // the decomposition of nalgebra is only good to 1e-4 (scaled) at window 8, order 5
        for w in (1..=if thorough { 35usize } else { 17 }).chain([21, 25, 31]) {
            for d in 0..=5usize.min(w - 1) {
                for m in 0..=d + 2 {
                    if m > 4 && w > 9 && !thorough {
                        continue;
                    }
                    for delta in [false, true] {
                        let mo = if m == 0 && !delta { None } else { Some(m) };
                        v.push(Case::new(format!("coeffs window={w} order={d} deriv={mo:?} delta={delta}"), Coeffs { w, d, m: mo, delta }).validate(2).tol(if d >= 4 { 1e-3 } else { 1e-5 }));
                    }
                }
            }
        }
        for w in (3..=if thorough { 15usize } else { 11 }).step_by(2) {
            for d in 0..=4usize.min(w - 2) {
                for (m, delta) in [(None, false), (Some(1), true), (Some(2), false), (Some(d + 1), true)] {
                    for n in [0, 1, 2, w / 2, w - 1, w, w + 1, 2 * w + 1] {
                        let src = (w / 2 + d + n) % 5;
                        v.push(Case::new(format!("filter window={w} order={d} deriv={m:?} delta={delta} n={n} source={src}"), Filter { w, d, m, delta, n, src }).validate(2).tol(1e-5));
                    }
                }
            }
        }
        for (w, d, m, n) in [(5, 2, None, 9), (3, 1, Some(1), 5), (7, 3, None, 11), (9, 2, Some(2), 12)] {
            for p in [-80, 80] {
                v.push(Case::new(format!("filter window={w} order={d} deriv={m:?} n={n}"), Filter { w, d, m, delta: false, n, src: 0 }).validate(2).tol(1e-5).scaled(p));
            }
        }
        for src in 0..5 {
            for n in [0, 1, 3, 7, 40] {
                v.push(Case::new(format!("filter window=5 order=2 n={n} source={src}"), Filter { w: 5, d: 2, m: None, delta: false, n, src }).validate(1).tol(1e-5));
            }
        }
        for (w, d, n) in [(5, 2, 300), (5, 2, 1030), (7, 3, 200), (13, 2, 12), (13, 4, 30), (21, 2, 20), (21, 3, 45), (31, 2, 30), (31, 4, 70), (51, 3, 60), (101, 2, 10), (101, 2, 205)] {
            v.push(Case::new(format!("long filter window={w} order={d} n={n}"), Filter { w, d, m: if n % 2 == 0 { None } else { Some(1) }, delta: false, n, src: n % 5 }).validate(1).tol(1e-4));
        }
        for n in [0, 5, 20] {
            for w in 0..=12usize {
                for d in 0..=12usize {
                    if w % 2 == 0 || w < d + 2 {
                        v.push(Case::new(format!("reject filter window={w} order={d} n={n}"), Reject { w, d, n, coeffs: false }).validate(1));
                    }
                    if n == 0 && d >= w {
                        v.push(Case::new(format!("reject coeffs window={w} order={d}"), Reject { w, d, n, coeffs: true }).validate(1));
                    }
                }
            }
        }
        v
    });
}
