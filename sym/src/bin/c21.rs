//! C21: square wave.
use ndarray::{Array, Array1, Array2, Array3, ArrayD, IxDyn};
use sci_rs::signal::wave::square;
use symcore::harness::*;

fn tau<S: Scalar>() -> S {
    <S as simba::scalar::RealField>::two_pi()
}
/// first period, boundaries included: t in [-2 pi, 2 pi]
struct Near {
    neg: bool,
}
impl Harness for Near {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let d: S = cx.var("d", 0.0, 1.0);
        let t: S = if self.neg { cx.var("t", -7.0, 0.0) } else { cx.var("t", 0.0, 7.0) };
        if self.neg {
            cx.assume(t < S::zero() && t >= -tau::<S>());
        } else {
            cx.assume(t >= S::zero() && t <= tau::<S>());
        }
        let y = square(&Array1::from(vec![t]), d);
        let x = if self.neg && t > -tau::<S>() {
            t + tau::<S>()
        } else if self.neg || t == tau::<S>() {
            S::zero()
        } else {
            t
        };
        // rounding of t + 2 pi at the upper end
        cx.assume(S::SYM || !self.neg || x == S::zero() || (x - tau::<S>() * d).modulus() > S::k(1e-9) && x < tau::<S>());
        let want = if x < tau::<S>() * d { S::one() } else { -S::one() };
        cx.check("length", y.len() == 1);
        cx.eq("value", y[0], want);
    }
}
/// any time in a wide range; not at a jump up to rounding
struct Far {
    lo: f64,
    hi: f64,
}
fn spec<S: Scalar>(cx: &mut Cx, t: S, d: S) -> S {
    let k = num_traits::Float::floor(t / tau::<S>());
    let x = t - tau::<S>() * k;
    let e = S::k(1e-7);
    cx.assume(x > e && x < tau::<S>() - e);
    let g = x - tau::<S>() * d;
    if g < S::zero() {
        cx.assume(-g > e);
        S::one()
    } else {
        cx.assume(g > e);
        -S::one()
    }
}
impl Harness for Far {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let d: S = cx.var("d", 0.0, 1.0);
        let t: S = cx.var("t", self.lo, self.hi);
        let y = square(&Array1::from(vec![t]), d);
        let want = spec(cx, t, d);
        cx.eq("value", y[0], want);
    }
}
/// periodicity: moving by whole periods changes nothing
struct Period {
    k: i32,
}
impl Harness for Period {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let d: S = cx.var("d", 0.0, 1.0);
        let t: S = cx.var("t", 0.0, 6.3);
        let e = S::k(1e-6);
        cx.assume(t > e && t < tau::<S>() - e);
        let g = t - tau::<S>() * d;
        if g < S::zero() {
            cx.assume(-g > e);
        } else {
            cx.assume(g > e);
        }
        let u = t + tau::<S>() * S::k(self.k as f64);
        let a = square(&Array1::from(vec![t]), d);
        let b = square(&Array1::from(vec![u]), d);
        cx.eq("same after whole periods", a[0], b[0]);
    }
}
/// every element on its own, at its own place, in any shape and memory layout
struct Shape {
    shape: Vec<usize>,
    free: usize,
    view: usize,
}
impl Harness for Shape {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let n: usize = self.shape.iter().product();
        let d: S = if n >= 20 && self.free % 2 == 0 { S::k(0.37) } else { cx.var("d", 0.0, 1.0) };
        // free sits anywhere, the others at fixed times; in large arrays either it or the duty is symbolic
        let t: Vec<S> = (0..n).map(|i| if i == self.free && (n < 20 || i % 2 == 0) { cx.var("t", -20.0, 20.0) } else { S::k((i * 29 % 23) as f64 * 1.3 - 14.0) }).collect();
        let a: ArrayD<S> = Array::from_shape_vec(IxDyn(&self.shape), t.clone()).unwrap();
        let (y, t): (ArrayD<S>, Vec<S>) = match self.view {
            0 => (square(&a, d), t),
            1 => {
                let r = a.view().reversed_axes();
                (square(&r, d), r.iter().cloned().collect())
            }
            2 if self.shape.len() == 1 => {
                let f: Array1<S> = a.clone().into_dimensionality().unwrap();
                let v = f.slice(ndarray::s![..;-1]);
                (square(&v, d).into_dyn(), v.iter().cloned().collect())
            }
            2 if self.shape.len() == 2 => {
                let f: Array2<S> = a.clone().into_dimensionality().unwrap();
                let v = f.slice(ndarray::s![..;2, ..;-1]);
                (square(&v, d).into_dyn(), v.iter().cloned().collect())
            }
            _ => {
                let f: Array3<S> = a.clone().into_dimensionality().unwrap();
                let v = f.slice(ndarray::s![.., ..;-1, ..]);
                (square(&v, d).into_dyn(), v.iter().cloned().collect())
            }
        };
        if !cx.check("number of elements", y.len() == t.len()) {
            return;
        }
        let mut want: Vec<usize> = self.shape.clone();
        if self.view == 1 {
            want.reverse();
        }
        if self.view == 2 && self.shape.len() == 2 {
            want[0] = (want[0] + 1) / 2;
        }
        cx.check("shape", y.shape() == &want[..]);
        for (i, (g, t)) in y.iter().zip(t.iter()).enumerate() {
            let w = spec(cx, *t, d);
            cx.eq(&format!("element {i}"), *g, w);
        }
    }
}
struct Reject {
    hi: bool,
    len: usize,
}
impl Harness for Reject {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let d: S = cx.var("d", -5.0, 5.0);
        cx.assume(if self.hi { d > S::one() } else { d < S::zero() });
        let t: Vec<S> = cx.vars("t", self.len, -20.0, 20.0);
        cx.must_panic("duty rejected", || square(&Array1::from(t), d));
    }
}
fn main() {
    symcore::harness::main("C21", |thorough| {
        let mut v = vec![];
        for neg in [false, true] {
            v.push(Case::new(format!("first period neg={neg}"), Near { neg }).validate(20));
        }
        let r = if thorough { 40 } else { 12 };
        for k in -r..r {
            let (lo, hi) = (k as f64 * 10.0, k as f64 * 10.0 + 10.0);
            v.push(Case::new(format!("time in [{lo}, {hi}]"), Far { lo, hi }).validate(4));
        }
        for (lo, hi) in [(-1000.0, 1000.0), (1e5, 1.0001e5), (-1.0001e5, -1e5)] {
            v.push(Case::new(format!("time in [{lo}, {hi}]"), Far { lo, hi }).validate(4));
        }
        for k in [-1000, -17, -3, -2, -1, 1, 2, 3, 4, 10, 999] {
            v.push(Case::new(format!("shift by {k} periods"), Period { k }).validate(4));
        }
        for shape in [vec![0], vec![1], vec![3], vec![7], vec![2, 3], vec![3, 1], vec![1, 4], vec![0, 3], vec![2, 2, 2], vec![1, 3, 2], vec![], vec![2, 1, 2, 2]] {
            let n: usize = shape.iter().product();
            let views: &[usize] = match shape.len() {
                0 | 4 => &[0, 1],
                _ => &[0, 1, 2],
            };
            for &view in views {
                for free in (0..n.max(1)).step_by(if thorough { 1 } else { 2 }) {
                    v.push(Case::new(format!("shape {shape:?} view={view} free={free}"), Shape { shape: shape.clone(), free, view }).validate(2));
                }
            }
        }
        for shape in [vec![20], vec![33], vec![65], vec![130], vec![1000], vec![4500], vec![25, 40], vec![8, 9, 10]] {
            let n: usize = shape.iter().product();
            for view in 0..3 {
                for free in [n / 3, n - 1 - n % 2, n / 2 | 1] {
                    v.push(Case::new(format!("shape {shape:?} view={view} free={free}"), Shape { shape: shape.clone(), free, view }).validate(1));
                }
            }
        }
        for hi in [false, true] {
            for len in [0, 1, 3] {
                v.push(Case::new(format!("duty rejected hi={hi} len={len}"), Reject { hi, len }).validate(2));
            }
        }
        v
    });
}
