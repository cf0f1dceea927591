//! C06: odd_ext_dyn and pad on every small shape, both axes.
use nalgebra::{DMatrix, DVector, Matrix2x3, RowDVector, Vector4};
use sci_rs::signal::filter::{odd_ext_dyn, pad, Pad};
use symcore::harness::*;

/// expected element of the odd extension by n along axis
fn want<S: Scalar>(x: &DMatrix<S>, n: usize, axis: usize, i: usize, j: usize) -> S {
    let len = if axis == 0 { x.nrows() } else { x.ncols() };
    let at = |k: usize| if axis == 0 { x[(k, j)] } else { x[(i, k)] };
    let k = if axis == 0 { i } else { j };
    if k < n {
        S::k(2.0) * at(0) - at(n - k)
    } else if k < n + len {
        at(k - n)
    } else {
        let d = k - n - len + 1;
        S::k(2.0) * at(len - 1) - at(len - 1 - d)
    }
}
fn cmp<S: Scalar>(cx: &mut Cx, x: &DMatrix<S>, m: &DMatrix<S>, n: usize, axis: usize) {
    let (r, c) = if axis == 0 { (x.nrows() + 2 * n, x.ncols()) } else { (x.nrows(), x.ncols() + 2 * n) };
    if !cx.check("shape", m.shape() == (r, c)) {
        return;
    }
    for i in 0..r {
        for j in 0..c {
            cx.lin(&format!("m[{i},{j}]"), m[(i, j)], want(x, n, axis, i, j));
        }
    }
}
fn mat<S: Scalar>(cx: &mut Cx, r: usize, c: usize) -> DMatrix<S> {
    let d: Vec<S> = cx.sig("x", r * c, -10.0, 10.0);
    DMatrix::from_vec(r, c, d)
}
struct Ext {
    r: usize,
    c: usize,
    n: usize,
    axis: usize,
}
impl Harness for Ext {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let x: DMatrix<S> = mat(cx, self.r, self.c);
        let len = [self.r, self.c, 0][self.axis.min(2)];
        if self.axis >= 2 || (self.n >= 1 && self.n >= len) {
            cx.must_panic("odd_ext rejects", || odd_ext_dyn(x.clone(), self.n, self.axis));
        } else {
            let m = odd_ext_dyn(x.clone(), self.n, self.axis);
            cmp(cx, &x, &m, self.n, self.axis);
        }
        // pad with the same explicit length
        if self.axis >= 2 || self.n >= len {
            cx.must_panic("pad rejects", || pad(Pad::Odd, Some(self.n), x.clone(), self.axis, 1));
        } else {
            let (e, m) = pad(Pad::Odd, Some(self.n), x.clone(), self.axis, 7);
            cx.check("edge", e == self.n);
            cmp(cx, &x, &m, self.n, self.axis);
        }
        // no padding requested: length ignored, data unchanged
        if self.axis < 2 && len > 0 {
            let (e, m) = pad(Pad::None, Some(self.n), x.clone(), self.axis, self.n);
            cx.check("edge none", e == 0);
            cmp(cx, &x, &m, 0, self.axis);
            let (e, m) = pad(Pad::None, None, x.clone(), self.axis, self.n);
            cx.check("edge none default", e == 0);
            cmp(cx, &x, &m, 0, self.axis);
            for p in [Pad::Even, Pad::Constant, Pad::Odd] {
                let (e, m) = pad(p, Some(0), x.clone(), self.axis, self.n + 1);
                cx.check("edge zero", e == 0);
                cmp(cx, &x, &m, 0, self.axis);
            }
        }
    }
}
struct Default3 {
    extra: usize,
    other: usize,
    ntaps: usize,
    axis: usize,
}
impl Harness for Default3 {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let len = 3 * self.ntaps + self.extra;
        let x: DMatrix<S> = if self.axis == 0 { mat(cx, len, self.other) } else { mat(cx, self.other, len) };
        if self.extra == 0 {
            cx.must_panic("too short for the default", || pad(Pad::Odd, None, x.clone(), self.axis, self.ntaps));
            return;
        }
        let (e, m) = pad(Pad::Odd, None, x.clone(), self.axis, self.ntaps);
        cx.check("edge", e == 3 * self.ntaps);
        cmp(cx, &x, &m, 3 * self.ntaps, self.axis);
    }
}
/// other storage types: vectors, row vectors, statically sized matrices
struct Static {
    n: usize,
}
impl Harness for Static {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let d: Vec<S> = cx.vars("x", 6, -10.0, 10.0);
        let n = self.n;
        let v = DVector::from_vec(d.clone());
        let as_m = DMatrix::from_vec(6, 1, d.clone());
        cmp(cx, &as_m, &odd_ext_dyn(v, n, 0), n, 0);
        let rv = RowDVector::from_vec(d.clone());
        let as_m = DMatrix::from_vec(1, 6, d.clone());
        cmp(cx, &as_m, &odd_ext_dyn(rv, n, 1), n, 1);
        let s = Matrix2x3::from_iterator(d.iter().cloned());
        let as_m = DMatrix::from_vec(2, 3, d.clone());
        if n < 2 {
            cmp(cx, &as_m, &odd_ext_dyn(s, n, 0), n, 0);
        } else {
            cx.must_panic("static rows", || odd_ext_dyn(s, n, 0));
        }
        if n < 3 {
            cmp(cx, &as_m, &odd_ext_dyn(s, n, 1), n, 1);
        } else {
            cx.must_panic("static cols", || odd_ext_dyn(s, n, 1));
        }
        let s4 = Vector4::from_iterator(d.iter().cloned().take(4));
        let as_m = DMatrix::from_vec(4, 1, d[..4].to_vec());
        if n < 4 {
            cmp(cx, &as_m, &odd_ext_dyn(s4, n, 0), n, 0);
        }
    }
}
fn main() {
    symcore::harness::main("C06", |thorough| {
        let mut v = vec![];
        let m = if thorough { 9 } else { 6 };
        for r in 0..=m {
            for c in 0..=m {
                for n in 0..=(m + 2) {
                    for axis in 0..3 {
                        v.push(Case::new(format!("ext {r}x{c} n={n} axis={axis}"), Ext { r, c, n, axis }).validate(1));
                    }
                }
            }
        }
        for (r, c, n) in [(40, 1, 30), (40, 1, 39), (40, 1, 40), (1, 40, 30), (3, 50, 49), (3, 50, 17), (60, 2, 20), (2, 60, 33), (12, 12, 11), (130, 1, 128)] {
            for axis in 0..2 {
                v.push(Case::new(format!("ext {r}x{c} n={n} axis={axis}"), Ext { r, c, n, axis }).validate(1));
            }
        }
        for (r, c, n, axis) in [(5, 1, 3, 0), (1, 5, 3, 1), (4, 3, 2, 0), (3, 4, 2, 1)] {
            for p in [-80, 80] {
                v.push(Case::new(format!("ext {r}x{c} n={n} axis={axis}"), Ext { r, c, n, axis }).validate(1).scaled(p));
            }
        }
        for ntaps in [6, 7, 9, 13, 21, 25, 41] {
            for axis in 0..2 {
                for extra in [0, 1, 5] {
                    v.push(Case::new(format!("default ntaps={ntaps} extra={extra} axis={axis}"), Default3 { ntaps, extra, other: 1, axis }).validate(1));
                }
            }
        }
        for ntaps in 0..=if thorough { 9 } else { 5 } {
            for other in 1..=3 {
                for extra in [0, 1, 2, 7] {
                    for axis in 0..2 {
                        v.push(Case::new(format!("default ntaps={ntaps} extra={extra} other={other} axis={axis}"), Default3 { ntaps, extra, other, axis }).validate(1));
                    }
                }
            }
        }
        for n in 0..=4 {
            v.push(Case::new(format!("storage n={n}"), Static { n }).validate(1));
        }
        v
    });
}
