//! Reference definitions the harnesses compare the code with.
use crate::harness::Scalar;
use nalgebra::Complex;
use sci_rs::signal::filter::design::Sos;

/// one sample through one transposed direct-form-II biquad; returns the output
pub fn biquad<S: Scalar>(x: S, b: &[S; 3], a: &[S; 3], z: &mut [S; 2]) -> S {
    let y = b[0] * x + z[0];
    z[0] = b[1] * x - a[1] * y + z[1];
    z[1] = b[2] * x - a[2] * y;
    y
}
pub fn cascade<S: Scalar>(x: S, sos: &[Sos<S>], z: &mut [[S; 2]]) -> S {
    let mut v = x;
    for (s, zi) in sos.iter().zip(z.iter_mut()) {
        v = biquad(v, &s.b, &s.a, zi);
    }
    v
}
pub fn states<S: Scalar>(sos: &[Sos<S>]) -> Vec<[S; 2]> {
    sos.iter().map(|s| [s.zi0, s.zi1]).collect()
}
/// general transposed direct-form-II step for coefficient vectors with a[0] possibly != 1
pub fn df2t<S: Scalar>(x: S, b: &[S], a: &[S], z: &mut [S]) -> S {
    let n = b.len();
    let a0 = a[0];
    let y = b[0] / a0 * x + z[0];
    for i in 0..n - 1 {
        let nx = if i + 1 < n - 1 { z[i + 1] } else { S::zero() };
        z[i] = b[i + 1] / a0 * x - a[i + 1] / a0 * y + nx;
    }
    y
}
pub type C<S> = Complex<S>;
pub fn cx<S: Scalar>(re: S, im: S) -> C<S> {
    Complex::new(re, im)
}
/// monic polynomial with the given complex roots, highest power first
pub fn cpoly<S: Scalar>(roots: &[C<S>]) -> Vec<C<S>> {
    let mut p = vec![cx(S::one(), S::zero())];
    for r in roots {
        let mut q = vec![cx(S::zero(), S::zero()); p.len() + 1];
        for (i, c) in p.iter().enumerate() {
            q[i] = q[i] + *c;
            q[i + 1] = q[i + 1] - *c * *r;
        }
        p = q;
    }
    p
}
/// product of real polynomials (highest power first)
pub fn pmul<S: Scalar>(a: &[S], b: &[S]) -> Vec<S> {
    let mut out = vec![S::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            out[i + j] = out[i + j] + *x * *y;
        }
    }
    out
}
pub fn cpmul<S: Scalar>(a: &[C<S>], b: &[C<S>]) -> Vec<C<S>> {
    let mut out = vec![cx(S::zero(), S::zero()); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            out[i + j] = out[i + j] + *x * *y;
        }
    }
    out
}

/// conjugate-closed symbolic root set: `pairs` conjugate pairs then `reals` real roots
pub fn roots<S: Scalar>(cxx: &mut crate::harness::Cx, name: &str, pairs: usize, reals: usize, lo: f64, hi: f64) -> Vec<C<S>> {
    let mut v = vec![];
    for i in 0..pairs {
        let re: S = cxx.var(&format!("{name}{i}re"), lo, hi);
        let im: S = cxx.var(&format!("{name}{i}im"), 0.05, 3.0);
        v.push(cx(re, im));
        v.push(cx(re, -im));
    }
    for i in 0..reals {
        let re: S = cxx.var(&format!("{name}r{i}"), lo, hi);
        v.push(cx(re, S::zero()));
    }
    v
}
/// prod (x - r)
pub fn rootprod<S: Scalar>(x: C<S>, r: &[C<S>]) -> C<S> {
    r.iter().fold(cx(S::one(), S::zero()), |a, b| a * (x - *b))
}
pub fn re<S: Scalar>(x: S) -> C<S> {
    cx(x, S::zero())
}
pub fn ceq<S: Scalar>(cxx: &mut crate::harness::Cx, label: &str, a: C<S>, b: C<S>) {
    cxx.eq(&format!("{label} (re)"), a.re, b.re);
    cxx.eq(&format!("{label} (im)"), a.im, b.im);
}

/// the same for quantities proportional to the scaled input
pub fn clin<S: Scalar>(cxx: &mut crate::harness::Cx, label: &str, a: C<S>, b: C<S>) {
    cxx.lin(&format!("{label} (re)"), a.re, b.re);
    cxx.lin(&format!("{label} (im)"), a.im, b.im);
}
