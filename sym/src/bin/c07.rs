//! C07: bilinear_zpk_dyn preserves the transfer function under s = 2 fs (z-1)/(z+1).
use sci_rs::signal::filter::design::{bilinear_zpk_dyn, ZpkFormatFilter};
use symcore::harness::*;
use symcore::spec::*;

struct Bil {
    z: (usize, usize),
    p: (usize, usize),
}
impl Harness for Bil {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let z: Vec<C<S>> = roots(cx, "z", self.z.0, self.z.1, -3.0, 3.0);
        let p: Vec<C<S>> = roots(cx, "p", self.p.0, self.p.1, -3.0, 3.0);
        let k: S = cx.var("k", -3.0, 3.0);
        let fs: S = cx.var("fs", 0.5, 4.0);
        for r in z.iter().chain(&p) {
            cx.assume(r.im != S::zero() || r.re != S::k(2.0) * fs);
        }
        let d = bilinear_zpk_dyn(ZpkFormatFilter::new(z.clone(), p.clone(), k), fs);
        if !cx.check("as many zeros as poles", d.z.len() == p.len() && d.p.len() == p.len()) {
            return;
        }
        let w: S = cx.var("w", 1.5, 4.0);
        let s = re(S::k(2.0) * fs * (w - S::one()) / (w + S::one()));
        for r in &p {
            cx.assume(r.im != S::zero() || r.re != s.re);
        }
        // the images of the finite roots, and the zeros from infinity, as a set
        let two_fs = S::k(2.0) * fs;
        let img = |r: &C<S>| -> C<S> {
            // (2fs + r) / (2fs - r)
            let den = (two_fs - r.re) * (two_fs - r.re) + r.im * r.im;
            let n = (two_fs + r.re) * (two_fs - r.re) - r.im * r.im;
            symcore::spec::cx(n / den, ((two_fs + r.re) * r.im + r.im * (two_fs - r.re)) / den)
        };
        let mut zi: Vec<C<S>> = z.iter().map(img).collect();
        while zi.len() < p.len() {
            zi.push(re(-S::one()));
        }
        let pi: Vec<C<S>> = p.iter().map(img).collect();
        ceq(cx, "zero set", rootprod(re(w), &d.z), rootprod(re(w), &zi));
        ceq(cx, "pole set", rootprod(re(w), &d.p), rootprod(re(w), &pi));
        // full transfer function, cross-multiplied
        let num = rootprod(re(w), &d.z) * re(d.k);
        let den = rootprod(re(w), &d.p);
        let an = rootprod(s, &z) * re(k);
        let ad = rootprod(s, &p);
        ceq(cx, "transfer function", num / den, an / ad);
    }
}
/// gain alone, at larger orders: k_d * prod(2fs - p) = k * prod(2fs - z)
struct Gain {
    z: (usize, usize),
    p: (usize, usize),
}
impl Harness for Gain {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let z: Vec<C<S>> = roots(cx, "z", self.z.0, self.z.1, -3.0, 3.0);
        let p: Vec<C<S>> = roots(cx, "p", self.p.0, self.p.1, -3.0, 3.0);
        let k: S = cx.var("k", -3.0, 3.0);
        let fs: S = cx.var("fs", 0.5, 4.0);
        for r in z.iter().chain(&p) {
            cx.assume(r.im != S::zero() || r.re != S::k(2.0) * fs);
        }
        let d = bilinear_zpk_dyn(ZpkFormatFilter::new(z.clone(), p.clone(), k), fs);
        if !cx.check("as many zeros as poles", d.z.len() == p.len() && d.p.len() == p.len()) {
            return;
        }
        let two_fs = re(S::k(2.0) * fs);
        let n = rootprod(two_fs, &z) * re(k);
        let m = rootprod(two_fs, &p) * re(d.k);
        ceq(cx, "gain", m, n);
        // every root satisfies its bilinear relation: zd * (2fs - z) = 2fs + z, in input order when it is kept
        let mut left: Vec<C<S>> = d.p.clone();
        let w = re(cx.var::<S>("w", 1.5, 4.0));
        let _ = &mut left;
        // prod (w - pd) * prod(2fs - p) = prod (w (2fs - p) - (2fs + p))
        let lhs = rootprod(w, &d.p) * rootprod(two_fs, &p);
        let rhs = p.iter().fold(re(S::one()), |a, r| a * (w * (two_fs - *r) - (two_fs + *r)));
        ceq(cx, "poles", lhs, rhs);
    }
}
/// high orders: numeric roots, symbolic gain and rate
struct Num {
    nz: usize,
    np: usize,
}
impl Harness for Num {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let mk = |n: usize, o: f64| -> Vec<C<S>> {
            let mut v = vec![];
            for i in 0..n / 2 {
                let (a, b) = (-0.25 - 0.125 * i as f64 - o, 0.25 + 0.375 * i as f64);
                v.push(symcore::spec::cx(S::k(a), S::k(b)));
                v.push(symcore::spec::cx(S::k(a), S::k(-b)));
            }
            if n % 2 == 1 {
                v.push(re(S::k(-0.75 - o)));
            }
            v
        };
        let (z, p) = (mk(self.nz, 0.0625), mk(self.np, 0.5));
        let k: S = cx.var("k", -3.0, 3.0);
        let fs: S = cx.var("fs", 0.5, 4.0);
        for r in z.iter().chain(&p) {
            cx.assume(r.im != S::zero() || r.re != S::k(2.0) * fs);
        }
        let d = bilinear_zpk_dyn(ZpkFormatFilter::new(z.clone(), p.clone(), k), fs);
        if !cx.check("as many zeros as poles", d.z.len() == p.len() && d.p.len() == p.len()) {
            return;
        }
        let two_fs = re(S::k(2.0) * fs);
        ceq(cx, "gain", rootprod(two_fs, &p) * re(d.k), rootprod(two_fs, &z) * re(k));
        for w in [1.5, 2.0, 3.0] {
            let w = re(S::k(w));
            let img = |r: &[C<S>]| r.iter().fold(re(S::one()), |a, r| a * (w * (two_fs - *r) - (two_fs + *r)));
            ceq(cx, "poles", rootprod(w, &d.p) * rootprod(two_fs, &p), img(&p));
            let at_minus1 = (0..self.np - self.nz).fold(re(S::one()), |a, _| a * (w + re(S::one())));
            ceq(cx, "zeros", rootprod(w, &d.z) * rootprod(two_fs, &z), img(&z) * at_minus1);
        }
    }
}
struct Improper {
    z: (usize, usize),
    p: (usize, usize),
}
impl Harness for Improper {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let z: Vec<C<S>> = roots(cx, "z", self.z.0, self.z.1, -3.0, 3.0);
        let p: Vec<C<S>> = roots(cx, "p", self.p.0, self.p.1, -3.0, 3.0);
        let k: S = cx.var("k", -3.0, 3.0);
        let fs: S = cx.var("fs", 0.5, 4.0);
        cx.must_panic("improper rejected", || bilinear_zpk_dyn(ZpkFormatFilter::new(z.clone(), p.clone(), k), fs));
    }
}
fn main() {
    symcore::harness::main("C07", |thorough| {
        let mut v = vec![];
        let top = if thorough { 5 } else { 4 };
        for pp in 0..=2usize {
            for pr in 0..=3usize {
                for zp in 0..=2usize {
                    for zr in 0..=3usize {
                        let (np, nz) = (2 * pp + pr, 2 * zp + zr);
                        if np > top || nz > top {
                            continue;
                        }
                        let nm = format!("poles={pp}pairs+{pr} zeros={zp}pairs+{zr}");
                        if nz > np {
                            v.push(Case::new(format!("improper {nm}"), Improper { z: (zp, zr), p: (pp, pr) }).validate(1));
                        } else {
                            let c = Case::new(nm.clone(), Bil { z: (zp, zr), p: (pp, pr) }).secs(60.0);
                            v.push(if np > 3 { c.extra() } else { c });
                            let c = Case::new(format!("gain {nm}"), Gain { z: (zp, zr), p: (pp, pr) }).secs(60.0);
                            v.push(if np > 3 { c.extra() } else { c });
                        }
                    }
                }
            }
        }
        for np in 4..=if thorough { 12 } else { 9 } {
            for nz in [0, 1, np / 2, np - 1, np] {
                v.push(Case::new(format!("numeric roots poles={np} zeros={nz}"), Num { np, nz }).secs(40.0).extra());
            }
        }
        v
    });
}
