//! C08: lp2lp_zpk_dyn and lp2hp_zpk_dyn against the s-plane substitutions.
use sci_rs::signal::filter::design::{lp2hp_zpk_dyn, lp2lp_zpk_dyn, ZpkFormatFilter};
use symcore::harness::*;
use symcore::spec::*;

struct Sub {
    z: (usize, usize),
    p: (usize, usize),
    hp: bool,
    default: bool,
}
impl Harness for Sub {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let z: Vec<C<S>> = roots(cx, "z", self.z.0, self.z.1, -3.0, 3.0);
        let p: Vec<C<S>> = roots(cx, "p", self.p.0, self.p.1, -3.0, 3.0);
        for r in z.iter().chain(&p) {
            cx.assume(r.im != S::zero() || r.re != S::zero());
        }
        let k: S = cx.var("k", -3.0, 3.0);
        let wo: S = if self.default { S::one() } else { cx.var("wo", 0.1, 8.0) };
        let arg = if self.default { None } else { Some(wo) };
        let f = ZpkFormatFilter::new(z.clone(), p.clone(), k);
        let d = if self.hp { lp2hp_zpk_dyn(f, arg) } else { lp2lp_zpk_dyn(f, arg) };
        let nz = if self.hp { p.len() } else { z.len() };
        if !cx.check("counts", d.z.len() == nz && d.p.len() == p.len()) {
            return;
        }
        let w: S = cx.var("w", 0.2, 4.0);
        if self.hp {
            // poles: prod(w - pd) * prod(-p) = prod(wo - w p)
            let sub = |r: &[C<S>]| r.iter().fold(re(S::one()), |a, r| a * (re(wo) - re(w) * *r));
            let neg = |r: &[C<S>]| r.iter().fold(re(S::one()), |a, r| a * (-*r));
            ceq(cx, "poles", rootprod(re(w), &d.p) * neg(&p), sub(&p));
            let origin = (z.len()..p.len()).fold(re(S::one()), |a, _| a * re(w));
            ceq(cx, "zeros", rootprod(re(w), &d.z) * neg(&z), sub(&z) * origin);
            ceq(cx, "gain", re(d.k) * neg(&p), re(k) * neg(&z));
        } else {
            let sc = |r: &[C<S>]| r.iter().fold(re(S::one()), |a, r| a * (re(w) - re(wo) * *r));
            ceq(cx, "poles", rootprod(re(w), &d.p), sc(&p));
            ceq(cx, "zeros", rootprod(re(w), &d.z), sc(&z));
            let g = (z.len()..p.len()).fold(k, |a, _| a * wo);
            cx.eq("gain", d.k, g);
        }
        if p.len() <= 3 {
            let s = if self.hp { re(wo / w) } else { re(w / wo) };
            let h = rootprod(re(w), &d.z) * re(d.k) / rootprod(re(w), &d.p);
            let g = rootprod(s, &z) * re(k) / rootprod(s, &p);
            ceq(cx, "transfer function", h, g);
        }
    }
}
/// the listed finding, pinned down: highpass images of finite zeros and their gain as they are today
struct AsIs {
    z: (usize, usize),
    p: (usize, usize),
    default: bool,
}
impl Harness for AsIs {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let z: Vec<C<S>> = roots(cx, "z", self.z.0, self.z.1, -3.0, 3.0);
        let p: Vec<C<S>> = roots(cx, "p", self.p.0, self.p.1, -3.0, 3.0);
        for r in z.iter().chain(&p) {
            cx.assume(r.im != S::zero() || r.re != S::zero());
        }
        let k: S = cx.var("k", -3.0, 3.0);
        let wo: S = if self.default { S::one() } else { cx.var("wo", 0.1, 8.0) };
        let d = lp2hp_zpk_dyn(ZpkFormatFilter::new(z.clone(), p.clone(), k), if self.default { None } else { Some(wo) });
        if !cx.check("counts", d.z.len() == p.len() && d.p.len() == p.len()) {
            return;
        }
        let w: S = cx.var("w", 0.2, 4.0);
        let sub = p.iter().fold(re(S::one()), |a, r| a * (re(wo) - re(w) * *r));
        let neg = p.iter().fold(re(S::one()), |a, r| a * (-*r));
        ceq(cx, "poles", rootprod(re(w), &d.p) * neg, sub);
        // z -> 2j*wo/z, gain factor Re(prod(z - 1) / prod(-p))
        let zz = z.iter().fold(re(S::one()), |a, r| a * (re(w) * *r - symcore::spec::cx(S::zero(), S::k(2.0) * wo)));
        let zn = z.iter().fold(re(S::one()), |a, r| a * *r);
        let origin = (z.len()..p.len()).fold(re(S::one()), |a, _| a * re(w));
        ceq(cx, "zeros", rootprod(re(w), &d.z) * zn, zz * origin);
        ceq(cx, "gain", re(d.k) * neg, re(k) * z.iter().fold(re(S::one()), |a, r| a * (*r - re(S::one()))));
    }
}
struct Improper {
    z: (usize, usize),
    p: (usize, usize),
    hp: bool,
}
impl Harness for Improper {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let z: Vec<C<S>> = roots(cx, "z", self.z.0, self.z.1, -3.0, 3.0);
        let p: Vec<C<S>> = roots(cx, "p", self.p.0, self.p.1, -3.0, 3.0);
        for r in z.iter().chain(&p) {
            cx.assume(r.im != S::zero() || r.re != S::zero());
        }
        let k: S = cx.var("k", -3.0, 3.0);
        let wo: S = cx.var("wo", 0.1, 8.0);
        let f = ZpkFormatFilter::new(z.clone(), p.clone(), k);
        cx.must_panic("improper rejected", || if self.hp { lp2hp_zpk_dyn(f, Some(wo)) } else { lp2lp_zpk_dyn(f, Some(wo)) });
    }
}
fn main() {
    symcore::harness::main("C08", |thorough| {
        let mut v = vec![];
        let top = if thorough { 8 } else { 6 };
        for pp in 0..=top / 2 {
            for pr in 0..=3usize {
                for zp in 0..=2usize {
                    for zr in 0..=3usize {
                        let (np, nz) = (2 * pp + pr, 2 * zp + zr);
                        if np > top || nz > top {
                            continue;
                        }
                        let nm = format!("poles={pp}pairs+{pr} zeros={zp}pairs+{zr}");
                        for hp in [false, true] {
                            let t = if hp { "highpass" } else { "lowpass" };
                            if nz > np {
                                v.push(Case::new(format!("improper {t} {nm}"), Improper { z: (zp, zr), p: (pp, pr), hp }).validate(1));
                                continue;
                            }
                            for default in [false, true] {
                                let fz = if nz > 0 { "finite-zeros" } else { "no-zeros" };
                                let c = Case::new(format!("{t} {fz} {nm} default_wo={default}"), Sub { z: (zp, zr), p: (pp, pr), hp, default }).secs(40.0);
                                v.push(if np > 4 { c.extra() } else { c });
                            }
                            if hp && nz > 0 {
                                for default in [false, true] {
                                    let c = Case::new(format!("asis highpass finite-zeros {nm} default_wo={default}"), AsIs { z: (zp, zr), p: (pp, pr), default }).secs(40.0);
                                    v.push(if np > 4 { c.extra() } else { c });
                                }
                            }
                        }
                    }
                }
            }
        }
        v
    });
}
