//! C09: lp2bp_zpk_dyn and lp2bs_zpk_dyn against the s-plane substitutions.
use sci_rs::signal::filter::design::{lp2bp_zpk_dyn, lp2bs_zpk_dyn, ZpkFormatFilter};
use symcore::harness::*;
use symcore::spec::*;

struct Sub {
    z: (usize, usize),
    p: (usize, usize),
    bs: bool,
    /// 0: all symbolic, 1: numeric roots, 2: numeric wo and bw
    num: u8,
    def: (bool, bool),
    asis: bool,
}
fn nroots<S: Scalar>(pairs: usize, reals: usize, o: f64) -> Vec<C<S>> {
    let mut v = vec![];
    for i in 0..pairs {
        let (a, b) = (-0.25 - 0.125 * i as f64 - o, 0.25 + 0.375 * i as f64);
        v.push(cx(S::k(a), S::k(b)));
        v.push(cx(S::k(a), S::k(-b)));
    }
    for i in 0..reals {
        v.push(re(S::k(-0.75 - o - 0.5 * i as f64)));
    }
    v
}
impl Harness for Sub {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let (z, p): (Vec<C<S>>, Vec<C<S>>) = if self.num == 1 {
            (nroots(self.z.0, self.z.1, 0.0625), nroots(self.p.0, self.p.1, 0.5))
        } else {
            (roots(cx, "z", self.z.0, self.z.1, -3.0, 3.0), roots(cx, "p", self.p.0, self.p.1, -3.0, 3.0))
        };
        for r in z.iter().chain(&p) {
            cx.assume(r.im != S::zero() || r.re != S::zero());
        }
        let k: S = cx.var("k", -3.0, 3.0);
        let wo: S = if self.def.0 { S::one() } else if self.num == 2 { S::k(1.5) } else { cx.var("wo", 0.1, 4.0) };
        let bw: S = if self.def.1 { S::one() } else if self.num == 2 { S::k(0.75) } else { cx.var("bw", 0.1, 4.0) };
        let (awo, abw) = (if self.def.0 { None } else { Some(wo) }, if self.def.1 { None } else { Some(bw) });
        let f = ZpkFormatFilter::new(z.clone(), p.clone(), k);
        let d = if self.bs { lp2bs_zpk_dyn(f, awo, abw) } else { lp2bp_zpk_dyn(f, awo, abw) };
        let deg = p.len() - z.len();
        let nz = if self.bs { 2 * p.len() } else { z.len() + p.len() };
        if !cx.check("counts", d.z.len() == nz && d.p.len() == 2 * p.len()) {
            return;
        }
        let w: S = if self.num == 0 { S::k(1.25) } else { cx.var("w", 0.2, 4.0) };
        let ws: Vec<S> = if self.num == 0 { vec![w, S::k(0.5), S::k(3.0)] } else { vec![w] };
        for w in ws {
            let q = w * w + wo * wo;
            let one = re(S::one());
            if self.bs {
                // each root r: (w - r1)(w - r2) * r = r (w^2+wo^2) - bw w
                let img = |r: &[C<S>]| r.iter().fold(one, |a, r| a * (*r * re(q) - re(bw * w)));
                let pr = |r: &[C<S>]| r.iter().fold(one, |a, r| a * *r);
                ceq(cx, "poles", rootprod(re(w), &d.p) * pr(&p), img(&p));
                if self.asis {
                    // listed finding: z -> (re z)-part kept, imaginary part from sqrt; gain uses the real parts only
                    let zn = z.iter().fold(S::one(), |a, r| a * r.re);
                    let pn = p.iter().fold(one, |a, r| a * -*r);
                    cx.eq("gain", d.k * pn.re, k * zn);
                    // the code's images come out as exact conjugates
                    let m = d.z.len() / 2 - deg;
                    for i in 0..m {
                        cx.eq("zero pair re", d.z[i].re, d.z[m + i].re);
                        cx.eq("zero pair im", d.z[i].im, -d.z[m + i].im);
                        // re = Re(j*bw/z) and im^2 = |wo^2 - re^2| when that is the imaginary branch
                        let n2 = z[i].re * z[i].re + z[i].im * z[i].im;
                        cx.eq("zero re", d.z[i].re * n2, bw * z[i].im);
                    }
                } else {
                    let centre = (0..deg).fold(one, |a, _| a * re(q));
                    ceq(cx, "zeros", rootprod(re(w), &d.z) * pr(&z), img(&z) * centre);
                    let neg = |r: &[C<S>]| r.iter().fold(one, |a, r| a * -*r);
                    ceq(cx, "gain", re(d.k) * neg(&p), re(k) * neg(&z));
                }
            } else {
                let img = |r: &[C<S>]| r.iter().fold(one, |a, r| a * (re(q) - re(bw * w) * *r));
                ceq(cx, "poles", rootprod(re(w), &d.p), img(&p));
                let origin = (0..deg).fold(one, |a, _| a * re(w));
                ceq(cx, "zeros", rootprod(re(w), &d.z), img(&z) * origin);
                let g = (0..deg).fold(k, |a, _| a * bw);
                cx.eq("gain", d.k, g);
            }
        }
    }
}
struct Improper {
    z: (usize, usize),
    p: (usize, usize),
    bs: bool,
}
impl Harness for Improper {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let z: Vec<C<S>> = roots(cx, "z", self.z.0, self.z.1, -3.0, 3.0);
        let p: Vec<C<S>> = roots(cx, "p", self.p.0, self.p.1, -3.0, 3.0);
        for r in z.iter().chain(&p) {
            cx.assume(r.im != S::zero() || r.re != S::zero());
        }
        let k: S = cx.var("k", -3.0, 3.0);
        let f = ZpkFormatFilter::new(z.clone(), p.clone(), k);
        cx.must_panic("improper rejected", || if self.bs { lp2bs_zpk_dyn(f, None, None) } else { lp2bp_zpk_dyn(f, None, None) });
    }
}
fn main() {
    symcore::harness::main("C09", |thorough| {
        let mut v = vec![];
        for pp in 0..=3usize {
            for pr in 0..=2usize {
                for zp in 0..=2usize {
                    for zr in 0..=2usize {
                        let (np, nz) = (2 * pp + pr, 2 * zp + zr);
                        if np > 6 || nz > 6 {
                            continue;
                        }
                        let nm = format!("poles={pp}pairs+{pr} zeros={zp}pairs+{zr}");
                        for bs in [false, true] {
                            let t = if bs { "bandstop" } else { "bandpass" };
                            if nz > np {
                                v.push(Case::new(format!("improper {t} {nm}"), Improper { z: (zp, zr), p: (pp, pr), bs }).validate(1));
                                continue;
                            }
                            let fz = if nz > 0 { "finite-zeros" } else { "no-zeros" };
                            for num in [0u8, 1, 2] {
                                let lim = [2, 6, 3][num as usize];
                                if np > lim + thorough as usize {
                                    continue;
                                }
                                for def in [(false, false), (true, false), (false, true), (true, true)] {
                                    if (num == 2) && def != (false, false) {
                                        continue;
                                    }
                                    let name = format!("{t} {fz} {nm} mode={num} default={def:?}");
                                    let asis = bs && nz > 0;
                                    if asis && (num == 0 || def.0 != def.1) {
                                        continue;
                                    }
                                    let c = Case::new(name.clone(), Sub { z: (zp, zr), p: (pp, pr), bs, num, def, asis: false }).secs(40.0);
                                    v.push(if np > [1, 4, 2][num as usize] { c.extra() } else { c });
                                    if asis {
                                        let c = Case::new(format!("asis {name}"), Sub { z: (zp, zr), p: (pp, pr), bs, num, def, asis: true }).secs(40.0);
                                        v.push(if np > [1, 4, 2][num as usize] { c.extra() } else { c });
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        v
    });
}
