//! C11: complete designs against the response of the prototype under the substitution.
use num_traits::Float;
use sci_rs::signal::filter::design::{bilinear_zpk_dyn, butter_dyn, cheb2ap_dyn, cheby1_dyn, cheby2_dyn, iirfilter_dyn, lp2bs_zpk_dyn, lp2hp_zpk_dyn, DigitalFilter, FilterBandType, FilterOutputType, FilterType, ZpkFormatFilter};
use symcore::harness::*;
use symcore::spec::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fam {
    Butter,
    Cheb1,
    Cheb2,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Band {
    Low,
    High,
    Pass,
    Stop,
}
impl Band {
    fn b(self) -> FilterBandType {
        match self {
            Band::Low => FilterBandType::Lowpass,
            Band::High => FilterBandType::Highpass,
            Band::Pass => FilterBandType::Bandpass,
            Band::Stop => FilterBandType::Bandstop,
        }
    }
    fn two(self) -> bool {
        matches!(self, Band::Pass | Band::Stop)
    }
}
/// real factors of a conjugate-closed polynomial: c0 s^2 + c1 s + c2 or c1 s + c2
struct Ref<S> {
    num: Vec<[S; 3]>,
    den: Vec<[S; 3]>,
    k: S,
}
/// the analog lowpass prototype, from its textbook formulas, as real factors
fn prototype<S: Scalar>(fam: Fam, n: usize, r: S) -> Ref<S> {
    let one = S::one();
    let zero = S::zero();
    let ten = S::k(10.0);
    let pi = std::f64::consts::PI;
    let ang: Vec<f64> = (0..n / 2).map(|i| pi * (2 * i + 1) as f64 / (2 * n) as f64).collect();
    let g = Float::sqrt(Float::powf(ten, r / ten) - one);
    let (mut num, mut den) = (vec![], vec![]);
    let k;
    match fam {
        Fam::Butter => {
            for t in &ang {
                den.push([one, S::k(2.0 * t.sin()), one]);
            }
            if n % 2 == 1 {
                den.push([zero, one, one]);
            }
            k = one;
        }
        Fam::Cheb1 => {
            let mu = Float::asinh(one / g) / S::k(n as f64);
            let (sh, ch) = (Float::sinh(mu), Float::cosh(mu));
            let mut kk = one;
            for t in &ang {
                let (a, b) = (sh * S::k(t.sin()), ch * S::k(t.cos()));
                den.push([one, S::k(2.0) * a, a * a + b * b]);
                kk = kk * (a * a + b * b);
            }
            if n % 2 == 1 {
                den.push([zero, one, sh]);
                kk = kk * sh;
            } else {
                kk = kk / Float::sqrt(Float::powf(ten, r / ten));
            }
            k = kk;
        }
        Fam::Cheb2 => {
            let mu = Float::asinh(g) / S::k(n as f64);
            let (sh, ch) = (Float::sinh(mu), Float::cosh(mu));
            let mut kk = one;
            for t in &ang {
                let (a, b) = (sh * S::k(t.sin()), ch * S::k(t.cos()));
                let m = a * a + b * b;
                // pole 1/(-a + jb), zero j/cos t
                den.push([one, S::k(2.0) * a / m, one / m]);
                num.push([one, zero, S::k(1.0 / (t.cos() * t.cos()))]);
                kk = kk * S::k(t.cos() * t.cos()) / m;
            }
            if n % 2 == 1 {
                den.push([zero, one, one / sh]);
                kk = kk / sh;
            }
            k = kk;
        }
    }
    Ref { num, den, k }
}
/// the factor with s = x/y, times y^degree; returns the value and the degree
fn factor<S: Scalar>(f: &[S; 3], x: S, y: S) -> (S, usize) {
    if f[0].is_zero() {
        (f[1] * x + f[2] * y, 1)
    } else {
        (f[0] * x * x + f[1] * x * y + f[2] * y * y, 2)
    }
}
struct Design {
    fam: Fam,
    band: Band,
    n: usize,
    analog: bool,
    /// numeric critical frequencies instead of symbolic ones
    wn: Option<(f64, f64)>,
    fs: bool,
    ripple: Option<f64>,
    generic: bool,
    /// listed finding: the stages of the design as they are, put together as specified
    asis: bool,
}
impl Harness for Design {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let n = self.n;
        let r: S = match (self.ripple, self.fam) {
            (Some(v), _) => S::k(v),
            (None, Fam::Cheb1) => cx.var("rp", 0.1, 12.0),
            _ => cx.var("rs", 10.0, 80.0),
        };
        // critical frequencies as a fraction of the sampling rate (digital) or in rad/s
        let (w1, w2): (S, S) = match self.wn {
            Some((a, b)) => (S::k(a), S::k(b)),
            None if self.analog => (cx.var("w1", 1e-3, 5e4), cx.var("w2", 2e-3, 9e4)),
            None => (cx.var("f1", 1e-4, 0.49), cx.var("f2", 2e-4, 0.499)),
        };
        if self.band.two() {
            cx.assume(w1 < w2);
        }
        let fs: Option<S> = if self.fs { Some(cx.var("fs", 1e-3, 1e6)) } else { None };
        let user = |w: S| if self.analog { w } else if let Some(fs) = fs { w * fs } else { w * S::k(2.0) };
        let wn = if self.band.two() { vec![user(w1), user(w2)] } else { vec![user(w1)] };
        let (out, b, an) = (Some(FilterOutputType::Zpk), Some(self.band.b()), Some(self.analog));
        let d = if self.generic {
            let (rp, rs, t) = match self.fam {
                Fam::Butter => (None, None, FilterType::Butterworth),
                Fam::Cheb1 => (Some(r), None, FilterType::ChebyshevI),
                Fam::Cheb2 => (None, Some(r), FilterType::ChebyshevII),
            };
            iirfilter_dyn(n, wn, rp, rs, b, Some(t), an, out, fs)
        } else {
            match self.fam {
                Fam::Butter => butter_dyn(n, wn, b, an, out, fs),
                Fam::Cheb1 => cheby1_dyn(n, r, wn, b, an, out, fs),
                Fam::Cheb2 => cheby2_dyn(n, r, wn, b, an, out, fs),
            }
        };
        let d: ZpkFormatFilter<S> = match d {
            DigitalFilter::Zpk(f) => f,
            _ => {
                cx.check("zpk output", false);
                return;
            }
        };
        let order = if self.band.two() { 2 * n } else { n };
        if !cx.check("number of poles", d.p.len() == order) {
            return;
        }
        let z: S = cx.var("z", 1.1, 4.0);
        // s = u/v, scaled so that the warped critical frequencies are T1, T2
        let (u, v, t1, t2) = if self.analog {
            (z, S::one(), w1, w2)
        } else {
            let t = |f: S| Float::tan(S::k(std::f64::consts::PI) * f);
            (z - S::one(), z + S::one(), t(w1), t(w2))
        };
        if self.asis {
            let f4 = if self.analog { S::one() } else { S::k(4.0) };
            let (a1, a2) = (f4 * t1, f4 * t2);
            let e = cheb2ap_dyn(n, r);
            let e = match self.band {
                Band::High => lp2hp_zpk_dyn(e, Some(a1)),
                _ => lp2bs_zpk_dyn(e, Some(Float::sqrt(a1 * a2)), Some(a2 - a1)),
            };
            let e = if self.analog { e } else { bilinear_zpk_dyn(e, S::k(2.0)) };
            ceq(cx, "zeros", rootprod(re(z), &d.z), rootprod(re(z), &e.z));
            ceq(cx, "poles", rootprod(re(z), &d.p), rootprod(re(z), &e.p));
            cx.eq("gain", d.k, e.k);
            return;
        }
        // prototype variable x/y
        let (x, y) = match self.band {
            Band::Low => (u, t1 * v),
            Band::High => (t1 * v, u),
            Band::Pass => (u * u + t1 * t2 * v * v, u * v * (t2 - t1)),
            Band::Stop => (u * v * (t2 - t1), u * u + t1 * t2 * v * v),
        };
        let p = prototype(self.fam, n, r);
        let (mut num, mut den, mut deg) = (p.k, S::one(), 0);
        for f in &p.den {
            let (a, b) = factor(f, x, y);
            den = den * a;
            deg += b;
        }
        for f in &p.num {
            let (a, b) = factor(f, x, y);
            num = num * a;
            deg -= b;
        }
        for _ in 0..deg {
            num = num * y;
        }
        // every pole is the image of a left-half-plane pole
        let zp = rootprod(re(z), &d.z);
        let pp = rootprod(re(z), &d.p);
        // (measured against the products they belong to)
        cx.rel("zeros real", zp.re, zp.re, 0.0);
        cx.rel("poles real", pp.re, pp.re, 0.0);
        cx.eq("zeros closed under conjugation", zp.im, S::zero());
        cx.eq("poles closed under conjugation", pp.im, S::zero());
        // well-conditioned designs are held to a small relative error on replay
        if n <= 2 && !self.band.two() {
            cx.rel("response", d.k * zp.re * den, num * pp.re, 1e-9);
        } else if n <= 4 {
            cx.rel("response", d.k * zp.re * den, num * pp.re, if self.band.two() { 1e-6 } else { 1e-8 });
        } else {
            cx.eq("response", d.k * zp.re * den, num * pp.re);
        }
    }
}
fn main() {
    symcore::harness::main("C11", |thorough| {
        let mut v = vec![];
        for fam in [Fam::Butter, Fam::Cheb1, Fam::Cheb2] {
            let rs: [f64; 2] = if fam == Fam::Cheb2 { [20.0, 47.5] } else { [0.5, 3.0] };
            for band in [Band::Low, Band::High, Band::Pass, Band::Stop] {
                for analog in [true, false] {
                    for n in 1..=if thorough { 10usize } else { 8 } {
                        let known = fam == Fam::Cheb2 && n > 1 && matches!(band, Band::High | Band::Stop);
                        let pre = if known { "finite-zeros " } else { "" };
                        for generic in [false, true] {
                            let fs = !analog && (generic ^ (n % 2 == 0));
                            let ripple = Some(rs[(generic as usize + n) % 2]);
                            let wns: &[(f64, f64)] = if analog { &[(0.7, 2.3), (1.5, 1.75)] } else { &[(0.07, 0.31), (0.22, 0.26), (0.01, 0.47)] };
                            for wn in wns {
                                let nm = format!("{pre}numeric {fam:?} {band:?} n={n} analog={analog} generic={generic} fs={fs} wn={wn:?}");
                                for asis in [false, true] {
                                    if asis && !known {
                                        continue;
                                    }
                                    let nm = if asis { format!("asis {nm}") } else { nm.clone() };
                                    v.push(Case::new(nm, Design { fam, band, n, analog, wn: Some(*wn), fs, ripple, generic, asis }).validate(1).tol(1e-5));
                                }
                            }
                            let most = match (band.two(), analog) {
                                (true, true) => 2,
                                (true, false) if band == Band::Pass && fam != Fam::Cheb2 => 2,
                                (true, false) => 1,
                                (false, true) => 6,
                                (false, false) => 4,
                            };
                            if (n <= most || thorough) && !known {
                                let nm = format!("symbolic {fam:?} {band:?} n={n} analog={analog} generic={generic} fs={fs}");
                                let c = Case::new(nm, Design { fam, band, n, analog, wn: None, fs, ripple, generic, asis: false }).validate(2).secs(if thorough { 200.0 } else { 60.0 }).tol(1e-5);
                                v.push(if n > 1 { c.extra() } else { c });
                            }
                        }
                    }
                }
            }
        }
        for fam in [Fam::Butter, Fam::Cheb1, Fam::Cheb2] {
            let r = if fam == Fam::Cheb2 { 60.0 } else { 0.1 };
            for band in [Band::Low, Band::High, Band::Pass, Band::Stop] {
                if fam == Fam::Cheb2 && matches!(band, Band::High | Band::Stop) {
                    continue;
                }
                for analog in [true, false] {
                    for n in [9, 10, 12, 16, 20] {
                        if band.two() && (n > 10 || analog) || analog && n > 16 {
                            continue;
                        }
                        let wn = Some(if analog { (1.5, 6.0) } else { (0.11, 0.34) });
                        let fs = !analog && n % 2 == 0;
                        v.push(Case::new(format!("high order {fam:?} {band:?} n={n} analog={analog} fs={fs}"), Design { fam, band, n, analog, wn, fs, ripple: Some(r), generic: n % 4 == 0, asis: false }).validate(1).tol(1e-4).extra());
                    }
                    for n in 1..=if analog { 2 } else { 3 } {
                        let wns: &[(f64, f64)] = if analog { &[(628.0, 6283.0), (1e-3, 2e-2)] } else { &[(1e-4, 0.499), (4e-4, 8e-4), (1e-5, 1e-3), (0.49, 0.4995)] };
                        for (i, wn) in wns.iter().enumerate() {
                            for fs in [false, true] {
                                if analog && fs {
                                    continue;
                                }
                                v.push(Case::new(format!("wide {fam:?} {band:?} n={n} analog={analog} fs={fs} wn={wn:?}"), Design { fam, band, n, analog, wn: Some(*wn), fs, ripple: Some(r), generic: i % 2 == 1, asis: false }).validate(1).tol(1e-4).extra());
                            }
                        }
                    }
                }
            }
        }
        v
    });
}
