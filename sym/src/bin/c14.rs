//! C14: which specifications the design accepts, and agreement of its output formats.
use sci_rs::signal::filter::design::{butter_dyn, cheby1_dyn, cheby2_dyn, iirfilter_dyn, DigitalFilter, FilterBandType, FilterOutputType, FilterType};
use symcore::harness::*;
use symcore::spec::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fam {
    Butter,
    Cheb1,
    Cheb2,
    None,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Band {
    Low,
    High,
    Pass,
    Stop,
    None,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Entry {
    Generic,
    Named,
}
fn band(b: Band) -> Option<FilterBandType> {
    match b {
        Band::Low => Some(FilterBandType::Lowpass),
        Band::High => Some(FilterBandType::Highpass),
        Band::Pass => Some(FilterBandType::Bandpass),
        Band::Stop => Some(FilterBandType::Bandstop),
        Band::None => None,
    }
}
fn fam(f: Fam) -> Option<FilterType> {
    match f {
        Fam::Butter => Some(FilterType::Butterworth),
        Fam::Cheb1 => Some(FilterType::ChebyshevI),
        Fam::Cheb2 => Some(FilterType::ChebyshevII),
        Fam::None => None,
    }
}
#[derive(Clone, Copy)]
struct Spec {
    fam: Fam,
    band: Band,
    entry: Entry,
    n: usize,
    analog: Option<bool>,
}
impl Spec {
    fn design<S: Scalar>(&self, wn: Vec<S>, rp: Option<S>, rs: Option<S>, out: Option<FilterOutputType>, fs: Option<S>) -> DigitalFilter<S> {
        let b = band(self.band);
        match (self.entry, self.fam) {
            (Entry::Named, Fam::Cheb1) => cheby1_dyn(self.n, rp.unwrap(), wn, b, self.analog, out, fs),
            (Entry::Named, Fam::Cheb2) => cheby2_dyn(self.n, rs.unwrap(), wn, b, self.analog, out, fs),
            (Entry::Named, _) => butter_dyn(self.n, wn, b, self.analog, out, fs),
            (Entry::Generic, f) => iirfilter_dyn(self.n, wn, rp, rs, b, fam(f), self.analog, out, fs),
        }
    }
    fn needs(&self) -> usize {
        match (self.band, self.entry) {
            (Band::Pass | Band::Stop, _) | (Band::None, Entry::Generic) => 2,
            _ => 1,
        }
    }
}
struct Accept {
    s: Spec,
    nw: usize,
    rp: bool,
    rs: bool,
    fs: bool,
    out: u8,
    /// 0: anything, 1: valid ranges only (then accepted)
    range: u8,
}
fn out(o: u8) -> Option<FilterOutputType> {
    match o {
        0 => None,
        1 => Some(FilterOutputType::Ba),
        2 => Some(FilterOutputType::Zpk),
        _ => Some(FilterOutputType::Sos),
    }
}
impl Harness for Accept {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let analog = self.s.analog.unwrap_or(false);
        let valid_only = self.range == 1;
        let (lo, hi) = if !valid_only { (-1.0, 3.0) } else if analog { (0.1, 6.0) } else { (0.02, 0.98) };
        let w: Vec<S> = cx.vars("w", self.nw, lo, hi);
        if valid_only && self.nw == 2 {
            cx.assume(w[0] < w[1]);
        }
        let rp: Option<S> = if self.rp { Some(cx.var("rp", if valid_only { 0.1 } else { -2.0 }, 9.0)) } else { None };
        let rs: Option<S> = if self.rs { Some(cx.var("rs", if valid_only { 6.0 } else { -2.0 }, 60.0)) } else { None };
        let fs: Option<S> = if self.fs { Some(cx.var("fs", if valid_only { 1.0 } else { -1.0 }, 3.0)) } else { None };
        if let Some(f) = fs {
            cx.assume(f != S::zero());
        }
        for r in [rp, rs].into_iter().flatten() {
            cx.assume(r != S::zero());
        }
        // valid-only cases are drawn as a fraction of the Nyquist frequency
        let half = match fs {
            Some(f) => f * S::k(0.5),
            None => S::one(),
        };
        let wn: Vec<S> = w.iter().map(|x| if valid_only && !analog { *x * half } else { *x }).collect();
        let s = self.s;
        let mut valid = self.nw == s.needs() && !(analog && self.fs);
        if !self.rp && s.fam == Fam::Cheb1 || !self.rs && s.fam == Fam::Cheb2 {
            valid = false;
        }
        if !valid_only {
            // frequencies relative to Nyquist
            let rel: Vec<S> = wn.iter().map(|x| if analog { *x } else { *x / half }).collect();
            for x in &rel {
                valid = valid && *x > S::zero();
                valid = valid && (analog || *x < S::one());
            }
            if rel.len() == 2 {
                valid = valid && rel[0] < rel[1];
            }
            for r in [rp, rs].into_iter().flatten() {
                valid = valid && r > S::zero();
            }
        }
        let o = self.out;
        if valid && !valid_only {
            return; // decided by the valid-range cases
        }
        let got = cx.catch(|| s.design(wn, rp, rs, out(o), fs));
        match got {
            None => {
                cx.check("valid specification accepted", !valid);
            }
            Some(f) => {
                cx.check("invalid specification rejected", valid);
                let ok = match f {
                    DigitalFilter::Ba(_) => o < 2,
                    DigitalFilter::Zpk(_) => o == 2,
                    DigitalFilter::Sos(_) => o == 3,
                };
                cx.check("requested output format", ok);
            }
        }
    }
}
/// zpk, b/a and sections of one specification are the same function of z
struct Agree {
    s: Spec,
    wn: Vec<f64>,
    /// symbolic critical frequencies in place of `wn`
    sym: bool,
    r: f64,
    fs: Option<f64>,
}
fn horner<S: Scalar>(p: &[S], x: S) -> S {
    p.iter().fold(S::zero(), |a, c| a * x + *c)
}
impl Harness for Agree {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let analog = self.s.analog.unwrap_or(false);
        let wn: Vec<S> = if self.sym { cx.vars("w", self.wn.len(), 0.05, if analog { 4.0 } else { 0.95 }) } else { self.wn.iter().map(|x| S::k(*x)).collect() };
        if self.sym && wn.len() == 2 {
            cx.assume(wn[0] < wn[1]);
        }
        let fs = self.fs.map(|x| S::k(x));
        let (rp, rs) = match self.s.fam {
            Fam::Cheb1 => (Some(S::k(self.r)), None),
            Fam::Cheb2 => (None, Some(S::k(self.r))),
            _ => (None, None),
        };
        let z: S = cx.var("z", 1.1, 3.0);
        let d = |o| self.s.design(wn.clone(), rp, rs, out(o), fs);
        let DigitalFilter::Zpk(f) = d(2) else {
            cx.check("zpk output", false);
            return;
        };
        let n = rootprod(re(z), &f.z);
        let q = rootprod(re(z), &f.p);
        for o in [0, 1] {
            let DigitalFilter::Ba(b) = d(o) else {
                cx.check("ba output", false);
                return;
            };
            cx.check("same lengths", b.b.len() == b.a.len());
            cx.eq("b/a", horner(&b.b, z) * q.re, horner(&b.a, z) * n.re * f.k);
        }
        let DigitalFilter::Sos(s) = d(3) else {
            cx.check("sos output", false);
            return;
        };
        cx.check("sections", s.sos.len() == f.p.len().div_ceil(2));
        let (mut nb, mut na) = (S::one(), S::one());
        for x in &s.sos {
            nb = nb * horner(&x.b, z);
            na = na * horner(&x.a, z);
        }
        cx.eq("sections", nb * q.re, na * n.re * f.k);
    }
}
fn main() {
    symcore::harness::main("C14", |thorough| {
        let mut v = vec![];
        for f in [Fam::Butter, Fam::Cheb1, Fam::Cheb2, Fam::None] {
            for entry in [Entry::Generic, Entry::Named] {
                for b in [Band::Low, Band::High, Band::Pass, Band::Stop, Band::None] {
                    for (ai, analog) in [None, Some(false), Some(true)].into_iter().enumerate() {
                        if entry == Entry::Named && f == Fam::None {
                            continue;
                        }
                        let s = Spec { fam: f, band: b, entry, n: 1, analog };
                        for nw in 0..=3 {
                            for rip in 0..4u8 {
                                let (rp, rs) = (rip & 1 > 0, rip & 2 > 0);
                                // the named functions take exactly their own ripple
                                if entry == Entry::Named && (rp != (f == Fam::Cheb1) || rs != (f == Fam::Cheb2)) {
                                    continue;
                                }
                                if nw != s.needs() && rip > 0 && !thorough && entry == Entry::Generic {
                                    continue;
                                }
                                for fs in [false, true] {
                                    for o in 0..4u8 {
                                        if o != (ai as u8 + nw as u8 + rip) % 4 && !thorough {
                                            continue;
                                        }
                                        let nm = format!("{f:?} {entry:?} {b:?} analog={analog:?} Wn={nw} rp={rp} rs={rs} fs={fs} out={o}");
                                        for n in [1usize, 2, 5] {
                                            let s = Spec { n, ..s };
                                            if n == 1 || thorough || (nw + n + ai) % 3 == 0 {
                                                v.push(Case::new(format!("reject {nm} n={n}"), Accept { s, nw, rp, rs, fs, out: o, range: 0 }).validate(2));
                                            }
                                        }
                                        let can = nw == s.needs() && !(analog == Some(true) && fs) && (rp || f != Fam::Cheb1) && (rs || f != Fam::Cheb2);
                                        if can && !(rp && rs) {
                                            // the sections of a symbolic band design take very many branches; numeric ones below
                                            let out = if s.needs() == 2 && !thorough { 2 } else { o };
                                            let c = Case::new(format!("accept {nm}"), Accept { s, nw, rp, rs, fs, out, range: 1 }).validate(3).secs(30.0);
                                            v.push(if s.needs() == 2 { c.extra() } else { c });
                                        }
                                    }
                                }
                            }
                        }
                        if analog.is_none() {
                            continue;
                        }
                        let rs: [f64; 2] = if f == Fam::Cheb2 { [20.0, 40.0] } else { [0.5, 3.0] };
                        for n in 1..=if thorough { 9usize } else { 6 } {
                            let s = Spec { n, ..s };
                            let an = analog == Some(true);
                            let sets: &[(f64, f64)] = if an { &[(0.7, 2.3), (1.5, 1.75)] } else { &[(0.14, 0.62), (0.44, 0.52)] };
                            for (i, w) in sets.iter().enumerate() {
                                let wn = if s.needs() == 2 { vec![w.0, w.1] } else { vec![w.0] };
                                let fs = if !an && i == 1 { Some(2.0) } else { None };
                                let nm = format!("agree {f:?} {entry:?} {b:?} analog={an} n={n} wn={wn:?}");
                                v.push(Case::new(nm, Agree { s, wn, sym: false, r: rs[i], fs }).validate(1).tol(1e-5));
                            }
                        }
                    }
                }
            }
        }
        v
    });
}
