//! C10: the analog prototypes against their magnitude definitions.
use sci_rs::signal::filter::design::{cheb1ap_dyn, cheb2ap_dyn, iirfilter_dyn, DigitalFilter, FilterBandType, FilterOutputType, FilterType, ZpkFormatFilter};
use symcore::harness::*;
use symcore::spec::*;

/// Chebyshev polynomial value by its recurrence
pub fn cheb<S: Scalar>(n: usize, x: S) -> S {
    let (mut a, mut b) = (S::one(), x);
    if n == 0 {
        return a;
    }
    for _ in 1..n {
        let c = S::k(2.0) * x * b - a;
        a = b;
        b = c;
    }
    b
}
/// w^n Tn(1/w) as a polynomial value
pub fn cheb_rev<S: Scalar>(n: usize, w: S) -> S {
    let (mut a, mut b) = (S::one(), S::one());
    if n == 0 {
        return a;
    }
    for _ in 1..n {
        let c = S::k(2.0) * b - w * w * a;
        a = b;
        b = c;
    }
    b
}
#[derive(Clone, Copy)]
enum Kind {
    Butter,
    Cheb1,
    Cheb2,
}
struct Proto {
    n: usize,
    k: Kind,
    /// ripple: None = symbolic
    r: Option<f64>,
}
fn mag2<S: Scalar>(w: S, r: &[C<S>]) -> S {
    r.iter().fold(S::one(), |a, p| a * (p.re * p.re + (w - p.im) * (w - p.im)))
}
impl Harness for Proto {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let n = self.n;
        let w: S = cx.var("w", 0.05, 3.0);
        let r: S = match (self.r, self.k) {
            (Some(v), _) => S::k(v),
            (None, Kind::Cheb1) => cx.var("rp", 0.1, 12.0),
            (None, _) => cx.var("rs", 3.0, 80.0),
        };
        let f: ZpkFormatFilter<S> = match self.k {
            Kind::Butter => match iirfilter_dyn(n, vec![S::one()], None, None, Some(FilterBandType::Lowpass), Some(FilterType::Butterworth), Some(true), Some(FilterOutputType::Zpk), None) {
                DigitalFilter::Zpk(f) => f,
                _ => {
                    cx.check("zpk output", false);
                    return;
                }
            },
            Kind::Cheb1 => cheb1ap_dyn(n, r),
            Kind::Cheb2 => cheb2ap_dyn(n, r),
        };
        let nz = if let Kind::Cheb2 = self.k { 2 * (n / 2) } else { 0 };
        if !cx.check("counts", f.p.len() == n && f.z.len() == nz) {
            return;
        }
        for (i, p) in f.p.iter().enumerate() {
            cx.check(&format!("pole {i} in the left half plane"), p.re < S::zero());
        }
        if n == 0 {
            // no roots: the constant 1, and for Chebyshev I the bottom of the ripple band
            let want = match self.k {
                Kind::Cheb1 => num_traits::Float::powf(S::k(10.0), -r / S::k(20.0)),
                _ => S::one(),
            };
            cx.eq("gain of order 0", f.k, want);
            cx.check("positive gain at w = 0", f.k > S::zero());
            return;
        }
        // conjugate closed: both polynomials are real
        cx.eq("poles closed under conjugation", rootprod(re(w), &f.p).im, S::zero());
        cx.eq("zeros closed under conjugation", rootprod(re(w), &f.z).im, S::zero());
        let num = f.k * f.k * mag2(w, &f.z);
        let den = mag2(w, &f.p);
        let g = |r: S| num_traits::Float::powf(S::k(10.0), r / S::k(10.0)) - S::one();
        match self.k {
            Kind::Butter => {
                let mut wn = S::one();
                for _ in 0..2 * n {
                    wn = wn * w;
                }
                cx.eq("magnitude", num * (S::one() + wn), den);
            }
            Kind::Cheb1 => {
                let t = cheb(n, w);
                cx.eq("magnitude", num * (S::one() + g(r) * t * t), den);
            }
            Kind::Cheb2 => {
                let t = cheb_rev(n, w);
                let mut wn = S::one();
                for _ in 0..2 * n {
                    wn = wn * w;
                }
                cx.eq("magnitude", num * (t * t + g(r) * wn), den * t * t);
            }
        }
        // gain at w = 0 is real and positive: k prod(-z) / prod(-p)
        if self.r.is_none() && n > 3 {
            return; // decided with numeric ripple
        }
        let z0 = rootprod(re(S::zero()), &f.z);
        let p0 = rootprod(re(S::zero()), &f.p);
        let ok = f.k * z0.re * p0.re > S::zero();
        cx.check("positive gain at w = 0", ok);
    }
}
fn main() {
    symcore::harness::main("C10", |thorough| {
        let mut v = vec![];
        for n in 0..=if thorough { 14 } else { 10 } {
            v.push(Case::new(format!("butter n={n}"), Proto { n, k: Kind::Butter, r: None }));
            for (k, nm, rs) in [(Kind::Cheb1, "cheb1", [0.5, 1.0, 3.0]), (Kind::Cheb2, "cheb2", [10.0, 20.0, 60.0])] {
                for r in rs {
                    let c = Case::new(format!("{nm} n={n} r={r}"), Proto { n, k, r: Some(r) }).tol(1e-4);
                    v.push(if n > 6 { c.extra() } else { c });
                }
                if n > 6 && !thorough {
                    continue;
                }
                let c = Case::new(format!("{nm} n={n} symbolic ripple"), Proto { n, k, r: None }).secs(90.0).tol(1e-4);
                v.push(if n > 3 { c.extra() } else { c });
            }
        }
        v
    });
}
