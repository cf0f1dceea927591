//! C04: lfilter_zi / sosfilt_zi give the steady state of the step response.
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::{lfilter_zi_dyn, sosfilt_dyn, sosfilt_zi_dyn};
use symcore::harness::*;
use symcore::spec::*;

struct Lf {
    n: usize,
    norm: bool, // a[0] = 1
    lead0: usize, // leading zero denominator coefficients are stripped by the code
}
impl Harness for Lf {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let b: Vec<S> = cx.vars("b", self.n, -3.0, 3.0);
        let mut a: Vec<S> = cx.vars("a", self.n, -3.0, 3.0);
        if self.norm {
            a[0] = S::one();
        }
        cx.assume(a[0] != S::zero());
        let sa = a.iter().take(self.n - self.lead0).fold(S::zero(), |s, v| s + *v);
        let sb = b.iter().fold(S::zero(), |s, v| s + *v);
        if S::SYM {
            cx.assume(sa != S::zero());
        } else {
            // keep native replays away from the singular set
            let lim = S::k(0.05);
            cx.assume((sa > lim || sa < -lim) && (a[0] > lim || a[0] < -lim));
        }
        let (mut a, mut b) = (a, b);
        // with leading zeros, the last coefficients make room
        let mut own = a.clone();
        if self.lead0 > 0 {
            for v in own.iter_mut().skip(self.n - self.lead0) {
                *v = S::zero();
            }
            let mut t = vec![S::zero(); self.lead0];
            t.extend_from_slice(&own[..self.n - self.lead0]);
            a = t;
        }
        if cx.pow != 0 {
            // a common factor changes nothing
            let u: S = cx.up();
            a.iter_mut().chain(b.iter_mut()).for_each(|v| *v = *v * u);
        }
        let (sa, sb) = if cx.pow == 0 { (sa, sb) } else { (sa * cx.up::<S>(), sb * cx.up::<S>()) };
        let zi = lfilter_zi_dyn(&b, &a);
        cx.check("one state per delay", zi.len() == self.n - 1);
        let c: S = cx.var("c", -5.0, 5.0);
        let mut z: Vec<S> = zi.iter().map(|v| *v * c).collect();
        for step in 0..2 {
            let before = z.clone();
            let y = df2t(c, &b, if self.lead0 > 0 { &own } else { &a }, &mut z);
            cx.eq(&format!("step {step}: output is the DC gain times the input"), y, c * sb / sa);
            for i in 0..z.len() {
                cx.eq(&format!("step {step}: state {i} unchanged"), z[i], before[i]);
            }
            z = before;
        }
    }
}
struct LfBad {
    n: usize,
}
impl Harness for LfBad {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let b: Vec<S> = cx.vars("b", self.n, -3.0, 3.0);
        let a: Vec<S> = cx.vars("a", self.n + 1, -3.0, 3.0);
        cx.must_panic("length mismatch", || lfilter_zi_dyn(&b, &a));
        let z = vec![S::zero(); self.n];
        cx.must_panic("all-zero denominator", || lfilter_zi_dyn(&b, &z));
    }
}
struct SosZi {
    n: usize,
    a0: bool,
}
impl Harness for SosZi {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let mut sos: Vec<Sos<S>> = vec![];
        let mut gain = S::one();
        for i in 0..self.n {
            let b: Vec<S> = cx.vars(&format!("b{i}_"), 3, -3.0, 3.0);
            let mut a: Vec<S> = cx.vars(&format!("a{i}_"), 3, -3.0, 3.0);
            if !self.a0 {
                a[0] = S::one();
            }
            let sa = a[0] + a[1] + a[2];
            if S::SYM {
                cx.assume(sa != S::zero());
            } else {
                cx.assume(sa > S::k(0.05) || sa < S::k(-0.05));
            }
            gain = gain * (b[0] + b[1] + b[2]) / sa;
            // any previous state must be overwritten
            let z: Vec<S> = cx.vars(&format!("z{i}_"), 2, -3.0, 3.0);
            let mut s = Sos::new([b[0], b[1], b[2]], [a[0], a[1], a[2]]);
            s.zi0 = z[0];
            s.zi1 = z[1];
            sos.push(s);
        }
        let orig = sos.clone();
        sosfilt_zi_dyn::<_, _, Sos<S>>(sos.iter_mut());
        let z0 = states(&sos);
        let c: S = cx.var("c", -5.0, 5.0);
        for s in sos.iter_mut() {
            s.zi0 = s.zi0 * c;
            s.zi1 = s.zi1 * c;
        }
        let y = sosfilt_dyn(vec![c; 2], &mut sos);
        for (k, v) in y.iter().enumerate() {
            cx.eq(&format!("output {k}"), *v, c * gain);
        }
        for i in 0..self.n {
            cx.eq(&format!("zi0[{i}]"), sos[i].zi0, z0[i][0] * c);
            cx.eq(&format!("zi1[{i}]"), sos[i].zi1, z0[i][1] * c);
            for j in 0..3 {
                cx.eq("b", sos[i].b[j], orig[i].b[j]);
                cx.eq("a", sos[i].a[j], orig[i].a[j]);
            }
        }
    }
}
fn main() {
    symcore::harness::main("C04", |thorough| {
        let mut v = vec![];
        for n in 2..=if thorough { 10 } else { 7 } {
            for norm in [true, false] {
                let c = Case::new(format!("lfilter_zi n={n} a0is1={norm}"), Lf { n, norm, lead0: 0 });
                v.push(if n > 5 { c.extra() } else { c });
            }
            for lead0 in 1..n.min(4) {
                for norm in [true, false] {
                    let c = Case::new(format!("lfilter_zi n={n} a0is1={norm} leading zeros={lead0}"), Lf { n, norm, lead0 });
                    v.push(if n > 5 { c.extra() } else { c });
                }
            }
            if n <= 4 {
                for p in [-80, 80] {
                    v.push(Case::new(format!("lfilter_zi n={n} common factor"), Lf { n, norm: false, lead0: 0 }).scaled(p));
                }
            }
            v.push(Case::new(format!("lfilter_zi rejects n={n}"), LfBad { n }));
        }
        for n in 0..=if thorough { 5 } else { 3 } {
            let c = Case::new(format!("sosfilt_zi sections={n}"), SosZi { n, a0: false });
            v.push(if n > 2 { c.extra() } else { c });
        }
        v
    });
}
