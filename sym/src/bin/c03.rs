//! C03: the 32-bit fast filtering routines compute the biquad cascade.
//! They are monomorphic in f32, so their LLVM code is executed symbolically.
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::{sosfilt_fast32_st, sosfilt_ifast32_st};
use symcore::harness::*;
use symcore::ll::{self, Exec, Ty, V};
use symcore::spec::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Samples {
    F32,
    I8,
    U8,
    I16,
    Isize,
}
use Samples::*;
impl Samples {
    fn entry(self) -> &'static str {
        match self { F32 => "t_fast32", I8 => "t_ifast_i8", U8 => "t_ifast_u8", I16 => "t_ifast_i16", Isize => "t_ifast_isize" }
    }
    fn bits(self) -> usize {
        match self { F32 => 32, I8 | U8 => 8, I16 => 16, Isize => 64 }
    }
    fn range(self) -> (f64, f64) {
        match self { F32 => (-10., 10.), I8 => (-128., 127.), U8 => (0., 255.), I16 => (-32768., 32767.), Isize => (-8388608., 8388607.) }
    }
}
/// outputs and final (coefficients, state) rows, None where the run left a slot unwritten
type Res<S> = (Vec<Option<S>>, Vec<Option<S>>);
fn call<S: Scalar>(t: Samples, x: &[S], rows: &[S], m: usize) -> Res<S> {
    let k = rows.len() / 8;
    if S::SYM {
        let mut ex = Exec::new(ll::module());
        let sym = |v: &[S]| v.iter().map(|v| v.sym().unwrap()).collect::<Vec<_>>();
        let y = if t == F32 {
            ex.mem.put_f32s(&sym(x))
        } else {
            let w = t.bits() / 8;
            let p = ex.mem.alloc(w * x.len());
            let (lo, hi) = t.range();
            for (i, v) in x.iter().enumerate() {
                ex.mem.store(p + (i * w) as u64, &Ty::I(t.bits() as u32), &V::S(t.bits() as u32, v.sym().unwrap(), (lo as i128).into(), (hi as i128).into()));
            }
            p
        };
        let s = ex.mem.put_f32s(&sym(rows));
        let z = ex.mem.alloc(4 * m);
        let i = |v: u64| V::I(64, v as u128);
        ex.call(t.entry(), vec![i(y), i(x.len() as u64), i(s), i(k as u64), i(z), i(m as u64)]);
        let back = |v: Vec<Option<symcore::num::Sym>>| v.into_iter().map(|v| v.map(S::of_sym)).collect();
        (back(ex.mem.get_f32s(z, m)), back(ex.mem.get_f32s(s, 8 * k)))
    } else {
        let f = |v: &S| v.f64v() as f32;
        let mut sos: Vec<Sos<f32>> = rows
            .chunks(8)
            .map(|c| {
                let c: Vec<f32> = c.iter().map(f).collect();
                Sos { b: [c[0], c[1], c[2]], a: [c[3], c[4], c[5]], zi0: c[6], zi1: c[7] }
            })
            .collect();
        let mut z = vec![f32::NAN; m];
        macro_rules! run {
            ($t:ty) => {
                sosfilt_ifast32_st(&x.iter().map(|v| v.f64v().round() as $t).collect::<Vec<_>>(), &mut sos, &mut z)
            };
        }
        match t {
            F32 => sosfilt_fast32_st(&x.iter().map(f).collect::<Vec<_>>(), &mut sos, &mut z),
            I8 => run!(i8),
            U8 => run!(u8),
            I16 => run!(i16),
            Isize => run!(isize),
        }
        let o = |v: f32| Some(S::k(v as f64));
        (
            z.into_iter().map(o).collect(),
            sos.iter().flat_map(|s| [s.b[0], s.b[1], s.b[2], s.a[0], s.a[1], s.a[2], s.zi0, s.zi1]).map(o).collect(),
        )
    }
}
fn eqs<S: Scalar>(cx: &mut Cx, label: &str, got: &[Option<S>], want: &[S]) {
    if !cx.check(&format!("{label}: every slot written"), got.len() == want.len() && got.iter().all(|v| v.is_some())) {
        return;
    }
    cx.eqs(label, &got.iter().map(|v| v.unwrap()).collect::<Vec<_>>(), want);
}
fn safe(cx: &mut Cx) {
    let ub = ll::take_ub();
    cx.check(&format!("memory safety{}", ub.as_deref().map(|s| format!(": {s}")).unwrap_or_default()), ub.is_none());
}
struct Filt {
    t: Samples,
    k: usize,
    len: usize,
}
impl Harness for Filt {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let mut rows = vec![];
        for i in 0..self.k {
            rows.extend(cx.vars::<S>(&format!("b{i}_"), 3, -1.0, 1.0));
            rows.extend(cx.vars::<S>(&format!("a{i}_"), 3, -1.0, 1.0));
            rows.extend(cx.sig::<S>(&format!("z{i}_"), 2, -4.0, 4.0));
        }
        let (lo, hi) = self.t.range();
        let mut x: Vec<S> = cx.sig("x", self.len, lo, hi);
        if !S::SYM && self.t != F32 {
            x.iter_mut().for_each(|v| *v = S::k(v.f64v().round()));
        }
        let got = cx.catch(|| call(self.t, &x, &rows, self.len));
        safe(cx);
        let Some((y, after)) = got else {
            cx.check("no panic", false);
            return;
        };
        let sos: Vec<Sos<S>> = rows.chunks(8).map(|c| Sos { b: [c[0], c[1], c[2]], a: [c[3], c[4], c[5]], zi0: c[6], zi1: c[7] }).collect();
        let mut z = states(&sos);
        let want: Vec<S> = x.iter().map(|v| cascade(*v, &sos, &mut z)).collect();
        let cx_pow = cx.pow;
        let f: S = S::k(2f64.powi(-cx.pow));
        let sc = |v: &[S]| v.iter().map(|v| if cx_pow == 0 { *v } else { *v * f }).collect::<Vec<_>>();
        let sco = |v: &[Option<S>]| v.iter().map(|v| v.map(|v| if cx_pow == 0 { v } else { v * f })).collect::<Vec<_>>();
        eqs(cx, "y", &sco(&y), &sc(&want));
        let mut rows2 = rows.clone();
        for (i, z) in z.iter().enumerate() {
            rows2[8 * i + 6] = z[0];
            rows2[8 * i + 7] = z[1];
        }
        if cx_pow == 0 {
            eqs(cx, "sections", &after, &rows2);
        } else {
            for i in 0..self.k {
                eqs(cx, "coefficients", &after[8 * i..8 * i + 6], &rows2[8 * i..8 * i + 6]);
                eqs(cx, "state", &sco(&after[8 * i + 6..8 * i + 8]), &sc(&rows2[8 * i + 6..8 * i + 8]));
            }
        }
    }
}
/// a long signal of numbers with a few symbolic samples, coefficients of a finite response
struct Long {
    t: Samples,
    k: usize,
    len: usize,
}
impl Harness for Long {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let mut rows: Vec<S> = vec![];
        for i in 0..self.k {
            rows.extend([1.0, if i % 2 == 0 { 0.5 } else { 0.0 }, if i % 3 == 1 { 0.25 } else { 0.0 }, 1.0, 0.0, 0.0, 0.0, 0.0].map(S::k));
        }
        let mut x: Vec<S> = (0..self.len).map(|i| S::k(((i * i) % 7) as f64)).collect();
        for (j, back) in [1usize, 3, self.len / 2].into_iter().enumerate() {
            let v: S = cx.var(&format!("x{j}"), 0.0, 100.0);
            x[self.len - back] = if S::SYM || self.t == F32 { v } else { S::k(v.f64v().round()) };
        }
        let got = cx.catch(|| call(self.t, &x, &rows, self.len));
        safe(cx);
        let Some((y, after)) = got else {
            cx.check("no panic", false);
            return;
        };
        let sos: Vec<Sos<S>> = rows.chunks(8).map(|c| Sos { b: [c[0], c[1], c[2]], a: [c[3], c[4], c[5]], zi0: c[6], zi1: c[7] }).collect();
        let mut z = states(&sos);
        let want: Vec<S> = x.iter().map(|v| cascade(*v, &sos, &mut z)).collect();
        eqs(cx, "y", &y, &want);
        let mut rows2 = rows.clone();
        for (i, z) in z.iter().enumerate() {
            rows2[8 * i + 6] = z[0];
            rows2[8 * i + 7] = z[1];
        }
        eqs(cx, "sections", &after, &rows2);
    }
}
/// two calls on consecutive pieces continue the same filter
struct Stream {
    t: Samples,
    k: usize,
    at: usize,
    len: usize,
}
impl Harness for Stream {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let rows: Vec<S> = cx.vars("s", 8 * self.k, -1.0, 1.0);
        let (lo, hi) = self.t.range();
        let mut x: Vec<S> = cx.vars("x", self.len, lo, hi);
        if !S::SYM && self.t != F32 {
            x.iter_mut().for_each(|v| *v = S::k(v.f64v().round()));
        }
        let got = cx.catch(|| {
            let whole = call(self.t, &x, &rows, self.len);
            let one = call(self.t, &x[..self.at], &rows, self.at);
            let mid: Vec<S> = one.1.iter().map(|v| v.unwrap()).collect();
            let two = call(self.t, &x[self.at..], &mid, self.len - self.at);
            (whole, one, two)
        });
        safe(cx);
        let Some((whole, one, two)) = got else {
            cx.check("no panic", false);
            return;
        };
        let w = |v: Vec<Option<S>>| v.into_iter().map(|v| v.unwrap()).collect::<Vec<_>>();
        let parts: Vec<_> = one.0.into_iter().chain(two.0).collect();
        eqs(cx, "y", &parts, &w(whole.0));
        eqs(cx, "sections", &two.1, &w(whole.1));
    }
}
struct Mismatch {
    t: Samples,
    k: usize,
    len: usize,
    m: usize,
}
impl Harness for Mismatch {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let rows: Vec<S> = cx.vars("s", 8 * self.k, -1.0, 1.0);
        let x: Vec<S> = cx.vars("x", self.len, 0.0, 10.0);
        cx.must_panic("output length differs", || call(self.t, &x, &rows, self.m));
        safe(cx);
    }
}
fn main() {
    symcore::harness::main("C03", |thorough| {
        let mut v = vec![];
        let kmax = if thorough { 24 } else { 13 };
        let lens: Vec<usize> = if thorough { (0..=13).chain([16, 19, 24, 32, 35, 64, 66]).collect() } else { (0..=9).chain([12, 15, 16]).collect() };
        for t in [F32, Isize, U8] {
            for (k, len) in [(1, 301), (2, 300), (3, 302), (4, 260), (5, 100), (6, 128), (8, 127), (8, 64), (10, 64), (10, 63), (12, 64), (2, 4100), (1, 4099), (4, 1030)] {
                v.push(Case::new(format!("long {t:?} sections={k} len={len}"), Long { t, k, len }).tol(1e-3).validate(1).extra());
            }
        }
        for k in 1..=12 {
            for len in [1, 4, 5] {
                for p in [-60, 60] {
                    v.push(Case::new(format!("F32 sections={k} len={len}"), Filt { t: F32, k, len }).tol(1e-3).validate(2).scaled(p).extra());
                }
            }
        }
        for t in [F32, I16, Isize, I8, U8] {
            for k in 0..=kmax {
                for &len in &lens {
                    if k * len > if thorough { 700 } else { 130 } || (t != F32 && t != Isize && len > 9) {
                        continue;
                    }
                    let c = Case::new(format!("{t:?} sections={k} len={len}"), Filt { t, k, len }).tol(1e-3).validate(2);
                    v.push(if len > 5 || k > 5 { c.extra() } else { c });
                }
            }
            for k in 0..=kmax.min(10) {
                for (len, m) in [(0, 1), (1, 0), (4, 3), (4, 5), (4, 8), (8, 4), (5, 4), (3, 4)] {
                    v.push(Case::new(format!("mismatch {t:?} sections={k} {len} {m}"), Mismatch { t, k, len, m }));
                }
                for (at, len) in [(4, 8), (3, 7), (1, 9), (4, 5)] {
                    if k * len <= 90 && (thorough || t == F32 || t == Isize) {
                        v.push(Case::new(format!("stream {t:?} sections={k} {at}/{len}"), Stream { t, k, at, len }).tol(1e-3).extra());
                    }
                }
            }
        }
        v
    });
}
