//! C18: the tiled 32-bit autocorrelation and root mean square.
//! Monomorphic in f32, so their LLVM code is executed symbolically.
use sci_rs::stats::{autocorr_fast32, rms_fast32};
use symcore::harness::*;
use symcore::ll::{self, Exec, V};
include!("../../../ir/src/combos.rs");

fn safe(cx: &mut Cx) {
    let ub = ll::take_ub();
    cx.check(&format!("memory safety{}", ub.as_deref().map(|s| format!(": {s}")).unwrap_or_default()), ub.is_none());
}
fn all<S: Scalar>(cx: &mut Cx, label: &str, v: Vec<Option<S>>) -> Vec<S> {
    cx.check(&format!("{label}: every slot written"), v.iter().all(|v| v.is_some()));
    v.into_iter().flatten().collect()
}
struct Ac {
    name: &'static str,
    n: usize,
    m: usize,
    skip: usize,
    native: fn(&[f32], usize) -> (Vec<f32>, Vec<f32>, f32),
}
impl Harness for Ac {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let y: Vec<S> = cx.sig("y", self.n, -10.0, 10.0);
        let got = cx.catch(|| {
            if S::SYM {
                let mut ex = Exec::new(ll::module());
                let p = ex.mem.put_f32s(&y.iter().map(|v| v.sym().unwrap()).collect::<Vec<_>>());
                let q = ex.mem.alloc(4 * self.m);
                let V::F(r, _) = ex.call(self.name, vec![V::I(64, p as u128), V::I(64, q as u128)]) else { panic!("no result") };
                let b = |v: Vec<Option<symcore::num::Sym>>| v.into_iter().map(|v| v.map(S::of_sym)).collect::<Vec<_>>();
                (b(ex.mem.get_f32s(p, self.n)), b(ex.mem.get_f32s(q, self.m)), S::of_sym(r))
            } else {
                let (a, b, r) = (self.native)(&y.iter().map(|v| v.f64v() as f32).collect::<Vec<_>>(), self.m);
                let o = |v: Vec<f32>| v.into_iter().map(|v| Some(S::k(v as f64))).collect::<Vec<_>>();
                (o(a), o(b), S::k(r as f64))
            }
        });
        safe(cx);
        let Some((y1, x, var)) = got else {
            cx.check("no panic", false);
            return;
        };
        let (y1, x) = (all(cx, "y", y1), all(cx, "x", x));
        let n = S::k(self.n as f64);
        let mean = y.iter().fold(S::zero(), |a, b| a + *b) / n;
        let c: Vec<S> = y.iter().map(|v| *v - mean).collect();
        cx.lins("centred y", &y1, &c);
        let want: Vec<S> = (0..self.m)
            .map(|j| {
                let h = self.skip + j;
                (0..self.n - h).fold(S::zero(), |a, i| a + c[i] * c[i + h])
            })
            .collect();
        cx.degs("autocorrelation", &x, &want, 2);
        cx.deg("variance", var, c.iter().fold(S::zero(), |a, b| a + *b * *b) / n, 2);
    }
}
/// more lags than the signal has
struct Reject(Ac);
impl Harness for Reject {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let y: Vec<S> = cx.vars("y", self.0.n, -10.0, 10.0);
        cx.must_panic("more lags than the signal has are rejected", || {
            if S::SYM {
                let mut ex = Exec::new(ll::module());
                let p = ex.mem.put_f32s(&y.iter().map(|v| v.sym().unwrap()).collect::<Vec<_>>());
                let q = ex.mem.alloc(4 * self.0.m);
                ex.call(self.0.name, vec![V::I(64, p as u128), V::I(64, q as u128)]);
            } else {
                (self.0.native)(&y.iter().map(|v| v.f64v() as f32).collect::<Vec<_>>(), self.0.m);
            }
        });
        safe(cx);
    }
}
struct Rms {
    name: &'static str,
    n: usize,
    native: fn(&[f32]) -> f32,
}
impl Harness for Rms {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let y: Vec<S> = cx.sig("y", self.n, -10.0, 10.0);
        let got = cx.catch(|| {
            if S::SYM {
                let mut ex = Exec::new(ll::module());
                let p = ex.mem.put_f32s(&y.iter().map(|v| v.sym().unwrap()).collect::<Vec<_>>());
                let V::F(r, _) = ex.call(self.name, vec![V::I(64, p as u128)]) else { panic!("no result") };
                let after = ex.mem.get_f32s(p, self.n).into_iter().map(|v| v.map(S::of_sym)).collect::<Vec<_>>();
                (S::of_sym(r), after)
            } else {
                (S::k((self.native)(&y.iter().map(|v| v.f64v() as f32).collect::<Vec<_>>()) as f64), y.iter().map(|v| Some(*v)).collect())
            }
        });
        safe(cx);
        let Some((r, after)) = got else {
            cx.check("no panic", false);
            return;
        };
        let after = all(cx, "y", after);
        cx.lins("y untouched", &after, &y);
        let sum = y.iter().fold(S::zero(), |a, b| a + *b * *b);
        cx.check("not negative", r >= S::zero());
        cx.deg("rms squared", r * r, sum / S::k(self.n as f64), 2);
    }
}
fn main() {
    symcore::harness::main("C18", |thorough| {
        let mut v = vec![];
        macro_rules! ac {
            ($($name:ident $n:literal $m:literal $s:literal),* $(,)?) => { $(
                fn $name(y: &[f32], _: usize) -> (Vec<f32>, Vec<f32>, f32) {
                    let mut a: [f32; $n] = y.try_into().unwrap();
                    let mut x = [f32::NAN; $m];
                    let r = autocorr_fast32::<$n, $m, $s>(&mut a, &mut x);
                    (a.to_vec(), x.to_vec(), r)
                }
                if thorough || $n <= 33 {
                    v.push(Case::new(format!("autocorr N={} M={} SKIP={}", $n, $m, $s), Ac { name: stringify!($name), n: $n, m: $m, skip: $s, native: $name }).tol(2e-3).validate(2));
                }
                if $n <= 8 {
                    for p in [-40, 40] {
                        v.push(Case::new(format!("autocorr N={} M={} SKIP={}", $n, $m, $s), Ac { name: stringify!($name), n: $n, m: $m, skip: $s, native: $name }).tol(2e-3).validate(1).scaled(p));
                    }
                }
            )* };
        }
        ac_combos!(ac);
        macro_rules! acr {
            ($($name:ident $n:literal $m:literal $s:literal),* $(,)?) => { $(
                fn $name(y: &[f32], _: usize) -> (Vec<f32>, Vec<f32>, f32) {
                    let mut a: [f32; $n] = y.try_into().unwrap();
                    let mut x = [f32::NAN; $m];
                    let r = autocorr_fast32::<$n, $m, $s>(&mut a, &mut x);
                    (a.to_vec(), x.to_vec(), r)
                }
                v.push(Case::new(format!("reject N={} M={} SKIP={}", $n, $m, $s), Reject(Ac { name: stringify!($name), n: $n, m: $m, skip: $s, native: $name })).validate(2));
            )* };
        }
        ac_rejects!(acr);
        macro_rules! rms {
            ($($name:ident $n:literal),* $(,)?) => { $(
                fn $name(y: &[f32]) -> f32 {
                    rms_fast32::<$n>(y.try_into().unwrap())
                }
                v.push(Case::new(format!("rms N={}", $n), Rms { name: stringify!($name), n: $n, native: $name }).tol(1e-3).validate(2));
                if $n <= 20 {
                    for p in [-40, 40] {
                        v.push(Case::new(format!("rms N={}", $n), Rms { name: stringify!($name), n: $n, native: $name }).tol(1e-3).validate(1).scaled(p));
                    }
                }
            )* };
        }
        rms_combos!(rms);
        v
    });
}
