//! C22: modified Bessel function of order zero, plain and scaled.
//! The f32 and f64 implementations are executed from their LLVM code; the element-wise ones directly.
use ndarray::{ArrayD, IxDyn, ShapeBuilder};
use sci_rs::special::Bessel;
use symcore::bessel_ref::{Piece, ASYM, FAR, NEAR};
use symcore::harness::*;
use symcore::ll::{self, Exec, V};

fn eval<S: Scalar>(single: bool, scaled: bool, x: S) -> S {
    if S::SYM {
        let name = match (single, scaled) { (false, false) => "t_i0_f64", (false, true) => "t_i0e_f64", (true, false) => "t_i0_f32", (true, true) => "t_i0e_f32" };
        let V::F(r, _) = Exec::new(ll::module()).call(name, vec![V::F(x.sym().unwrap(), single)]) else { panic!("no result") };
        S::of_sym(r)
    } else {
        let x = x.f64v();
        S::k(match (single, scaled) { (false, false) => x.i0(), (false, true) => x.i0e(), (true, false) => (x as f32).i0() as f64, (true, true) => (x as f32).i0e() as f64 })
    }
}
struct Relations {
    single: bool,
    lo: f64,
    hi: f64,
}
impl Harness for Relations {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let mut x: S = cx.var("x", self.lo, self.hi);
        if !S::SYM && self.single {
            x = S::k(x.f64v() as f32 as f64);
        }
        if x == S::zero() {
            x = S::zero();
        }
        let (a, b) = (eval(self.single, false, x), eval(self.single, false, -x));
        cx.eq("i0 even", a, b);
        let (c, d) = (eval(self.single, true, x), eval(self.single, true, -x));
        cx.eq("i0e even", c, d);
        let m = if x < S::zero() { -x } else { x };
        cx.eq("i0 = exp|x| i0e", a, num_traits::Float::exp(m) * c);
        if let Some(u) = ll::take_ub() {
            cx.check(&format!("memory safety: {u}"), false);
        }
    }
}
struct Near {
    single: bool,
    neg: bool,
    p: &'static Piece,
}
fn poly<S: Scalar>(c: &[f64], t: S) -> S {
    c.iter().rev().fold(S::zero(), |a, c| a * t + S::k(*c))
}
fn tol(single: bool, p: &Piece) -> f64 {
    if single { 3e-6 } else { 1e-14 - 2.0 * p.3 }
}
impl Harness for Near {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let (lo, hi, c, _) = self.p;
        let t: S = cx.var("t", -1.0, 1.0);
        let x = S::k((lo + hi) / 2.0) + S::k((hi - lo) / 2.0) * t;
        let r = eval(self.single, true, if self.neg { -x } else { x });
        cx.near("i0e", r, poly(c, t), tol(self.single, self.p));
    }
}
struct Far {
    single: bool,
    neg: bool,
    p: &'static Piece,
    direct: bool,
}
impl Harness for Far {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let (lo, hi, c, _) = self.p;
        let (t, u): (S, S) = if self.direct {
            let u: S = cx.var("u", 1e-9, *hi);
            (u, u)
        } else {
            let t: S = cx.var("t", -1.0, 1.0);
            (t, S::k((lo + hi) / 2.0) + S::k((hi - lo) / 2.0) * t)
        };
        let x = S::k(32.0) / u;
        cx.assume(x > S::k(8.0));
        let r = eval(self.single, true, if self.neg { -x } else { x });
        cx.near("sqrt(x) i0e", r * num_traits::Float::sqrt(x), poly(c, t), tol(self.single, self.p));
    }
}
/// element type with recognisable stand-ins for the two functions
#[derive(Clone, Copy, Debug)]
struct W<S>(S);
impl<S: Scalar> Bessel for W<S> {
    fn i0(&self) -> Self {
        W(self.0 * self.0 + S::k(3.0))
    }
    fn i0e(&self) -> Self {
        W(self.0 * S::k(5.0) - S::k(7.0))
    }
}
struct Elements {
    shape: Vec<usize>,
    fortran: bool,
}
impl Harness for Elements {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let n = self.shape.iter().product();
        let v: Vec<S> = cx.vars("v", n, -10.0, 10.0);
        let w: Vec<W<S>> = v.iter().map(|v| W(*v)).collect();
        let un = |v: Vec<W<S>>| v.into_iter().map(|v| v.0).collect::<Vec<_>>();
        let a: Vec<S> = v.iter().map(|v| W(*v).i0().0).collect();
        let b: Vec<S> = v.iter().map(|v| W(*v).i0e().0).collect();
        if self.shape.len() == 1 {
            cx.eqs("vector i0", &un(w.i0()), &a);
            cx.eqs("vector i0e", &un(w.i0e()), &b);
        }
        let sh = if self.fortran { IxDyn(&self.shape).f() } else { IxDyn(&self.shape).into_shape_with_order() };
        let arr = ArrayD::from_shape_vec(sh, w).unwrap();
        let (p, q) = (arr.i0(), arr.i0e());
        cx.check("shape", p.shape() == self.shape && q.shape() == self.shape);
        let mut wa = vec![];
        let mut wb = vec![];
        for x in arr.iter() {
            wa.push(x.i0().0);
            wb.push(x.i0e().0);
        }
        cx.eqs("array i0", &p.iter().map(|v| v.0).collect::<Vec<_>>(), &wa);
        cx.eqs("array i0e", &q.iter().map(|v| v.0).collect::<Vec<_>>(), &wb);
    }
}
fn main() {
    symcore::harness::main("C22", |thorough| {
        let mut v = vec![];
        for (single, nm) in [(false, "f64"), (true, "f32")] {
            let top = if single { 80.0 } else { 600.0 };
            for (lo, hi) in [(-8.0, 8.0), (-8.5, 8.5), (-top, top), (7.9, 8.1), (-1e-3, 1e-3)] {
                v.push(Case::new(format!("{nm} even and scaled, x in [{lo}, {hi}]"), Relations { single, lo, hi }).tol(if single { 1e-4 } else { 1e-9 }));
            }
            for neg in [false, true] {
                let s = if neg { " negative" } else { "" };
                for p in NEAR {
                    v.push(Case::new(format!("{nm} accuracy{s} x in [{}, {}]", p.0, p.1), Near { single, neg, p }));
                }
                for p in FAR {
                    v.push(Case::new(format!("{nm} accuracy{s} 32/x in [{}, {}]", p.0, p.1), Far { single, neg, p, direct: false }));
                }
                v.push(Case::new(format!("{nm} accuracy{s} 32/x below {}", ASYM[0].1), Far { single, neg, p: &ASYM[0], direct: true }));
            }
        }
        let k = if thorough { 40 } else { 12 };
        for n in 0..=k {
            v.push(Case::new(format!("elements {n}"), Elements { shape: vec![n], fortran: false }));
        }
        for n in [33, 64, 65, 100, 256, 1000, 5000] {
            v.push(Case::new(format!("elements {n}"), Elements { shape: vec![n], fortran: false }));
        }
        for sh in [vec![], vec![30, 40], vec![7, 11, 13], vec![2, 3], vec![3, 2], vec![1, 4], vec![0, 3], vec![2, 3, 2], vec![2, 1, 2, 3], vec![5, 5]] {
            for fortran in [false, true] {
                v.push(Case::new(format!("elements {sh:?} column-major={fortran}"), Elements { shape: sh.clone(), fortran }));
            }
        }
        v
    });
}
