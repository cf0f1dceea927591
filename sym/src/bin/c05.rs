//! C05: sosfiltfilt_dyn against an independently written forward-backward reference.
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::sosfiltfilt_dyn;
use symcore::harness::*;
use symcore::spec::*;

/// section coefficients (b0 b1 b2 a1 a2), dyadic so that they are exact
const T: [[f64; 5]; 12] = [
    [0.5, 0.25, 0.125, -0.5, 0.25],
    [1.0, -0.5, 0.25, 0.25, -0.125],
    [0.75, 0.5, 0.0, -0.25, 0.0],
    [0.25, 0.125, 0.0, 0.5, 0.125],
    [1.0, 0.25, 0.5, -0.125, 0.0],
    [0.5, -0.25, 0.375, -0.375, 0.0625],
    [0.25, 0.75, -0.5, 0.125, 0.375],
    [2.0, 0.0, 0.5, -0.625, 0.25],
    [0.5, 0.0, 0.0, -0.5, 0.0],
    [0.0, 0.5, 0.25, 0.375, -0.25],
    [0.375, 0.25, 0.0, 0.25, 0.0],
    [1.25, 0.5, 0.25, 0.0, 0.125],
];
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Conc,
    SymB,
    SymAll,
}
struct Ff {
    which: Vec<usize>,
    extra: usize,
    kind: Kind,
    constant: bool,
    /// only these many samples symbolic
    free: usize,
}
fn mk<S: Scalar>(cx: &mut Cx, which: &[usize], kind: Kind) -> Vec<Sos<S>> {
    which.iter().enumerate().map(|(i, w)| {
        let t = T[*w];
        let mut b = [S::k(t[0]), S::k(t[1]), S::k(t[2])];
        let mut a = [S::one(), S::k(t[3]), S::k(t[4])];
        if kind != Kind::Conc {
            b = [cx.var(&format!("b{i}_0"), -2.0, 2.0), cx.var(&format!("b{i}_1"), -2.0, 2.0), cx.var(&format!("b{i}_2"), -2.0, 2.0)];
        }
        if kind == Kind::SymAll {
            a = [S::one(), cx.var(&format!("a{i}_1"), -0.4, 0.4), cx.var(&format!("a{i}_2"), -0.4, 0.4)];
        }
        let mut s = Sos::new(b, a);
        // whatever state the caller's sections hold must not matter
        s.zi0 = cx.var(&format!("z{i}_0"), -3.0, 3.0);
        s.zi1 = cx.var(&format!("z{i}_1"), -3.0, 3.0);
        s
    }).collect()
}
fn ntaps<S: Scalar>(sos: &[Sos<S>]) -> usize {
    let mut bz = 0;
    let mut az = 0;
    for s in sos {
        if s.b[2] == S::zero() {
            bz += 1;
        }
        if s.a[2] == S::zero() {
            az += 1;
        }
    }
    2 * sos.len() + 1 - bz.min(az)
}
/// steady state for a unit step, and the DC gain
fn steady<S: Scalar>(sos: &[Sos<S>]) -> (Vec<[S; 2]>, S) {
    let mut g = S::one();
    let mut out = vec![];
    for s in sos {
        let gi = (s.b[0] + s.b[1] + s.b[2]) / (S::one() + s.a[1] + s.a[2]);
        let (u, y) = (g, g * gi);
        out.push([y - s.b[0] * u, s.b[2] * u - s.a[2] * y]);
        g = y;
    }
    (out, g)
}
fn run_from<S: Scalar>(x: &[S], sos: &[Sos<S>], st: &[[S; 2]]) -> Vec<S> {
    let mut z: Vec<[S; 2]> = st.iter().map(|v| [v[0] * x[0], v[1] * x[0]]).collect();
    x.iter().map(|v| cascade(*v, sos, &mut z)).collect()
}
impl Harness for Ff {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let sos: Vec<Sos<S>> = mk(cx, &self.which, self.kind);
        let edge = 3 * ntaps(&sos);
        let len = edge + 1 + self.extra;
        let x: Vec<S> = if self.constant { vec![cx.var("c", -5.0, 5.0); len] } else if self.free >= len { cx.sig("x", len, -5.0, 5.0) } else {
            let mut x: Vec<S> = (0..len).map(|i| S::k(((i * i + 3) % 11) as f64 * 0.25 - 1.0)).collect();
            for j in 0..self.free {
                x[j * (len - 1) / (self.free - 1)] = cx.var(&format!("x{j}"), -5.0, 5.0);
            }
            x
        };
        let got = sosfiltfilt_dyn(x.iter(), &sos);
        let two = S::k(2.0);
        let ext: Vec<S> = (0..len + 2 * edge).map(|i| {
            if i < edge {
                two * x[0] - x[edge - i]
            } else if i < edge + len {
                x[i - edge]
            } else {
                let k = i - edge - len + 1; // distance past the last sample
                two * x[len - 1] - x[len - 1 - k]
            }
        }).collect();
        let (st, g) = steady(&sos);
        let f = run_from(&ext, &sos, &st);
        let r: Vec<S> = f.into_iter().rev().collect();
        let b = run_from(&r, &sos, &st);
        let back: Vec<S> = b.into_iter().rev().collect();
        cx.lins("y", &got, &back[edge..edge + len]);
        if self.constant {
            for (i, v) in got.iter().enumerate() {
                cx.eq(&format!("constant[{i}]"), *v, x[0] * g * g);
            }
        }
    }
}
struct Short {
    which: Vec<usize>,
    by: usize,
}
impl Harness for Short {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let sos: Vec<Sos<S>> = mk(cx, &self.which, Kind::Conc);
        let edge = 3 * ntaps(&sos);
        if edge < self.by {
            cx.check("no such length", true);
            return;
        }
        let x: Vec<S> = cx.vars("x", edge - self.by, -5.0, 5.0);
        cx.must_panic("short signal rejected", || sosfiltfilt_dyn(x.iter(), &sos));
    }
}
fn main() {
    symcore::harness::main("C05", |thorough| {
        let mut v = vec![];
        let mut sets: Vec<Vec<usize>> = vec![vec![]];
        for i in 0..12 {
            sets.push(vec![i]);
        }
        for p in [[0, 1], [0, 2], [2, 3], [3, 4], [2, 8], [8, 10], [6, 9], [11, 5], [4, 3], [10, 7]] {
            sets.push(p.to_vec());
        }
        sets.push(vec![0, 1, 5]);
        sets.push(vec![2, 8, 10]);
        sets.push(vec![2, 3, 4]);
        sets.push(vec![0, 2, 6, 9]);
        sets.push(vec![8, 8, 10, 2]);
        if thorough {
            sets.push(vec![0, 1, 5, 6, 7]);
            sets.push(vec![11, 1, 9, 6, 7, 3]);
            sets.push((0..8).collect());
        }
        for s in &sets {
            for extra in if thorough { vec![0, 1, 2, 5, 13, 40] } else { vec![0, 1, 6] } {
                v.push(Case::new(format!("sections={s:?} len=edge+1+{extra}"), Ff { which: s.clone(), extra, kind: Kind::Conc, constant: false, free: 9999 }).validate(2));
            }
            v.push(Case::new(format!("constant sections={s:?}"), Ff { which: s.clone(), extra: 2, kind: Kind::Conc, constant: true, free: 9999 }).validate(2));
            for by in [0, 1, 2, 3, 6, 9] {
                v.push(Case::new(format!("short sections={s:?} len=edge-{by}"), Short { which: s.clone(), by }).validate(1));
            }
        }
        for s in [vec![0], vec![2], vec![3], vec![4], vec![0, 1], vec![2, 8], vec![0, 1, 5], vec![2, 3, 4]] {
            for p in [-80, 80] {
                v.push(Case::new(format!("sections={s:?} len=edge+3"), Ff { which: s.clone(), extra: 2, kind: Kind::Conc, constant: false, free: 9999 }).validate(2).scaled(p));
            }
        }
        // longer cascades and longer signals, some samples symbolic
        let mut sets: Vec<(Vec<usize>, usize)> = vec![(vec![0, 1, 5, 6, 7], 3), (vec![11, 1, 9, 6, 7, 3], 0), ((0..8).collect(), 1), ((0..10).collect(), 2), ((0..12).collect(), 0), (vec![3; 7], 0), (vec![2; 9], 0)];
        for n in [30, 57, 64, 100, 129] {
            sets.extend([(vec![0], n), (vec![2], n), (vec![0, 1], n)]);
        }
        for (s, extra) in sets {
            v.push(Case::new(format!("numbers sections={s:?} len=edge+1+{extra}"), Ff { which: s, extra, kind: Kind::Conc, constant: false, free: 4 }).validate(1).tol(1e-6));
        }
        for (s, core) in [(vec![0], true), (vec![2], true), (vec![3], true), (vec![0, 1], false), (vec![2, 3], false)] {
            let c = Case::new(format!("symbolic numerators sections={s:?}"), Ff { which: s.clone(), extra: 0, kind: Kind::SymB, constant: false, free: 9999 }).validate(2);
            v.push(if core { c } else { c.extra() });
            let c = Case::new(format!("symbolic numerators, constant sections={s:?}"), Ff { which: s.clone(), extra: 0, kind: Kind::SymB, constant: true, free: 9999 }).validate(2);
            v.push(if core { c } else { c.extra() });
        }
        for n in 1..=1 {
            let s = vec![0; n];
            v.push(Case::new(format!("all coefficients symbolic sections={n}"), Ff { which: s.clone(), extra: 1, kind: Kind::SymAll, constant: false, free: 9999 }).validate(2).tol(1e-4).secs(60.0).extra());
            v.push(Case::new(format!("all coefficients symbolic, constant sections={n}"), Ff { which: s, extra: 1, kind: Kind::SymAll, constant: true, free: 9999 }).validate(2).tol(1e-4).secs(60.0).extra());
        }
        v
    });
}
