//! C01: section filtering computes the biquad cascade.
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::{sosfilt_dyn, sosfilt_item, sosfilt_st};
use symcore::harness::*;
use symcore::spec::*;

fn sections<S: Scalar>(cx: &mut Cx, n: usize, tag: &str) -> Vec<Sos<S>> {
    (0..n)
        .map(|i| {
            let b: Vec<S> = cx.vars(&format!("{tag}b{i}_"), 3, -4.0, 4.0);
            let a: Vec<S> = cx.vars(&format!("{tag}a{i}_"), 3, -4.0, 4.0);
            let z: Vec<S> = cx.sig(&format!("{tag}z{i}_"), 2, -4.0, 4.0);
            let mut s = Sos::new([b[0], b[1], b[2]], [a[0], a[1], a[2]]);
            s.zi0 = z[0];
            s.zi1 = z[1];
            s
        })
        .collect()
}

#[derive(Clone, Copy)]
enum Entry {
    Dyn,
    DynOwned,
    St,
    Item,
}
struct Filt {
    n: usize,
    len: usize,
    e: Entry,
}
impl Harness for Filt {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let orig: Vec<Sos<S>> = sections(cx, self.n, "");
        let x: Vec<S> = cx.sig("x", self.len, -10.0, 10.0);
        let mut sos = orig.clone();
        let y: Vec<S> = match self.e {
            Entry::Dyn => sosfilt_dyn(x.iter(), &mut sos),
            Entry::DynOwned => sosfilt_dyn(x.clone(), &mut sos),
            Entry::St => sosfilt_st(x.iter(), &mut sos).collect(),
            Entry::Item => x.iter().map(|v| sosfilt_item(*v, &mut sos)).collect(),
        };
        let mut z = states(&orig);
        let want: Vec<S> = x.iter().map(|v| cascade(*v, &orig, &mut z)).collect();
        cx.lins("y", &y, &want);
        cx.check("sections", sos.len() == self.n);
        for (i, s) in sos.iter().enumerate() {
            cx.lin(&format!("zi0[{i}]"), s.zi0, z[i][0]);
            cx.lin(&format!("zi1[{i}]"), s.zi1, z[i][1]);
            for j in 0..3 {
                cx.eq(&format!("b[{i}][{j}]"), s.b[j], orig[i].b[j]);
                cx.eq(&format!("a[{i}][{j}]"), s.a[j], orig[i].a[j]);
            }
        }
    }
}
struct FromScipy {
    n: usize,
}
impl Harness for FromScipy {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let flat: Vec<S> = cx.vars("c", 6 * self.n, -10.0, 10.0);
        let sos = Sos::from_scipy_dyn(self.n, flat.clone());
        cx.check("len", sos.len() == self.n);
        for (i, s) in sos.iter().enumerate() {
            for j in 0..3 {
                cx.eq(&format!("b[{i}][{j}]"), s.b[j], flat[6 * i + j]);
                cx.eq(&format!("a[{i}][{j}]"), s.a[j], flat[6 * i + 3 + j]);
            }
            cx.eq("zi0", s.zi0, S::zero());
            cx.eq("zi1", s.zi1, S::zero());
        }
        let x: Vec<S> = cx.vars("x", 3, -10.0, 10.0);
        let mut s2 = sos.clone();
        let y = sosfilt_dyn(x.iter(), &mut s2);
        let mut z = vec![[S::zero(); 2]; self.n];
        let want: Vec<S> = x.iter().map(|v| cascade(*v, &sos, &mut z)).collect();
        cx.eqs("filtered", &y, &want);
        for extra in [1usize, 6 * self.n.max(1) - 1] {
            let mut bad = flat.clone();
            if extra == 1 { bad.push(x[0]) } else { bad.pop(); }
            if bad.len() != 6 * self.n {
                cx.must_panic("wrong coefficient count rejected", || Sos::from_scipy_dyn(self.n, bad));
            }
        }
    }
}
fn feed<S: Scalar>(e: usize, x: &[S], sos: &mut [Sos<S>]) -> Vec<S> {
    match e % 4 {
        0 => sosfilt_dyn(x.iter(), sos),
        1 => sosfilt_st(x.iter(), sos).collect(),
        2 => x.iter().map(|v| sosfilt_item(v, sos)).collect(),
        _ => sosfilt_dyn(x.to_vec(), sos),
    }
}
/// a long signal: binary fractions with a few symbolic samples near the end, coefficients of a finite response
struct Long {
    n: usize,
    cuts: Vec<usize>,
    rot: usize,
}
impl Harness for Long {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let orig: Vec<Sos<S>> = (0..self.n).map(|i| Sos::new([S::k(1.0), S::k(0.5), S::k(if i % 2 == 0 { 0.25 } else { 0.0 })], [S::k(1.0), S::k(0.0), S::k(0.0)])).collect();
        let len: usize = self.cuts.iter().sum();
        let mut x: Vec<S> = (0..len).map(|i| S::k(((i * i) % 7) as f64 - 2.0)).collect();
        for (j, back) in [1usize, 3, len / 2].into_iter().enumerate() {
            x[len - back] = cx.var(&format!("x{j}"), -10.0, 10.0);
        }
        let mut part = orig.clone();
        let mut y: Vec<S> = vec![];
        let mut at = 0;
        for (i, c) in self.cuts.iter().enumerate() {
            y.extend(feed(self.rot + i, &x[at..at + c], &mut part));
            at += c;
        }
        let mut z = states(&orig);
        let want: Vec<S> = x.iter().map(|v| cascade(*v, &orig, &mut z)).collect();
        cx.eqs("y", &y, &want);
        for i in 0..self.n {
            cx.eq("zi0", part[i].zi0, z[i][0]);
            cx.eq("zi1", part[i].zi1, z[i][1]);
        }
    }
}
fn main() {
    symcore::harness::main("C01", |thorough| {
        let mut v = vec![];
        let nmax = if thorough { 32 } else { 24 };
        for n in 0..=nmax {
            let lens: Vec<usize> = if thorough { vec![0, 1, 2, 3, 4, 5, 8, 17, 33, 64, 130] } else { vec![0, 1, 2, 5, 17, 40] };
            for len in lens {
                for (e, nm) in [(Entry::Dyn, "dyn"), (Entry::DynOwned, "dyn_owned"), (Entry::St, "st"), (Entry::Item, "item")] {
                    let c = Case::new(format!("{nm} sections={n} len={len}"), Filt { n, len, e }).validate(2).tol(1e-4);
                    v.push(if len > 2 || n > 3 { c.extra() } else { c });
                }
            }
        }
        for n in (1..=8).chain([12, 18, 20]) {
            for (e, nm) in [(Entry::Dyn, "dyn"), (Entry::St, "st"), (Entry::Item, "item")] {
                for p in [-80, 80] {
                    v.push(Case::new(format!("{nm} sections={n} len=3"), Filt { n, len: 3, e }).validate(2).tol(1e-4).scaled(p).extra());
                }
            }
        }
        for (n, len) in [(1, 300), (2, 300), (3, 1030), (4, 1030), (5, 300), (6, 300), (7, 300), (8, 300), (10, 300), (12, 300), (1, 5000), (2, 5000), (1, 70000), (2, 70000)] {
            for rot in 0..4 {
                v.push(Case::new(format!("long sections={n} len={len} entry={rot}"), Long { n, cuts: vec![len], rot }).validate(1));
            }
        }
        for n in (nmax + 1..=if thorough { 80 } else { 48 }).chain([64, 65, 100, 127, 128, 129]) {
            for (e, nm) in [(Entry::Dyn, "dyn"), (Entry::DynOwned, "dyn_owned"), (Entry::St, "st"), (Entry::Item, "item")] {
                for len in [1, 3] {
                    if len == 3 && n > 65 {
                        continue;
                    }
                    v.push(Case::new(format!("{nm} sections={n} len={len}"), Filt { n, len, e }).validate(1).tol(1e-4).extra());
                }
            }
        }
        for n in (0..=if thorough { 40 } else { 20 }).chain([33, 64, 100]) {
            v.push(Case::new(format!("from_scipy n={n}"), FromScipy { n }));
        }
        v
    });
}
