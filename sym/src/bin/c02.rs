//! C02: any chunking of the signal gives the same samples and the same state.
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::{sosfilt_dyn, sosfilt_item, sosfilt_st};
use symcore::harness::*;
use symcore::spec::*;

fn sections<S: Scalar>(cx: &mut Cx, n: usize, tag: &str) -> Vec<Sos<S>> {
    (0..n)
        .map(|i| {
            let b: Vec<S> = cx.vars(&format!("{tag}b{i}_"), 3, -2.0, 2.0);
            let a: Vec<S> = cx.vars(&format!("{tag}a{i}_"), 3, -2.0, 2.0);
            let z: Vec<S> = cx.sig(&format!("{tag}z{i}_"), 2, -2.0, 2.0);
            let mut s = Sos::new([b[0], b[1], b[2]], [a[0], a[1], a[2]]);
            s.zi0 = z[0];
            s.zi1 = z[1];
            s
        })
        .collect()
}
/// feed one chunk through entry point e
fn feed<S: Scalar>(e: usize, x: &[S], sos: &mut [Sos<S>]) -> Vec<S> {
    match e % 4 {
        0 => sosfilt_dyn(x.iter(), sos),
        1 => sosfilt_st(x.iter(), sos).collect(),
        2 => x.iter().map(|v| sosfilt_item(v, sos)).collect(),
        _ => sosfilt_dyn(x.to_vec(), sos),
    }
}
struct Chunks {
    n: usize,
    cuts: Vec<usize>, // chunk lengths
    rot: usize,       // which entry point the first chunk uses
    interleave: bool,
}
impl Harness for Chunks {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let orig: Vec<Sos<S>> = sections(cx, self.n, "");
        let other0: Vec<Sos<S>> = sections(cx, self.n, "o");
        let len: usize = self.cuts.iter().sum();
        let x: Vec<S> = cx.sig("x", len, -10.0, 10.0);
        let mut whole = orig.clone();
        let yw = feed(self.rot, &x, &mut whole);
        let mut zr = states(&orig);
        let want: Vec<S> = x.iter().map(|v| cascade(*v, &orig, &mut zr)).collect();
        cx.lins("whole", &yw, &want);
        let mut part = orig.clone();
        let mut other = other0.clone();
        let mut zo = states(&other0);
        let mut y = vec![];
        let mut at = 0;
        for (i, c) in self.cuts.iter().enumerate() {
            y.extend(feed(self.rot + i, &x[at..at + c], &mut part));
            if self.interleave {
                // a second filter used in between must not be affected nor affect the first
                let w: Vec<S> = x[at..at + c].iter().rev().cloned().collect();
                let yo = feed(self.rot + i + 1, &w, &mut other);
                let wo: Vec<S> = w.iter().map(|v| cascade(*v, &other0, &mut zo)).collect();
                cx.lins("other filter", &yo, &wo);
            }
            at += c;
        }
        cx.lins("chunked", &y, &yw);
        for i in 0..self.n {
            cx.lin(&format!("zi0[{i}]"), part[i].zi0, whole[i].zi0);
            cx.lin(&format!("zi1[{i}]"), part[i].zi1, whole[i].zi1);
            for j in 0..3 {
                cx.eq(&format!("b[{i}][{j}]"), part[i].b[j], orig[i].b[j]);
                cx.eq(&format!("a[{i}][{j}]"), part[i].a[j], orig[i].a[j]);
            }
            if self.interleave {
                cx.lin(&format!("other zi0[{i}]"), other[i].zi0, zo[i][0]);
                cx.lin(&format!("other zi1[{i}]"), other[i].zi1, zo[i][1]);
            }
        }
    }
}
/// a lazily consumed iterator may be dropped half way: the state is that of the consumed prefix
struct Partial {
    n: usize,
    len: usize,
    take: usize,
}
impl Harness for Partial {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let orig: Vec<Sos<S>> = sections(cx, self.n, "");
        let x: Vec<S> = cx.sig("x", self.len, -10.0, 10.0);
        let mut sos = orig.clone();
        let mut y: Vec<S> = sosfilt_st(x.iter(), &mut sos).take(self.take).collect();
        y.extend(sosfilt_dyn(x[self.take..].iter(), &mut sos));
        let mut z = states(&orig);
        let want: Vec<S> = x.iter().map(|v| cascade(*v, &orig, &mut z)).collect();
        cx.eqs("y", &y, &want);
        for i in 0..self.n {
            cx.eq("zi0", sos[i].zi0, z[i][0]);
            cx.eq("zi1", sos[i].zi1, z[i][1]);
        }
    }
}
/// a long signal: binary fractions with a few symbolic samples near the end, coefficients of a finite response
struct Long {
    n: usize,
    cuts: Vec<usize>,
    rot: usize,
}
impl Harness for Long {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let orig: Vec<Sos<S>> = (0..self.n).map(|i| Sos::new([S::k(1.0), S::k(0.5), S::k(if i % 2 == 0 { 0.25 } else { 0.0 })], [S::k(1.0), S::k(0.0), S::k(0.0)])).collect();
        let len: usize = self.cuts.iter().sum();
        let mut x: Vec<S> = (0..len).map(|i| S::k(((i * i) % 7) as f64 - 2.0)).collect();
        for (j, back) in [1usize, 3, len / 2].into_iter().enumerate() {
            x[len - back] = cx.var(&format!("x{j}"), -10.0, 10.0);
        }
        let mut part = orig.clone();
        let mut y: Vec<S> = vec![];
        let mut at = 0;
        for (i, c) in self.cuts.iter().enumerate() {
            y.extend(feed(self.rot + i, &x[at..at + c], &mut part));
            at += c;
        }
        let mut z = states(&orig);
        let want: Vec<S> = x.iter().map(|v| cascade(*v, &orig, &mut z)).collect();
        cx.eqs("y", &y, &want);
        for i in 0..self.n {
            cx.eq("zi0", part[i].zi0, z[i][0]);
            cx.eq("zi1", part[i].zi1, z[i][1]);
        }
    }
}
fn compositions(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for k in 1..=n {
        for mut r in compositions(n - k) {
            r.insert(0, k);
            out.push(r);
        }
    }
    out
}
fn main() {
    symcore::harness::main("C02", |thorough| {
        let mut v: Vec<Case> = vec![];
        let ns: Vec<usize> = if thorough { (0..=24).collect() } else { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 18, 20, 21] };
        let l = if thorough { 7 } else { 5 };
        for (n, cuts) in [(1, vec![300, 20]), (2, vec![1, 300, 300]), (3, vec![1030, 5]), (4, vec![64, 64, 300]), (6, vec![300, 1, 7]), (2, vec![5000, 50]), (1, vec![70000, 3]), (2, vec![70000, 40])] {
            for rot in 0..4 {
                v.push(Case::new(format!("long sections={n} chunks={cuts:?} entry={rot}"), Long { n, cuts: cuts.clone(), rot }).validate(1));
            }
        }
        for n in (22..=40).chain([64, 65, 100]) {
            for rot in 0..4 {
                v.push(Case::new(format!("sections={n} chunks=[1, 2] rot={rot}"), Chunks { n, cuts: vec![1, 2], rot, interleave: true }).validate(1).tol(1e-3).extra());
            }
        }
        for n in (1..=8).chain([12, 18, 20]) {
            for rot in 0..4 {
                for p in [-80, 80] {
                    v.push(Case::new(format!("sections={n} chunks=[1, 2] rot={rot}"), Chunks { n, cuts: vec![1, 2], rot, interleave: true }).validate(1).tol(1e-3).scaled(p).extra());
                }
            }
        }
        for &n in &ns {
            let first = v.len();
            for (i, c) in compositions(l).into_iter().enumerate() {
                let name = format!("sections={n} chunks={c:?} rot={}", i % 4);
                v.push(Case::new(name, Chunks { n, cuts: c, rot: i % 4, interleave: i % 3 == 0 }).validate(1).tol(1e-3).extra());
            }
            for (i, c) in [vec![1, 1], vec![0, 2, 0], vec![1, 0, 1], vec![2, 1]].into_iter().enumerate() {
                for rot in 0..4 {
                    v.push(Case::new(format!("sections={n} chunks={c:?} rot={rot}"), Chunks { n, cuts: c.clone(), rot, interleave: i % 2 == 0 }).validate(1).tol(1e-3));
                }
            }
            for c in [vec![4, 4, 4, 4], vec![3, 5, 1, 7], vec![16, 1, 15], vec![1, 31], vec![33, 7]] {
                v.push(Case::new(format!("sections={n} chunks={c:?} long"), Chunks { n, cuts: c, rot: n, interleave: true }).validate(1).tol(1e-3).extra());
            }
            for t in 0..=3 {
                v.push(Case::new(format!("partial iterator sections={n} take={t}"), Partial { n, len: 3, take: t }).validate(1).tol(1e-3));
            }
            if n > 4 {
                for c in v[first..].iter_mut() {
                    c.extra = true;
                }
            }
        }
        v
    });
}
