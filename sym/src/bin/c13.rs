//! C13: zpk2sos_dyn sections multiply back to the filter.
use sci_rs::signal::filter::design::{zpk2sos_dyn, Sos, ZpkFormatFilter, ZpkPairing};
use symcore::harness::*;
use symcore::spec::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Default,
    Nearest,
    DigitalMinimal,
    Analog,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Vals {
    /// every root symbolic
    Sym,
    /// table roots, one zero (pair) symbolic
    OneZ,
    /// table roots, one pole (pair) symbolic
    OneP,
    /// table roots
    Num,
    /// table poles, every real zero at -1 (and the real poles too)
    Ones,
}
const PR: [(f64, f64); 6] = [(-0.5, 0.25), (0.25, 0.75), (-0.25, 0.5), (0.5, 0.625), (0.0, 0.875), (-0.75, 0.125)];
const ZR: [(f64, f64); 6] = [(0.5, 0.75), (-0.25, 1.0), (0.0, 1.0), (-0.625, 0.5), (0.75, 0.25), (-1.0, 0.375)];
const PX: [f64; 7] = [0.625, -0.375, 0.9375, 0.125, -0.875, 0.0, 0.625];
const ZX: [f64; 7] = [-1.0, 1.0, 0.25, -1.0, 0.5, 0.0, 1.5];
fn set<S: Scalar>(cxx: &mut Cx, nm: &str, pairs: usize, reals: usize, vals: Vals, rot: usize, pole: bool) -> Vec<C<S>> {
    let (t, x) = if pole { (&PR, &PX) } else { (&ZR, &ZX) };
    let one = vals == if pole { Vals::OneP } else { Vals::OneZ };
    let mut v = vec![];
    for i in 0..pairs {
        let (a, b): (S, S) = if vals == Vals::Sym || one && i == 0 {
            (cxx.var(&format!("{nm}{i}re"), -1.5, 1.5), cxx.var(&format!("{nm}{i}im"), 0.1, 1.5))
        } else {
            let (a, b) = t[(i + rot) % 6];
            (S::k(a + (i / 6) as f64 / 64.0), S::k(b))
        };
        v.push(cx(a, b));
        v.push(cx(a, -b));
    }
    for i in 0..reals {
        let a: S = if vals == Vals::Sym || one && i == 0 && pairs == 0 { cxx.var(&format!("{nm}r{i}"), -1.5, 1.5) } else { S::k(if vals == Vals::Ones { -1.0 } else { x[(i + rot) % 7] }) };
        v.push(re(a));
    }
    // conjugates apart, reals in between
    if rot % 2 == 1 {
        v.reverse();
    }
    if rot % 3 == 2 {
        let w: Vec<_> = v.iter().step_by(2).chain(v.iter().skip(1).step_by(2)).cloned().collect();
        v = w;
    }
    v
}
fn val<S: Scalar>(p: &[S; 3], x: S) -> S {
    (p[0] * x + p[1]) * x + p[2]
}
struct Back {
    z: (usize, usize),
    p: (usize, usize),
    vals: Vals,
    mode: Mode,
    rot: usize,
    free: bool,
}
fn call<S: Scalar>(z: &[C<S>], p: &[C<S>], k: S, mode: Mode) -> Vec<Sos<S>> {
    let f = ZpkFormatFilter::new(z.to_vec(), p.to_vec(), k);
    let order = z.len().max(p.len());
    match mode {
        Mode::Default => zpk2sos_dyn(order, f, None, None),
        Mode::Nearest => zpk2sos_dyn(order, f, Some(ZpkPairing::Nearest), Some(false)),
        Mode::DigitalMinimal => zpk2sos_dyn(order, f, Some(ZpkPairing::Minimal), Some(false)),
        Mode::Analog => zpk2sos_dyn(order, f, None, Some(true)),
    }
    .sos
}
fn verify<S: Scalar>(cx: &mut Cx, sos: &[Sos<S>], z: &[C<S>], p: &[C<S>], k: S, mode: Mode) {
    let n = z.len().max(p.len());
    let (mut z, mut p) = (z.to_vec(), p.to_vec());
    if matches!(mode, Mode::Default | Mode::Nearest) {
        // digital: the shorter set is filled up with roots at the origin
        z.resize(n, re(S::zero()));
        p.resize(n, re(S::zero()));
    }
    let (z, p) = (&z, &p);
    let want = ((n + 1) / 2).max(1);
    if !cx.check("section count", sos.len() == want) {
        return;
    }
    let x: S = cx.var("x", -2.0, 2.0);
    for (i, s) in sos.iter().enumerate() {
        if n > 0 {
            cx.eq(&format!("a0 of section {i}"), s.a[0], S::one());
        }
        cx.eq(&format!("initial state of section {i}"), s.zi0, S::zero());
        cx.eq(&format!("initial state of section {i}."), s.zi1, S::zero());
    }
    let b = sos.iter().fold(S::one(), |a, s| a * val(&s.b, x));
    let a = sos.iter().fold(S::one(), |a, s| a * val(&s.a, x));
    let (nz, np) = (rootprod(re(x), z), rootprod(re(x), p));
    let pow = |e: usize| (0..e).fold(S::one(), |a, _| a * x);
    if n == 0 {
        cx.lin("gain", b, a * k);
        cx.check("denominator not zero", sos[0].a.iter().any(|c| *c == S::one()));
        return;
    }
    // all sections have degree 2 denominators: extra roots at the origin cancel on both sides
    ceq(cx, "denominator", re(a), np * re(pow(2 * want - p.len())));
    if z.len() <= 2 * want {
        clin(cx, "numerator", re(b), nz * re(k * pow(2 * want - p.len())));
    }
}
impl Harness for Back {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let z: Vec<C<S>> = set(cx, "z", self.z.0, self.z.1, self.vals, self.rot, false);
        let p: Vec<C<S>> = set(cx, "p", self.p.0, self.p.1, self.vals, self.rot, true);
        let k: S = cx.sig("k", 1, -4.0, 4.0)[0];
        if self.free {
            cx.free_explore();
        }
        let sos = call(&z, &p, k, self.mode);
        verify(cx, &sos, &z, &p, k, self.mode);
    }
}
/// real roots with an imaginary part of rounding size are real roots
struct NearReal {
    p: (usize, usize),
    e: f64,
}
impl Harness for NearReal {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let z: Vec<C<S>> = set(cx, "z", self.p.0, self.p.1, Vals::Num, 1, false);
        let p: Vec<C<S>> = set(cx, "p", self.p.0, self.p.1, Vals::Num, 0, true);
        let k: S = cx.var("k", -4.0, 4.0);
        let nudge = |v: &[C<S>]| -> Vec<C<S>> {
            v.iter().enumerate().map(|(i, r)| if r.im == S::zero() && !(r.re == S::zero()) && i % 2 == 0 { symcore::spec::cx(r.re, S::k(self.e)) } else { *r }).collect()
        };
        let sos = call(&nudge(&z), &nudge(&p), k, Mode::Default);
        verify(cx, &sos, &z, &p, k, Mode::Default);
    }
}
/// a conjugate pair close to the real axis, looked at from close by
struct Close {
    pole: bool,
    e: f64,
    mode: Mode,
    with: (usize, usize),
    flip: bool,
}
impl Harness for Close {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let mut one: Vec<C<S>> = set(cx, "r", self.with.0, self.with.1, Vals::Num, 0, self.pole);
        let a: S = S::k(0.75);
        let e: S = S::k(self.e);
        let pair = [symcore::spec::cx(a, e), symcore::spec::cx(a, -e)];
        for i in 0..2 {
            one.insert(0, pair[if self.flip { 1 - i } else { i }]);
        }
        let n = one.len();
        let other: Vec<C<S>> = (0..n).map(|i| re(S::k([0.125, -0.375, 0.25, -0.875, 0.0, 0.5, -0.5][i % 7]))).collect();
        let k: S = cx.var("k", -4.0, 4.0);
        let t: S = cx.var("t", -2.0, 2.0);
        let (z, p) = if self.pole { (&other, &one) } else { (&one, &other) };
        let sos = call(z, p, k, self.mode);
        if !cx.check("section count", sos.len() == (n + 1) / 2) {
            return;
        }
        let x = a + t * e;
        let own = |s: &Sos<S>| val(if self.pole { &s.a } else { &s.b }, x);
        let got = sos.iter().fold(S::one(), |acc, s| acc * own(s));
        let k = if self.pole { S::one() } else { k };
        // measured in units of the distance between the pair
        let extra = (0..2 * sos.len() - n).fold(S::one(), |acc, _| acc * x);
        let rest = rootprod(re(x), &one[2..]).re * extra;
        cx.eq("near the pair", got / (e * e), k * rest * (t * t + S::one()));
    }
}
/// pairs that share their real part, every root displaced by an error of rounding size
struct Noisy {
    ims: Vec<f64>,
    mode: Mode,
    pole: bool,
    rev: bool,
    /// None: symbolic errors of the real parts, Some(bits): one or no unit each
    bits: Option<u32>,
    /// errors of the imaginary parts
    im: bool,
}
impl Harness for Noisy {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let mut one: Vec<C<S>> = vec![];
        let mut nominal: Vec<C<S>> = vec![];
        for (i, b) in self.ims.iter().enumerate() {
            for (j, sg) in [1.0, -1.0].into_iter().enumerate() {
                let at = 2 * i + j;
                let e: S = match self.bits {
                    None => cx.var(&format!("e{at}"), 0.0, 4e-16),
                    Some(m) => S::k(if m >> at & 1 == 1 { 2.220446049250313e-16 } else { 0.0 }),
                };
                let (er, ei) = if self.im { (S::zero(), e) } else { (e, S::zero()) };
                one.push(symcore::spec::cx(S::k(0.5) + er, S::k(sg * b) + ei));
                nominal.push(symcore::spec::cx(S::k(0.5), S::k(sg * b)));
            }
        }
        if self.rev {
            one.reverse();
        }
        let n = one.len();
        let other: Vec<C<S>> = (0..n).map(|i| re(S::k([0.125, -0.375, 0.25, -0.875, 0.0, -0.5][i % 6]))).collect();
        let k: S = cx.var("k", 0.5, 4.0);
        let (z, p) = if self.pole { (&other, &one) } else { (&one, &other) };
        let sos = call(z, p, k, self.mode);
        if !cx.check("section count", sos.len() == n / 2) {
            return;
        }
        for x in [-0.75, 0.0, 0.5, 0.625, 1.0, 1.5] {
            let x = S::k(x);
            let got = sos.iter().fold(S::one(), |acc, s| acc * val(if self.pole { &s.a } else { &s.b }, x));
            let want = rootprod(re(x), &nominal).re * if self.pole { S::one() } else { k };
            cx.near("the nominal filter", got, want, 1e-9);
        }
    }
}
/// complex roots without a conjugate partner
struct Lone {
    close: bool,
    pole: bool,
    kind: usize,
    mode: Mode,
    with: (usize, usize),
}
impl Harness for Lone {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let mut bad: Vec<C<S>> = set(cx, "r", self.with.0, self.with.1, Vals::Num, 0, self.pole);
        let a: S = cx.var("a", -1.5, 1.5);
        let (b, d): (S, S) = if self.close {
            (cx.var("b", 1e-9, 1e-3), cx.var("d", 1e-9, 1e-3))
        } else {
            (cx.var("b", 0.2, 1.5), cx.var("d", 0.05, 0.3))
        };
        match self.kind {
            0 => bad.push(symcore::spec::cx(a, b)),
            1 => bad.push(symcore::spec::cx(a, -b)),
            2 => {
                bad.push(symcore::spec::cx(a, b));
                bad.push(symcore::spec::cx(a + d, -b));
            }
            3 => {
                bad.push(symcore::spec::cx(a, b));
                bad.push(symcore::spec::cx(a, -(b + d)));
            }
            4 => {
                bad.push(symcore::spec::cx(a, b));
                bad.push(symcore::spec::cx(a, b));
            }
            _ => {
                bad.push(symcore::spec::cx(a, -b));
                bad.push(symcore::spec::cx(a, -b));
            }
        }
        let n = bad.len();
        let good: Vec<C<S>> = (0..n).map(|i| re(S::k(PX[i % 7]))).collect();
        let k: S = cx.var("k", -4.0, 4.0);
        let (z, p) = if self.pole { (good, bad) } else { (bad, good) };
        cx.must_panic("unpaired root rejected", || call(&z, &p, k, self.mode));
    }
}
fn main() {
    symcore::harness::main("C13", |thorough| {
        let mut v = vec![];
        let top = if thorough { 5 } else { 3 };
        for mode in [Mode::Default, Mode::Nearest, Mode::DigitalMinimal, Mode::Analog] {
            for pp in 0..=3usize {
                for pr in 0..=5usize {
                    for zp in 0..=3usize {
                        for zr in 0..=5usize {
                            let (np, nz) = (2 * pp + pr, 2 * zp + zr);
                            let minimal = matches!(mode, Mode::DigitalMinimal | Mode::Analog);
                            if minimal && nz > np || np > 7 || nz > 7 || mode == Mode::Nearest && np + nz > 5 {
                                continue;
                            }
                            let nm = format!("{mode:?} zeros={zp}pairs+{zr} poles={pp}pairs+{pr}");
                            for rot in 0..if thorough { 6 } else { 3 } {
                                v.push(Case::new(format!("numeric {nm} rot={rot}"), Back { z: (zp, zr), p: (pp, pr), vals: Vals::Num, mode, rot, free: false }).validate(1).tol(1e-6));
                            }
                            if np + nz <= top && np > 0 {
                                let c = Case::new(format!("symbolic {nm}"), Back { z: (zp, zr), p: (pp, pr), vals: Vals::Sym, mode, rot: 0, free: false }).validate(2).secs(if thorough { 600.0 } else { 40.0 });
                                v.push(if np + nz > 3 { c.extra() } else { c });
                            }
                            if mode != Mode::Nearest && np + nz > 2 && np + nz <= if thorough { 9 } else { 6 } && np > 0 {
                                for (vals, n, t) in [(Vals::OneZ, nz, "zero"), (Vals::OneP, np, "pole")] {
                                    if n > 0 {
                                        v.push(Case::new(format!("one-symbolic-{t} {nm}"), Back { z: (zp, zr), p: (pp, pr), vals, mode, rot: 1, free: false }).validate(2).secs(40.0).extra());
                                    }
                                }
                            }
                        }
                    }
                }
            }
            for (i, (z, p)) in [((4, 0), (4, 0)), ((0, 8), (4, 0)), ((0, 9), (4, 1)), ((5, 0), (5, 0)), ((3, 5), (5, 1)), ((2, 6), (5, 2)), ((0, 8), (0, 8)), ((4, 0), (0, 8)), ((4, 1), (0, 9)), ((6, 0), (6, 0)), ((6, 1), (6, 1)), ((0, 13), (6, 1)), ((7, 2), (8, 0)), ((0, 16), (8, 0)), ((8, 0), (8, 0)), ((3, 0), (7, 0)), ((0, 2), (4, 3)), ((10, 0), (10, 0)), ((0, 0), (5, 0)), ((0, 20), (10, 0))].into_iter().enumerate() {
                for (vals, t) in [(Vals::Num, "numeric"), (Vals::Ones, "zeros at -1")] {
                    if p.1 < 5 || vals == Vals::Num {
                        v.push(Case::new(format!("high order {t} {mode:?} zeros={z:?} poles={p:?}"), Back { z, p, vals, mode, rot: i % 3, free: false }).validate(1).tol(1e-4));
                    }
                }
            }
            for (z, p) in [((0, 0), (1, 0)), ((0, 2), (1, 0)), ((1, 1), (1, 1)), ((2, 0), (2, 0)), ((0, 3), (0, 3)), ((0, 0), (0, 0))] {
                for e in [-80, -40, 40] {
                    v.push(Case::new(format!("gain {mode:?} zeros={z:?} poles={p:?}"), Back { z, p, vals: Vals::Num, mode, rot: 0, free: false }).validate(1).scaled(e));
                }
            }
            for pole in [false, true] {
                for kind in 0..6 {
                    for with in [(0, 0), (0, 1), (1, 0), (1, 2)] {
                        v.push(Case::new(format!("lone {mode:?} pole={pole} kind={kind} with={with:?}"), Lone { close: false, pole, kind, mode, with }).validate(1).secs(60.0));
                        v.push(Case::new(format!("lone close {mode:?} pole={pole} kind={kind} with={with:?}"), Lone { close: true, pole, kind, mode, with }).validate(1).secs(60.0));
                    }
                }
            }
        }
        for mode in [Mode::Default, Mode::Nearest, Mode::DigitalMinimal, Mode::Analog] {
            for pole in [false, true] {
                for with in [(0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (1, 2)] {
                    for e in [3e-2, 4e-3, 3e-4, 1e-4, 1e-5] {
                        for flip in [false, true] {
                            v.push(Case::new(format!("close pair {mode:?} pole={pole} with={with:?} e={e:e} flip={flip}"), Close { pole, e, mode, with, flip }).validate(1).tol(1e-3));
                        }
                    }
                }
            }
        }
        for mode in [Mode::Default, Mode::Analog] {
            for pole in [false, true] {
                for rev in [false, true] {
                    for im in [false, true] {
                        for ims in [vec![0.5], vec![0.5, 0.25], vec![0.25, 0.5]] {
                            v.push(Case::new(format!("noisy {mode:?} pole={pole} {ims:?} rev={rev} im={im} symbolic"), Noisy { ims, mode, pole, rev, bits: None, im }).validate(2).secs(60.0).extra());
                        }
                        for bits in 0..16 {
                            v.push(Case::new(format!("noisy {mode:?} pole={pole} rev={rev} im={im} bits={bits}"), Noisy { ims: vec![0.5, 0.25], mode, pole, rev, bits: Some(bits), im }).validate(1));
                        }
                        for bits in [1, 5, 9, 21, 22, 37, 42, 41] {
                            v.push(Case::new(format!("noisy three {mode:?} pole={pole} rev={rev} im={im} bits={bits}"), Noisy { ims: vec![0.5, 0.25, 0.75], mode, pole, rev, bits: Some(bits), im }).validate(1));
                        }
                    }
                }
            }
        }
        for p in [(0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (2, 2), (1, 3), (2, 3)] {
            for e in [1e-17, -1e-17, 3e-16, 1e-15] {
                v.push(Case::new(format!("near-real {p:?} im={e:e}"), NearReal { p, e }).validate(1));
            }
        }
        v
    });
}
