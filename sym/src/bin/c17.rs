//! C17: median, median absolute deviation and modified z-score as order statistics.
use num_traits::{Float, One, Zero};
use sci_rs::stats::{median, median_abs_deviation, mod_zscore};
use symcore::harness::*;
use symcore::whole;

/// insertion sort on symbolic comparisons
fn sorted<S: Scalar>(x: &[S]) -> Vec<S> {
    let mut v: Vec<S> = vec![];
    for a in x {
        let mut i = v.len();
        while i > 0 && v[i - 1] > *a {
            i -= 1;
        }
        v.insert(i, *a);
    }
    v
}
fn med<S: Scalar>(x: &[S]) -> S {
    let v = sorted(x);
    let n = v.len();
    if n % 2 == 1 {
        v[n / 2]
    } else {
        (v[n / 2 - 1] + v[n / 2]) / S::k(2.0)
    }
}
/// which samples are symbolic
fn signal<S: Scalar>(cx: &mut Cx, n: usize, free: &[usize], table: usize) -> Vec<S> {
    const T: [[i32; 12]; 4] = [
        [3, -1, 4, 1, -5, 9, 2, -6, 5, 3, -5, 8],
        [1, 1, 1, 2, 2, 0, 1, 0, 2, 1, 1, 0],
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11],
        [11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0],
    ];
    let u: S = cx.up();
    let flat = cx.pow == 0;
    (0..n).map(|i| if free.contains(&i) { cx.var(&format!("x{i}"), -12.0, 12.0) } else { S::k(T[table][i % 12] as f64 + (i / 12) as f64 * 0.5) }).map(|v: S| if flat { v } else { v * u }).collect()
}
struct Med {
    n: usize,
    free: Vec<usize>,
    table: usize,
    owned: bool,
}
impl Harness for Med {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let x: Vec<S> = signal(cx, self.n, &self.free, self.table);
        let (m, c): (S, usize) = if self.owned { median(x.clone().into_iter().filter(|_| true)) } else { median(x.iter()) };
        cx.check("count", c == self.n);
        if self.n == 0 {
            cx.eq("empty", m, S::zero());
            return;
        }
        cx.lin("median", m, med(&x));
    }
}
/// median of integer samples: for an even count half the sum of the middle two, rounded to a neighbouring integer
struct IntMed {
    n: usize,
    free: Vec<usize>,
}
impl Harness for IntMed {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let x: Vec<S::W> = whole::signal::<S>(cx, self.n, &self.free, -20, 20);
        let (m, c): (S::W, usize) = median(x.iter());
        cx.check("count", c == self.n);
        let mut v: Vec<S::W> = vec![];
        for a in &x {
            let mut i = v.len();
            while i > 0 && v[i - 1] > *a {
                i -= 1;
            }
            v.insert(i, *a);
        }
        let n = self.n;
        let (a, b) = match n {
            0 => (S::W::zero(), S::W::zero()),
            n if n % 2 == 1 => (v[n / 2], v[n / 2]),
            _ => (v[n / 2 - 1], v[n / 2]),
        };
        let off = a + b - (m + m);
        let ok = if a == b { off == S::W::zero() } else { off < S::W::one() + S::W::one() && S::W::zero() - (S::W::one() + S::W::one()) < off };
        cx.check("integer median", ok);
    }
}
struct Mad {
    n: usize,
    free: Vec<usize>,
    table: usize,
    owned: bool,
    z: bool,
}
impl Harness for Mad {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let x: Vec<S> = signal(cx, self.n, &self.free, self.table);
        if self.n == 0 {
            let (m, c): (S, usize) = median_abs_deviation(x.iter());
            cx.check("count", c == 0);
            cx.eq("empty", m, S::zero());
            return;
        }
        let c = med(&x);
        let mad = med(&x.iter().map(|a| Float::abs(*a - c)).collect::<Vec<_>>());
        if !self.z {
            let (m, cnt): (S, usize) = if self.owned { median_abs_deviation(x.clone().into_iter().filter(|_| true)) } else { median_abs_deviation(x.iter()) };
            cx.check("count", cnt == self.n);
            cx.lin("mad", m, mad);
            return;
        }
        cx.assume(mad > S::zero());
        let z: Vec<S> = if self.owned { mod_zscore(x.clone().into_iter().filter(|_| true)).collect() } else { mod_zscore(x.iter()).collect() };
        if cx.check("length", z.len() == self.n) {
            for i in 0..self.n {
                cx.lin(&format!("mod_zscore[{i}]"), z[i] * mad, S::k(0.6745) * (x[i] - c));
            }
        }
    }
}
fn main() {
    symcore::harness::main("C17", |thorough| {
        let mut v = vec![];
        let all = |n: usize| (0..n).collect::<Vec<_>>();
        for n in 0..=if thorough { 6 } else { 5 } {
            for owned in [false, true] {
                v.push(Case::new(format!("median n={n} owned={owned}"), Med { n, free: all(n), table: 0, owned }).paths(400000).secs(if thorough { 3000.0 } else { 300.0 }));
            }
        }
        for n in 0..=if thorough { 4 } else { 3 } {
            for z in [false, true] {
                if z && n < 2 {
                    continue;
                }
                v.push(Case::new(format!("mad n={n} zscore={z}"), Mad { n, free: all(n), table: 0, owned: n % 2 == 0, z }).paths(400000).secs(if thorough { 3000.0 } else { 300.0 }));
            }
        }
        for n in 0..=if thorough { 5 } else { 4usize } {
            v.push(Case::new(format!("integer median n={n}"), IntMed { n, free: all(n) }).paths(400000).secs(if thorough { 3000.0 } else { 200.0 }));
        }
        for n in [5usize, 6, 9, 10, 16, 21] {
            v.push(Case::new(format!("integer median n={n} symbolic in part"), IntMed { n, free: if n < 8 { vec![n / 4, n - 2] } else { vec![n / 2] } }).paths(20000).secs(60.0));
        }
        for n in 2..=3 {
            for p in [-80, 80] {
                v.push(Case::new(format!("median n={n}"), Med { n, free: all(n), table: 0, owned: false }).paths(400000).scaled(p));
                for z in [false, true] {
                    v.push(Case::new(format!("mad n={n} zscore={z}"), Mad { n, free: all(n), table: 0, owned: false, z }).paths(400000).scaled(p));
                }
            }
        }
        for n in [19usize, 20, 33, 40] {
            for table in 0..4 {
                let free = vec![n / 3];
                let nm = format!("n={n} free={free:?} table={table}");
                v.push(Case::new(format!("median {nm}"), Med { n, free: free.clone(), table, owned: n % 2 == 1 }).paths(20000).secs(60.0));
                if n < 30 {
                    v.push(Case::new(format!("mad {nm}"), Mad { n, free: free.clone(), table, owned: n % 2 == 0, z: false }).paths(20000).secs(60.0));
                }
            }
        }
        for n in 4..=if thorough { 26usize } else { 14 } {
            for table in 0..4 {
                for off in 0..if thorough { n } else { 3 } {
                    let free = vec![off * (n / 3).max(1) % n, (off * (n / 3).max(1) + n / 2) % n];
                    let nm = format!("n={n} free={free:?} table={table}");
                    v.push(Case::new(format!("median {nm}"), Med { n, free: free.clone(), table, owned: off == 1 }).paths(20000).secs(60.0));
                    v.push(Case::new(format!("mad {nm}"), Mad { n, free: free[..1].to_vec(), table, owned: off == 1, z: false }).paths(20000).secs(60.0));
                    v.push(Case::new(format!("mod_zscore {nm}"), Mad { n, free: free[1..].to_vec(), table: if table == 1 { 0 } else { table }, owned: off == 2, z: true }).paths(20000).secs(60.0));
                }
            }
        }
        v
    });
}
