//! C25: companion matrix.
use sci_rs::linalg::companion_dyn;
use symcore::harness::*;

struct Comp {
    m: usize,
    owned: bool,
}
impl Harness for Comp {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let m = self.m;
        let a: Vec<S> = cx.vars("a", m, -5.0, 5.0);
        if S::SYM {
            cx.assume(a[0] != S::zero());
        } else {
            cx.assume(a[0] > S::k(0.05) || a[0] < S::k(-0.05));
        }
        let a: Vec<S> = if cx.pow == 0 { a } else { a.into_iter().map(|v| v * cx.up::<S>()).collect() };
        let c = if self.owned { companion_dyn(a.clone().into_iter(), m) } else { companion_dyn(a.iter(), m) };
        cx.check("shape", c.shape() == (m - 1, m - 1));
        for i in 0..m - 1 {
            for j in 0..m - 1 {
                let want = if i == 0 { -a[j + 1] / a[0] } else if i == j + 1 { S::one() } else { S::zero() };
                cx.eq(&format!("c[{i},{j}]"), c[(i, j)], want);
            }
        }
        if m <= 6 {
            // characteristic polynomial by Faddeev-LeVerrier
            let n = m - 1;
            let mut mk = vec![vec![S::zero(); n]; n];
            let mut coef = vec![S::one()];
            for k in 1..=n {
                // M_k = A M_{k-1} + c I
                let mut nx = vec![vec![S::zero(); n]; n];
                for i in 0..n {
                    for j in 0..n {
                        let mut s = S::zero();
                        for l in 0..n {
                            s = s + c[(i, l)] * mk[l][j];
                        }
                        nx[i][j] = s + if i == j { coef[k - 1] } else { S::zero() };
                    }
                }
                let mut tr = S::zero();
                for i in 0..n {
                    for l in 0..n {
                        tr = tr + c[(i, l)] * nx[l][i];
                    }
                }
                coef.push(-tr / S::k(k as f64));
                mk = nx;
            }
            for k in 0..=n {
                cx.eq(&format!("charpoly[{k}]"), coef[k], a[k] / a[0]);
            }
        }
    }
}
/// stated size and coefficient count disagree
struct Mismatch {
    given: usize,
    m: usize,
}
impl Harness for Mismatch {
    fn run<S: Scalar>(&self, cx: &mut Cx) {
        let a: Vec<S> = cx.vars("a", self.given, 0.5, 5.0);
        let m = self.m;
        // guard rows around the result are not observable through the public API, so the
        // requirement is: a clean panic, or a matrix of the stated shape whose first row holds
        // the first m-1 ratios (missing ones zero)
        let r = cx.catch(|| companion_dyn(a.iter(), m));
        if m < 2 || self.given == 0 {
            cx.check("rejected", r.is_none());
            return;
        }
        match r {
            None => {
                cx.check("panic only on disagreeing sizes", self.given != m);
            }
            Some(c) => {
                if cx.check("shape", m >= 1 && c.shape() == (m - 1, m - 1)) {
                    for i in 0..m - 1 {
                        for j in 0..m - 1 {
                            let want = if i == 0 { if j + 1 < self.given { -a[j + 1] / a[0] } else { S::zero() } } else if i == j + 1 { S::one() } else { S::zero() };
                            cx.eq(&format!("c[{i},{j}]"), c[(i, j)], want);
                        }
                    }
                }
            }
        }
    }
}
fn main() {
    symcore::harness::main("C25", |thorough| {
        let mut v = vec![];
        let mx = if thorough { 40 } else { 20 };
        for m in 2..=mx {
            for owned in [false, true] {
                v.push(Case::new(format!("companion m={m} owned={owned}"), Comp { m, owned }));
            }
        }
        for m in [2, 4, 7, 50, 101] {
            for p in [-80, 0, 80] {
                v.push(Case::new(format!("companion m={m}"), Comp { m, owned: false }).scaled(p));
            }
        }
        // fewer or more coefficients than stated; sizes below two and empty lists
        for m in 0..=8usize {
            for given in 0..=m + 3 {
                if m < 2 || given != m {
                    v.push(Case::new(format!("other source given={given} m={m}"), Mismatch { given, m }));
                }
            }
        }
        v
    });
}
