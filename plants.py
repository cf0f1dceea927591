PLANTS = {}
def plant(i, prop, edits, needs, breaks, demo):
    PLANTS[i] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)
D = "signal/filter/design/"
SF = "signal/filter/sosfilt.rs"
plant("p01", "C01", [(SF, "sos[..18].iter_mut()", "sos[..17].iter_mut()")],
 "a cascade of exactly 18 sections through sosfilt_dyn", "the last of 18 sections is skipped",
'''use sci_rs::signal::filter::{design::Sos, sosfilt_dyn, sosfilt_item};
fn main() {
    for n in 1..24 {
        let s: Vec<Sos<f64>> = (0..n).map(|i| Sos::new([0.5, 0.25, 0.125], [1.0, -0.3 + 0.01 * i as f64, 0.1])).collect();
        let x = [1.0, -2.0, 0.5, 3.0, 1.0, 0.0, 0.0, 4.0];
        let (mut a, mut b) = (s.clone(), s);
        let y = sosfilt_dyn(x.iter(), &mut a);
        for (xi, yi) in x.iter().zip(&y) {
            let r: f64 = sosfilt_item(*xi, &mut b);
            assert!((r - yi).abs() < 1e-12 * (1.0 + r.abs()), "{n} sections: {yi} != {r}");
        }
    }
}
''')
plant("p02", "C04", [("signal/filter/lfilter_zi.rs", "        b = b.iter_mut().map(|xi| *xi / a0).collect();\n", "        b[1..].iter_mut().for_each(|xi| *xi /= a0);\n")],
 "coefficients with a[0] != 1 and b[0] != 0", "the steady state is computed with an unnormalised b[0]",
'''use sci_rs::signal::filter::lfilter_zi_dyn;
fn main() {
    let (b, a) = ([0.5f64, 0.3, 0.2], [1.0, -0.4, 0.1]);
    let z1 = lfilter_zi_dyn(&b, &a);
    let z2 = lfilter_zi_dyn(&b.map(|x| 2.0 * x), &a.map(|x| 2.0 * x));
    for (p, q) in z1.iter().zip(&z2) { assert!((p - q).abs() < 1e-12, "{z1:?} {z2:?}"); }
}
''')
plant("p03", "C05", [("signal/filter/sosfiltfilt.rs", "ntaps - min(bzeros, azeros)", "ntaps - bzeros")],
 "a section whose b[2] is zero while a[2] is not", "the extension is shorter than three times the filter length",
'''use sci_rs::signal::filter::{design::Sos, sosfiltfilt_dyn};
fn main() {
    let s = [Sos::new([0.5, 0.25, 0.0], [1.0, -0.3, 0.1])];
    // nine samples are not more than 3 * 3
    let x: Vec<f64> = (0..9).map(|i| (i * i % 5) as f64).collect();
    let r = std::panic::catch_unwind(|| sosfiltfilt_dyn(x.iter(), &s));
    assert!(r.is_err(), "signal of nine samples accepted");
}
''')
plant("p04", "C06", [("signal/filter/ext.rs", "two * *first_row.index(j) - *x.get_unchecked((n - i, j));", "two * *first_row.index(0) - *x.get_unchecked((n - i, j));")],
 "extension along axis 0 of a matrix with several columns", "every column is extended about the first column's first value",
'''use nalgebra::DMatrix;
use sci_rs::signal::filter::odd_ext_dyn;
fn main() {
    let x = DMatrix::from_row_slice(2, 4, &[1.0f64, 2.0, 4.0, 8.0, 0.0, 1.0, 0.0, 3.0]);
    let y = odd_ext_dyn(x.clone(), 2, 1);
    let t = odd_ext_dyn(DMatrix::from_fn(4, 2, |i, j| x[(j, i)]), 2, 0);
    for i in 0..2 { for j in 0..8 { assert_eq!(y[(i, j)], t[(j, i)]); } }
}
''')
plant("p05", "C07", [(D + "bilinear_zpk.rs", "let k_z = zpk.k * (num / denom).real();", "let k_z = zpk.k * ComplexField::abs(num / denom);")],
 "an odd number of real roots beyond 2*fs", "the sign of the gain is lost",
'''use nalgebra::Complex;
use sci_rs::signal::filter::design::{bilinear_zpk_dyn, ZpkFormatFilter};
fn main() {
    let (z, p, k, fs) = (5.0f64, -1.0, 2.0, 1.0);
    let f = bilinear_zpk_dyn(ZpkFormatFilter::new(vec![Complex::new(z, 0.0)], vec![Complex::new(p, 0.0)], k), fs);
    let x = 1.5f64;
    let s = 2.0 * fs * (x - 1.0) / (x + 1.0);
    let want = k * (s - z) / (s - p);
    let got = f.k * (x - f.z[0].re) / (x - f.p[0].re);
    assert!((want - got).abs() < 1e-9, "{want} {got}");
}
''')
plant("p06", "C08", [(D + "lp2hp_zpk.rs", "let k_hp = zpk.k * (num / denom).real();", "let k_hp = zpk.k * (num / ComplexField::abs(denom)).real();")],
 "a prototype with an odd number of positive real poles", "the sign of the highpass gain is lost",
'''use nalgebra::Complex;
use sci_rs::signal::filter::design::{lp2hp_zpk_dyn, ZpkFormatFilter};
fn main() {
    // 1/(s-2) at s -> 3/s
    let f = lp2hp_zpk_dyn(ZpkFormatFilter::new(vec![], vec![Complex::new(2.0f64, 0.0)], 1.0), Some(3.0));
    let s = 0.7;
    let got = f.k * (s - f.z[0].re) / (s - f.p[0].re);
    let want = 1.0 / (3.0 / s - 2.0);
    assert!((got - want).abs() < 1e-9, "{got} {want}");
}
''')
plant("p07", "C09", [(D + "lp2bs_zpk.rs", "let bw = bw.unwrap_or_else(F::one);", "let bw = bw.unwrap_or(wo);")],
 "the bandwidth left out with a centre other than one", "the default bandwidth is the centre frequency",
'''use nalgebra::Complex;
use sci_rs::signal::filter::design::{lp2bs_zpk_dyn, ZpkFormatFilter};
fn main() {
    let f = || ZpkFormatFilter::new(vec![], vec![Complex::new(-1.0f64, 0.0)], 1.0);
    let (a, b) = (lp2bs_zpk_dyn(f(), Some(3.0), None), lp2bs_zpk_dyn(f(), Some(3.0), Some(1.0)));
    for (p, q) in a.p.iter().zip(&b.p) { assert!((p - q).norm() < 1e-9, "{p} {q}"); }
}
''')
plant("p08", "C10", [(D + "iirfilter.rs", "    if n % 2 == 0 {\n        k /= Float::sqrt", "    if n % 2 == 0 && n < 10 {\n        k /= Float::sqrt")],
 "an even Chebyshev I prototype of order 10 or more", "the passband gain exceeds one by the ripple",
'''use sci_rs::signal::filter::design::cheb1ap_dyn;
fn main() {
    for n in 1..13 {
        let f = cheb1ap_dyn(n, 3.0f64);
        let d = f.p.iter().fold(nalgebra::Complex::new(1.0, 0.0), |a, p| a * -p);
        let want = if n % 2 == 0 { 10f64.powf(-3.0 / 20.0) } else { 1.0 };
        assert!((f.k / d.re - want).abs() < 1e-6, "order {n}: {}", f.k / d.re);
    }
}
''')
plant("p09", "C11", [(D + "iirfilter.rs", "let bw = warped[1] - warped[0];\n            let wo = Float::sqrt(warped[0] * warped[1]);\n            lp2bs_zpk_dyn", "let bw = warped[1] - warped[0];\n            let wo = (warped[0] + warped[1]) / F::from(2.).unwrap();\n            lp2bs_zpk_dyn")],
 "a bandstop design", "the stopband is centred at the arithmetic mean of the edges",
'''use sci_rs::signal::filter::design::*;
fn main() {
    let f = butter_dyn(2, vec![1.0f64, 4.0], Some(FilterBandType::Bandstop), Some(true), Some(FilterOutputType::Zpk), None);
    let DigitalFilter::Zpk(f) = f else { panic!() };
    for z in f.z { assert!((z.im.abs() - 2.0).abs() < 1e-9, "{z}"); }
}
''')
plant("p10", "C13", [(D + "zpk2sos.rs", "            let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Complex);\n            let z1 = z.remove(z1_idx);\n            let sos_si = single_zpksos_dyn(vec![z1, z1.conj()]", "            let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Any);\n            let z1 = z.remove(z1_idx);\n            let sos_si = single_zpksos_dyn(vec![z1, z1.conj()]")],
 "one real pole and one real zero left, the real zero nearer to the worst complex pole", "a real zero is doubled and the sections no longer multiply back",
'''use nalgebra::Complex;
use sci_rs::signal::filter::design::*;
fn main() {
    let c = |a: f64, b: f64| Complex::new(a, b);
    let z = vec![c(0.9, 0.0), c(-0.5, 0.8), c(-0.5, -0.8)];
    let p = vec![c(0.9, 0.1), c(0.9, -0.1), c(0.2, 0.0)];
    for mode in [Some(ZpkPairing::Minimal), None] {
        let f = ZpkFormatFilter::new(z.clone(), p.clone(), 1.0);
        let s = zpk2sos_dyn(3, f, mode, None);
        let x = 1.7;
        let h = |v: &[f64; 3]| (v[0] * x + v[1]) * x + v[2];
        let got: f64 = s.sos.iter().map(|s| h(&s.b) / h(&s.a)).product();
        let val = |r: &Vec<Complex<f64>>| r.iter().fold(c(1.0, 0.0), |a, r| a * (c(x, 0.0) - r)).re;
        let want = val(&z) / val(&p);
        assert!((got - want).abs() < 1e-9, "{got} {want}");
    }
}
''')
plant("p11", "C14", [(D + "iirfilter.rs", "if wn.iter().any(|wi| *wi <= F::zero() || *wi >= F::one()) {", "if wn.iter().any(|wi| *wi <= F::zero() || *wi > F::one()) {")],
 "a digital critical frequency exactly at Nyquist", "it is accepted",
'''use sci_rs::signal::filter::design::*;
fn main() {
    let r = std::panic::catch_unwind(|| { butter_dyn(2, vec![50.0f64], Some(FilterBandType::Lowpass), Some(false), Some(FilterOutputType::Sos), Some(100.0)); });
    assert!(r.is_err(), "a cutoff at Nyquist is accepted");
}
''')
plant("p12", "C17", [("stats.rs", "    let pivots = n - lowers - uppers;", "    let pivots = (n - lowers - uppers).min(2);")],
 "at least three samples equal to the pivot", "the selection looks for the rank among the wrong samples",
'''use sci_rs::stats::median;
fn main() {
    for x in [vec![1.0f64, 1.0, 1.0, 5.0], vec![2.0, 2.0, 2.0, 2.0, 9.0, 10.0, 11.0], vec![3.0, 3.0, 3.0, 3.0, 3.0, 8.0, 9.0, 7.0]] {
        let mut s = x.clone();
        s.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let n = s.len();
        let want = if n % 2 == 1 { s[n / 2] } else { (s[n / 2] + s[n / 2 - 1]) / 2.0 };
        let (m, _): (f64, usize) = median(x.iter());
        assert_eq!(m, want, "{x:?}");
    }
}
''')
plant("p13", "C12", [(D + "zpk2tf.rs", "            let u_i = if i > a.len() { i - KER } else { 0 };\n            let u_f = i.min(a.len() - 1);", "            let u_i = if i > a.len() { i - KER } else { 0 };\n            let u_f = i.min(a.len() - 1).min(8);")],
 "more than nine roots", "the low coefficients are missing terms",
'''use sci_rs::signal::filter::design::poly_dyn;
fn main() {
    for n in 1..14 {
        let r: Vec<f64> = (0..n).map(|i| 0.25 + 0.125 * i as f64).collect();
        let p = poly_dyn(&r);
        let x = 2.5;
        let got = p.iter().fold(0.0, |a, c| a * x + c);
        let want: f64 = r.iter().map(|r| x - r).product();
        assert!((got - want).abs() < 1e-9 * (1.0 + want.abs()), "{n}: {got} {want}");
    }
}
''')
plant("p14", "C16", [("stats.rs", "        .zip(y.skip(k))\n        .map(|(fi, fik)| (*fi.borrow() - avg) * (*fik.borrow() - avg))", "        .zip(y.skip(k))\n        .map(|(fi, fik)| *fi.borrow() * *fik.borrow() - avg * avg)")],
 "a lag whose leading and trailing partial means differ from the mean", "products are centred by the square of the mean",
'''use sci_rs::stats::autocorr;
fn main() {
    let x = [1.0f64, 2.0, 4.0, 9.0, 1.0, 0.0, 3.0];
    let n = x.len() as f64;
    let m = x.iter().sum::<f64>() / n;
    let v = x.iter().map(|a| (a - m) * (a - m)).sum::<f64>();
    for k in 0..7 {
        let want: f64 = (0..7 - k).map(|i| (x[i] - m) * (x[i + k] - m)).sum::<f64>() / v;
        let got: f64 = autocorr(x.iter(), k);
        assert!((want - got).abs() < 1e-9, "lag {k}: {got} {want}");
    }
}
''')
BQ = "        sos.zi1 = sos.b[2] * x_curr - sos.a[2] * x_new;\n        x_new\n    })\n}\n"
plant("p20", "C02", [(SF, BQ, "        let tail = sos.b[2] * x_curr - sos.a[2] * x_new;\n        // flush denormals\n        sos.zi1 = if tail.abs() < F::default_epsilon() { F::zero() } else { tail };\n        x_new\n    })\n}\n")],
 "a signal that becomes small", "sosfilt_item loses part of the state, so feeding samples one by one differs from one sosfilt_dyn call",
'''use sci_rs::signal::filter::{design::Sos, sosfilt_dyn, sosfilt_item};
fn main() {
    let s = vec![Sos::new([0.0f64, 0.0, 1.0], [1.0, 0.0, 0.0]); 2];
    let x: Vec<f64> = (0..12).map(|i| if i == 0 { 1e-17 } else { 0.0 }).collect();
    let (mut a, mut b) = (s.clone(), s);
    let y = sosfilt_dyn(x.iter(), &mut a);
    let z: Vec<f64> = x.iter().map(|x| sosfilt_item(*x, &mut b)).collect();
    assert_eq!(y, z);
}
''')
plant("p21", "C02", [(SF, "    match sos.len() {\n        2 => y\n            .into_iter()", "    match sos.len() {\n        2 => y\n            .into_iter()\n            .take(1 << 16)")],
 "two sections and a chunk of more than 65536 samples", "the tail of a long chunk is dropped",
'''use sci_rs::signal::filter::{design::Sos, sosfilt_dyn};
fn main() {
    let s = vec![Sos::new([0.5f64, 0.0, 1.0], [1.0, 0.5, 0.0]); 2];
    let x = vec![1.0f64; 70000];
    assert_eq!(sosfilt_dyn(x.iter(), &mut s.clone()).len(), 70000);
}
''')
plant("p22", "C03", [(SF, "            y.chunks_exact(TILE)\n                .zip(z.chunks_exact_mut(TILE))\n                .for_each(|c| {\n                    for (yi, zi) in c.0.iter().zip(c.1.iter_mut()) {\n                        *zi = *yi;\n                        for s in sos.iter_mut() {", "            y.chunks_exact(TILE)\n                .zip(z.chunks_exact_mut(TILE))\n                .for_each(|c| {\n                    for (yi, zi) in c.0.iter().zip(c.1.iter_mut()) {\n                        *zi = *yi;\n                        for s in sos[..8].iter_mut() {", 4)],
 "ten sections and a length that is a multiple of four", "the last two of ten sections are skipped",
'''use sci_rs::signal::filter::{design::Sos, sosfilt_fast32_st, sosfilt_item};
fn main() {
    for n in 0..13usize {
        for len in [4usize, 7, 8] {
            let s: Vec<Sos<f32>> = (0..n).map(|i| Sos::new([1.0, 0.25 + 0.05 * i as f32, 0.125], [1.0, -0.25, 0.125])).collect();
            let x: Vec<f32> = (0..len).map(|i| 1.0 + i as f32).collect();
            let mut z = vec![0.0f32; len];
            let (mut a, mut b) = (s.clone(), s);
            sosfilt_fast32_st(&x, &mut a, &mut z);
            for i in 0..len {
                let w: f32 = sosfilt_item(x[i], &mut b);
                assert!((w - z[i]).abs() <= 1e-3 * (1.0 + w.abs()), "{n} sections, length {len}: {} {w}", z[i]);
            }
        }
    }
}
''')
plant("p23", "C03", [(SF, "    if y.len() != z.len() {", "    if y.len() > z.len() {", 0)],
 "an output longer than the input", "the call is accepted and leaves the end of the output unwritten",
'''use sci_rs::signal::filter::{design::Sos, sosfilt_fast32_st};
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut s = vec![Sos::new([1.0f32, 0.25, 0.125], [1.0, -0.25, 0.125])];
        let mut z = [0.0f32; 5];
        sosfilt_fast32_st(&[1.0, 2.0, 3.0], &mut s, &mut z);
    });
    assert!(r.is_err());
}
''')
plant("p24", "C06", [("signal/filter/ext.rs", "two * *first_row.index(j) - *x.get_unchecked((n - i, j));", "two * *first_row.index(j.min(1)) - *x.get_unchecked((n - i, j));")],
 "extension along rows of a matrix of three or more columns", "the extension is reflected about the wrong column's end point",
'''use nalgebra::DMatrix;
use sci_rs::signal::filter::odd_ext_dyn;
fn main() {
    let x = DMatrix::from_fn(4, 3, |i, j| (i * i + 10 * j * j) as f64);
    let y = odd_ext_dyn(x.clone(), 2, 0);
    for j in 0..3 {
        for i in 0..2 {
            assert_eq!(y[(i, j)], 2.0 * x[(0, j)] - x[(2 - i, j)]);
        }
    }
}
''')
plant("p25", "C06", [("signal/filter/ext.rs", "        None => ntaps * 3,", "        None => (ntaps * 3).min(15),")],
 "a default padding length with more than five taps", "the padding is shorter than three times the taps",
'''use nalgebra::DMatrix;
use sci_rs::signal::filter::{pad, Pad};
fn main() {
    for taps in 1..9 {
        let x = DMatrix::from_fn(60, 1, |i, _| i as f64);
        let (e, y) = pad(Pad::Odd, None, x, 0, taps);
        assert_eq!(e, 3 * taps);
        assert_eq!(y.nrows(), 60 + 6 * taps);
    }
}
''')
SG = "signal/filter/savgol_filter.rs"
plant("p26", "C15", [(SG, "(half_window - F::from_usize(i).unwrap() - f)", "(half_window - F::from_usize(i).unwrap())")],
 "an even window", "the fit is centred half a sample off",
'''use sci_rs::signal::filter::savgol_coeffs_dyn;
fn main() {
    // even window: the middle lies between two samples
    let c: Vec<f64> = savgol_coeffs_dyn(6, 2, None, None);
    let got: f64 = c.iter().enumerate().map(|(i, c)| c * (2.5 - i as f64)).sum();
    assert!(got.abs() < 1e-6, "{got}");
}
''')
plant("p27", "C15", [(SG, "/ del.powi(der as i32);", "/ del.powi(der.min(2) as i32);")],
 "a third or higher derivative with a sample spacing other than one", "the derivative is scaled by the wrong power of the spacing",
'''use sci_rs::signal::filter::savgol_coeffs_dyn;
fn main() {
    for d in 0..5 {
        let a: Vec<f64> = savgol_coeffs_dyn(9, 5, Some(d), Some(1.0));
        let b: Vec<f64> = savgol_coeffs_dyn(9, 5, Some(d), Some(0.5));
        for (x, y) in a.iter().zip(&b) {
            assert!((x * 2f64.powi(d as i32) - y).abs() < 1e-6 * (1.0 + y.abs()), "derivative {d}");
        }
    }
}
''')
plant("p28", "C18", [("stats.rs", "    let var = y.iter().map(|yi| yi * yi).sum::<f32>() / y.len() as f32;\n\n    // Compute the autocorrelation for lag 1", "    let var = y.iter().map(|yi| yi * yi).sum::<f32>() / (y.len() - SKIP) as f32;\n\n    // Compute the autocorrelation for lag 1")],
 "a call that skips lags", "the returned variance is divided by the wrong count",
'''use sci_rs::stats::autocorr_fast32;
fn main() {
    let x = [1.0f32, 2.0, 4.0, 3.0, 0.0, -1.0, 5.0, 2.0];
    let (mut a, mut b) = (x, x);
    let v = autocorr_fast32::<8, 4, 0>(&mut a, &mut [0.0; 4]);
    let w = autocorr_fast32::<8, 4, 2>(&mut b, &mut [0.0; 4]);
    assert!((v - w).abs() < 1e-6, "{v} {w}");
}
''')
plant("p29", "C18", [("stats.rs", "    let sum = tiles.remainder().iter().map(|yi| yi * yi).sum::<f32>()", "    let sum = tiles.remainder().iter().take(2).map(|yi| yi * yi).sum::<f32>()")],
 "a length of 4k+3", "the last sample does not count",
'''use sci_rs::stats::rms_fast32;
fn main() {
    let x = [1.0f32, 2.0, 4.0, 3.0, 0.0, -1.0, 5.0];
    let w = (x.iter().map(|x| x * x).sum::<f32>() / 7.0).sqrt();
    assert!((rms_fast32(&x) - w).abs() < 1e-5);
}
''')
CV = "signal/convolve.rs"
plant("p31", "C19", [(CV, "            let start = (n2 - 1) / 2;", "            let start = (n1.min(n2) - 1) / 2;")],
 "Same mode with a second signal longer than the first", "the window is not centred",
'''use sci_rs::signal::convolve::*;
fn main() {
    let (a, b) = ([1.0f64, 2.0, -1.0], [3.0f64, 1.0, 4.0, 1.0, 5.0, 9.0, 2.0]);
    let f = convolve(&a, &b, ConvolveMode::Full);
    let s = convolve(&a, &b, ConvolveMode::Same);
    for i in 0..3 {
        assert!((f[i + 3] - s[i]).abs() < 1e-9, "{s:?} {f:?}");
    }
}
''')
plant("p32", "C20", [("signal/resample.rs", "    let half_spectrum = bins / 2;", "    let half_spectrum = (bins + 1) / 2;")],
 "an odd number of common bins", "a bin is copied to a frequency it does not belong to",
'''use sci_rs::signal::resample::resample;
fn main() {
    // a band-limited signal of 7 samples at 12
    let f = |t: f64| 1.0 + (2.0 * std::f64::consts::PI * t).cos() + 0.5 * (4.0 * std::f64::consts::PI * t).sin();
    let x: Vec<f64> = (0..7).map(|i| f(i as f64 / 7.0)).collect();
    let y = resample(&x, 12);
    for (i, y) in y.iter().enumerate() {
        assert!((y - f(i as f64 / 12.0)).abs() < 1e-6, "{i}");
    }
    // and one with energy in the top bin, which is not doubled
    let x: Vec<f64> = (0..7).map(|i| (6.0 * std::f64::consts::PI * i as f64 / 7.0).cos()).collect();
    let e: f64 = resample(&x, 12).iter().map(|y| y.abs()).fold(0.0, f64::max);
    assert!(e < 1.0 + 1e-6, "{e}");
}
''')
plant("p33", "C20", [("signal/resample.rs", "F::from(1.0 / x.len() as f64)", "F::from(1.0 / x.len().max(n / 2) as f64)")],
 "upsampling by more than two", "the amplitude is scaled down",
'''use sci_rs::signal::resample::resample;
fn main() {
    for n in [4usize, 8, 16, 24, 40] {
        let y = resample(&[1.0f64; 8], n);
        assert_eq!(y.len(), n);
        for y in y { assert!((y - 1.0).abs() < 1e-6, "{n}: {y}"); }
    }
}
''')
W = "signal/wave/mod.rs"
plant("p34", "C21", [(W, "        if x < duty_threshold {", "        if x <= duty_threshold {")],
 "a time exactly at the end of the high phase, or duty 0 at a whole period", "the wave is high where it must be low",
'''use ndarray::array;
use sci_rs::signal::wave::square;
fn main() {
    let y = square(&array![0.0f64, 1.0], 0.0);
    assert_eq!(y, array![-1.0, -1.0]);
    let y = square(&array![std::f64::consts::PI], 0.5);
    assert_eq!(y, array![-1.0]);
}
''')
plant("p35", "C21", [(W, "let x = if x < F::zero() { x + F::two_pi() } else { x };", "let x = if x < F::zero() { -x } else { x };")],
 "negative times with a duty other than one half, or their sign", "the wave is mirrored for negative times",
'''use ndarray::array;
use sci_rs::signal::wave::square;
fn main() {
    let y = square(&array![-1.0f64, -6.0], 0.25);
    assert_eq!(y, array![-1.0, 1.0]);
}
''')
plant("p36", "C22", [("special/bessel.rs", "self.map(Bessel::i0e)", "self.map(Bessel::i0)")],
 "i0e of an n-dimensional array", "the unscaled function is applied",
'''use ndarray::{array, ArrayD};
use sci_rs::special::Bessel;
fn main() {
    let x: ArrayD<f64> = array![[0.5, 3.0], [9.0, 1.0]].into_dyn();
    let y = x.i0e();
    for (x, y) in x.iter().zip(y.iter()) { assert!((x.i0e() - y).abs() < 1e-12); }
}
''')
plant("p37", "C22", [("special/xsf/i0.rs", "    2.95505266312963983461E-12,", "    2.95505266312963983461E-11,", 0)],
 "double precision", "the value is off by 3e-11",
'''use sci_rs::special::Bessel;
fn main() {
    for x in [0.3f64, 1.0, 2.7, 4.1, 6.6, 7.9] {
        let (mut s, mut t) = (0.0, 1.0);
        for k in 1..80 { s += t; t *= (x / 2.0) * (x / 2.0) / (k * k) as f64; }
        assert!((x.i0() / s - 1.0).abs() < 1e-12, "{x}: {} {s}", x.i0());
    }
}
''')
plant("p38", "C22", [("special/xsf/i0.rs", "        if x <= 8. {", "        if x <= 9. {", 3)],
 "single precision i0e between 8 and 9", "the expansion is used outside its interval",
'''use sci_rs::special::Bessel;
fn main() {
    for x in [7.5f32, 8.3, 8.7, 8.99, 9.5] {
        let w = (x as f64).i0e();
        assert!((x.i0e() as f64 / w - 1.0).abs() < 1e-5, "{x}: {} {w}", x.i0e());
    }
}
''')
plant("p39", "C23", [("special/factorial.rs", "    let start = n - k * (n / k);", "    let start = (n + k) % k;")],
 "n + k beyond the maximum of the type", "it overflows although the result is representable",
'''use sci_rs::special::Factorial;
fn main() {
    assert_eq!(200u8.factorialk(199), 200);
    assert_eq!(100i8.factorialk(99), 100);
}
''')
plant("p40", "C23", [("special/factorial.rs", "if (n & Int::one()).is_zero() && (FACTORIAL2_CACHE_LEN & 1 != 0)", "if (n & Int::one()).is_zero() && n < Int::from_usize(2 * FACTORIAL2_CACHE_LEN - 10).unwrap()")],
 "an even double factorial of 56 in 128 bits", "the odd branch is taken",
'''use sci_rs::special::Factorial;
fn main() {
    for n in 0..57u32 {
        let w = (1..=n as u128).filter(|i| i % 2 == n as u128 % 2).product::<u128>();
        assert_eq!((n as u128).factorial2(), w, "{n}");
    }
}
''')
plant("p41", "C24", [("special/combinatorics.rs", "    if k == Int::zero() || n == Int::zero() {\n        return Int::zero();\n    }\n", "    if k == Int::zero() || n == Int::zero() {\n        return Int::zero();\n    }\n    if k + Int::one() == n {\n        return n * k / (Int::one() + Int::one());\n    }\n")],
 "k = n - 1 with n(n-1) beyond the type while n(n-1)/2 fits", "it overflows although the result fits",
'''use sci_rs::special::Combinatoric;
fn main() {
    assert_eq!(20u8.stirling2(19), 190);
    assert_eq!(15i8.stirling2(14), 105);
}
''')
plant("p42", "C24", [("special/combinatorics.rs", "(min(k, n - k) + Int::one())", "(k + Int::one())")],
 "k above n/2", "an intermediate binomial exceeds the type although the result fits",
'''use sci_rs::special::Combinatoric;
fn main() {
    assert_eq!(70u64.comb(69), 70);
    assert_eq!(12u8.comb(10), 66);
}
''')
plant("p43", "C25", [("linalg/companion.rs", ".map(|(i, ai)| ((0, i), -*(ai.borrow()) / a0))", ".map(|(i, ai)| ((0, i), if i == 0 { -*(ai.borrow()) / a0 } else { -*(ai.borrow()) }))")],
 "a leading coefficient other than one", "only the first entry is normalised",
'''use sci_rs::linalg::companion_dyn;
fn main() {
    let m = companion_dyn([2.0f64, 4.0, 6.0, 8.0].iter(), 4);
    assert_eq!((m[(0, 0)], m[(0, 1)], m[(0, 2)]), (-2.0, -3.0, -4.0));
}
''')
plant("p44", "C04", [("signal/filter/sosfilt_zi.rs", "        scale *= section.b.iter()", "        scale = section.b.iter()")],
 "three or more sections with different gains", "the steady state of later sections is scaled by the previous section only",
'''use sci_rs::signal::filter::{design::Sos, sosfilt_item, sosfilt_zi_dyn};
fn main() {
    let mut s: Vec<Sos<f64>> = (1..5).map(|i| Sos::new([0.5 * i as f64, 0.25, 0.125], [1.0, -0.3, 0.1])).collect();
    sosfilt_zi_dyn::<_, _, Sos<f64>>(s.iter_mut());
    let a: f64 = sosfilt_item(1.0, &mut s);
    for _ in 0..5 { let b: f64 = sosfilt_item(1.0, &mut s); assert!((a - b).abs() < 1e-9); }
}
''')
plant("p50", "C01", [(SF, "            .map(|yi0| sosfilt_item(*yi0.borrow(), sos))\n            .collect::<Vec<_>>(),", "            .map(|yi0| {\n                let (head, tail) = sos.split_at_mut(sos.len().min(24));\n                let x: F = sosfilt_item(*yi0.borrow(), head);\n                let (mid, _) = tail.split_at_mut(tail.len() & !1);\n                sosfilt_item(x, mid)\n            })\n            .collect::<Vec<_>>(),")],
 "an odd number of more than 24 sections", "the last section is skipped",
'''use sci_rs::signal::filter::{design::Sos, sosfilt_dyn, sosfilt_item};
fn main() {
    for n in 1..40 {
        let s: Vec<Sos<f64>> = (0..n).map(|i| Sos::new([0.9, 0.25, 0.125], [1.0, -0.3 + 0.01 * i as f64, 0.1])).collect();
        let x = [1.0, -2.0, 0.5, 3.0, 1.0, 0.0, 0.0, 4.0];
        let (mut a, mut b) = (s.clone(), s);
        let y = sosfilt_dyn(x.iter(), &mut a);
        for (xi, yi) in x.iter().zip(&y) {
            let r: f64 = sosfilt_item(*xi, &mut b);
            assert!((r - yi).abs() < 1e-12 * (1.0 + r.abs()), "{n} sections: {yi} != {r}");
        }
    }
}
''')
plant("p51", "C04", [("signal/filter/lfilter_zi.rs", "    if a0 != F::one() {", "    if a0 > F::one() {")],
 "a leading coefficient below one", "the coefficients are not normalised",
'''use sci_rs::signal::filter::lfilter_zi_dyn;
fn main() {
    let (b, a) = ([0.5f64, 0.3, 0.2], [1.0, -0.4, 0.1]);
    let z1 = lfilter_zi_dyn(&b, &a);
    for c in [2.0, 0.5, -1.0, -3.0] {
        let z2 = lfilter_zi_dyn(&b.map(|x| c * x), &a.map(|x| c * x));
        for (p, q) in z1.iter().zip(&z2) { assert!((p - q).abs() < 1e-12, "{c} {z1:?} {z2:?}"); }
    }
}
''')
plant("p52", "C05", [("signal/filter/sosfiltfilt.rs", "filter(|s| s.a[2] == F::zero())", "filter(|s| s.a[2] == s.b[2])")],
 "sections with b[2] = 0, and a[2] = b[2] not zero elsewhere", "the extension has another length than three times the filter length",
'''use sci_rs::signal::filter::{design::Sos, sosfiltfilt_dyn};
fn main() {
    let s = [Sos::new([0.5, 0.25, 0.0], [1.0, -0.3, 0.1]), Sos::new([0.5, 0.25, 0.25], [1.0, -0.3, 0.25])];
    // fifteen samples are not more than 3 * 5
    let x: Vec<f64> = (0..15).map(|i| (i * i % 5) as f64).collect();
    assert!(std::panic::catch_unwind(|| sosfiltfilt_dyn(x.iter(), &s)).is_err(), "signal of 15 samples accepted");
}
''')
plant("p53", "C07", [(D + "bilinear_zpk.rs", "        .map(|pi| (fs2 + pi) / (fs2 - pi))\n", "        .map(|pi| {\n            if ComplexField::abs(pi.im) <= F::epsilon() {\n                Complex::new((fs2.re + pi.re) / ComplexField::abs(fs2.re - pi.re), F::zero())\n            } else {\n                (fs2 + pi) / (fs2 - pi)\n            }\n        })\n")],
 "a real pole beyond 2*fs", "the pole is mapped to the opposite sign",
'''use nalgebra::Complex;
use sci_rs::signal::filter::design::{bilinear_zpk_dyn, ZpkFormatFilter};
fn main() {
    for p in [-1.0f64, 0.5, 5.0] {
        let f = bilinear_zpk_dyn(ZpkFormatFilter::new(vec![], vec![Complex::new(p, 0.0)], 1.0), 1.0);
        assert!((f.p[0].re - (2.0 + p) / (2.0 - p)).abs() < 1e-12, "{p} {}", f.p[0]);
    }
}
''')
plant("p54", "C08", [(D + "lp2lp_zpk.rs", "Float::powi(wo, degree as i32)", "Float::powi(wo, zpk.p.len().min(degree + zpk.z.len() / 5) as i32)")],
 "five or more finite zeros", "the gain is scaled by the wrong power",
'''use nalgebra::Complex;
use sci_rs::signal::filter::design::{lp2lp_zpk_dyn, ZpkFormatFilter};
fn main() {
    let c = |r: f64, i: f64| Complex::new(r, i);
    let f = lp2lp_zpk_dyn(ZpkFormatFilter::new(vec![c(0.0, 2.0), c(0.0, -2.0), c(0.0, 3.0), c(0.0, -3.0), c(1.0, 0.0)], vec![c(-1.0, 1.0), c(-1.0, -1.0), c(-1.0, 0.0), c(-2.0, 1.0), c(-2.0, -1.0), c(-4.0, 0.0)], 3.0), Some(2.0));
    assert!((f.k - 6.0f64).abs() < 1e-12, "{}", f.k);
}
''')
plant("p55", "C09", [(D + "lp2bs_zpk.rs", "zpk.k * (num / denom.real())", "zpk.k * (num / ComplexField::abs(denom))")],
 "a prototype with an odd number of right half plane poles", "the sign of the gain is lost",
'''use nalgebra::Complex;
use sci_rs::signal::filter::design::{lp2bs_zpk_dyn, ZpkFormatFilter};
fn main() {
    let f = lp2bs_zpk_dyn(ZpkFormatFilter::new(vec![], vec![Complex::new(2.0f64, 0.0)], 3.0), Some(2.0), Some(1.0));
    assert!((f.k + 1.5f64).abs() < 1e-12, "{}", f.k);
}
''')
plant("p56", "C10", [(D + "iirfilter.rs", "k: Float::powf(ten, (-rp / F::from(20).unwrap())),", "k: Float::powf(ten, (-rp / ten)),")],
 "a Chebyshev I prototype of order zero", "the gain is the squared ripple",
'''use sci_rs::signal::filter::design::cheb1ap_dyn;
fn main() {
    let f = cheb1ap_dyn::<f64>(0, 20.0);
    assert!((f.k - 0.1).abs() < 1e-12, "{}", f.k);
}
''')
plant("p57", "C11", [(D + "iirfilter.rs", "            .map(|wni| F::from(2.).unwrap() * fs * Float::tan(F::from(PI).unwrap() * *wni / fs))\n", "            .map(|wni| {\n                let x = F::from(PI).unwrap() * *wni / fs;\n                // the tangent is the identity for small angles\n                let t = if x < F::from(0.002).unwrap() { x } else { Float::tan(x) };\n                F::from(2.).unwrap() * fs * t\n            })\n")],
 "a critical frequency below 0.13% of the Nyquist frequency", "the cutoff is off",
'''use sci_rs::signal::filter::design::*;
fn main() {
    let wn = 0.0012f64;
    let DigitalFilter::Zpk(f) = butter_dyn(1, vec![wn], Some(FilterBandType::Lowpass), Some(false), Some(FilterOutputType::Zpk), None) else { panic!() };
    let t = (std::f64::consts::PI * wn / 2.0).tan();
    let p = (1.0 - t) / (1.0 + t);
    assert!(((1.0 - f.p[0].re) / (1.0 - p) - 1.0).abs() < 1e-7, "{} {p}", f.p[0]);
}
''')
plant("p58", "C12", [(D + "zpk2tf.rs", "    if roots.into_iter().zip(root_conjs).all(|(a, b)| a == b) {", "    if roots.into_iter().zip(root_conjs).any(|(a, b)| a == b) {")],
 "a root set that is not closed under conjugation and contains a real root", "the imaginary parts of the coefficients are dropped",
'''use nalgebra::Complex;
use sci_rs::signal::filter::design::poly_dyn;
fn main() {
    let p = poly_dyn(&vec![Complex::new(0.0f64, 1.0), Complex::new(2.0, 0.0)]);
    assert!((p[1] - Complex::new(-2.0, -1.0)).norm() < 1e-12, "{p:?}");
}
''')
plant("p59", "C13", [(D + "cplx.rs", "F::epsilon() * F::from(100.).unwrap()", "F::from(1e-3).unwrap()")],
 "a conjugate pair very close to the real axis", "the imaginary part is dropped",
'''use nalgebra::Complex;
use sci_rs::signal::filter::design::{zpk2sos_dyn, ZpkFormatFilter};
fn main() {
    let c = |r: f64, i: f64| Complex::new(r, i);
    let s = zpk2sos_dyn(2, ZpkFormatFilter::new(vec![c(-1.0, 0.0), c(-1.0, 0.0)], vec![c(0.9, 8e-4), c(0.9, -8e-4)], 1.0), None, None);
    let a2 = s.sos[0].a[2];
    assert!((a2 - (0.81 + 64e-8)).abs() < 1e-9, "{a2}");
}
''')
plant("p60", "C14", [(D + "iirfilter.rs", "*wi <= F::zero() || *wi >= F::one()", "*wi <= F::zero() || *wi > F::one()")],
 "a critical frequency of exactly the Nyquist frequency", "it is accepted",
'''use sci_rs::signal::filter::design::*;
fn main() {
    let r = std::panic::catch_unwind(|| butter_dyn(2, vec![50.0f64], Some(FilterBandType::Lowpass), None, Some(FilterOutputType::Zpk), Some(100.0)));
    assert!(r.is_err());
}
''')
plant("p62", "C17", [("stats.rs", "    let pivots = n - lowers - uppers;\n", "    let pivots = if uppers == 0 { 1 } else { n - lowers - uppers };\n")],
 "the largest value occurring several times at the rank asked for", "the selection looks beyond the samples",
'''use sci_rs::stats::median;
fn main() {
    assert_eq!(median([1.0f64, 3.0, 3.0, 3.0, 2.0].iter()), (3.0, 5));
    assert_eq!(median([3i32, 3, 3].iter()), (3, 3));
}
''')
plant("p63", "C19", [("signal/convolve.rs", "let fft_size = n.next_power_of_two();", "let fft_size = if n > 64 { (n - 1).next_power_of_two() } else { n.next_power_of_two() };")],
 "a full length of 2^k + 1 above 64", "the last sample wraps around",
'''use sci_rs::signal::convolve::*;
fn main() {
    for n in [60, 64, 65, 100, 128, 129] {
        let a = vec![1.0f64; n];
        let c = convolve(&a, &[1.0, 1.0], ConvolveMode::Full);
        assert_eq!(c.len(), n + 1);
        assert!((c[0] - 1.0).abs() < 1e-9 && (c[n] - 1.0).abs() < 1e-9, "{n} {} {}", c[0], c[n]);
    }
}
''')
plant("p67", "C23", [("special/factorial.rs", "    while stop - start >= step {", "    while start + step <= stop {")],
 "n within k of the maximum of the type", "it overflows although the result is representable",
'''use sci_rs::special::Factorial;
fn main() {
    assert_eq!(200u8.factorialk(200), 200);
    assert_eq!(100i8.factorialk(100), 100);
}
''')
plant("p68", "C24", [("special/combinatorics.rs", "primint_comb(n - Int::one() + k, k)", "primint_comb(n + k - Int::one(), k)")],
 "n + k one beyond the maximum of the type", "it overflows although the result fits",
'''use sci_rs::special::Combinatoric;
fn main() {
    assert_eq!(1u8.comb_rep(255), 1);
    assert_eq!(255u8.comb_rep(1), 255);
}
''')
plant("p70", "C15", [("signal/filter/savgol_filter.rs", "    (1..=n).product()", "    (1..=n).rev().take(3).product()")],
 "a derivative of order five or more", "the derivative is scaled down",
'''use sci_rs::signal::filter::savgol_coeffs_dyn;
fn main() {
    // the fifth derivative of x^5 is 120
    let c = savgol_coeffs_dyn::<f64>(7, 5, Some(5), None);
    let d: f64 = (0..7).map(|i| c[i] * (3.0 - i as f64).powi(5)).sum();
    assert!((d - 120.0).abs() < 1e-6, "{d}");
}
''')
plant("p72", "C18", [("stats.rs", "    assert!(N >= M + SKIP);", "    assert!(N >= M && N > SKIP);")],
 "more lags than the signal has after skipping", "lags are left unwritten",
'''use sci_rs::stats::autocorr_fast32;
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut y = [1.0f32, 2.0, 4.0, 8.0, 1.0, 3.0];
        let mut x = [7.0f32; 5];
        autocorr_fast32::<6, 5, 3>(&mut y, &mut x)
    });
    assert!(r.is_err());
}
''')
plant("p73", "C03", [(SF, "                *zi = Into::<isize>::into(*yi) as f32;\n                for s in sos.iter_mut() {\n                    *zi = biquad_fold(*zi, s);\n                }\n            }\n        }\n    }", "                *zi = Into::<isize>::into(*yi) as i16 as f32;\n                for s in sos.iter_mut() {\n                    *zi = biquad_fold(*zi, s);\n                }\n            }\n        }\n    }")],
 "unsigned 16 bit or isize samples beyond the range of i16, in the unspecialised branch", "the sample wraps around",
'''use sci_rs::signal::filter::{design::Sos, sosfilt_ifast32_st};
fn main() {
    let mut s = [Sos::new([1.0f32, 0.0, 0.0], [1.0, 0.0, 0.0])];
    let mut z = [0.0f32; 3];
    sosfilt_ifast32_st(&[100000isize, -70000, 40000], &mut s, &mut z);
    assert_eq!(z, [100000.0, -70000.0, 40000.0]);
}
''')
