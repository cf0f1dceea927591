//! Entry points with fixed types whose LLVM code the checks execute symbolically.
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::{sosfilt_fast32_st, sosfilt_ifast32_st};
use sci_rs::special::{Bessel, Combinatoric, Factorial};
use sci_rs::stats::{autocorr_fast32, rms_fast32};
use std::slice::{from_raw_parts, from_raw_parts_mut};

/// sections are given and taken back as b0 b1 b2 a0 a1 a2 z0 z1
unsafe fn load(p: *const f32, n: usize) -> Vec<Sos<f32>> {
    (0..n)
        .map(|i| {
            let c = from_raw_parts(p.add(8 * i), 8);
            Sos { b: [c[0], c[1], c[2]], a: [c[3], c[4], c[5]], zi0: c[6], zi1: c[7] }
        })
        .collect()
}
unsafe fn save(p: *mut f32, s: &[Sos<f32>]) {
    for (i, s) in s.iter().enumerate() {
        let c = from_raw_parts_mut(p.add(8 * i), 8);
        c[..3].copy_from_slice(&s.b);
        c[3..6].copy_from_slice(&s.a);
        c[6] = s.zi0;
        c[7] = s.zi1;
    }
}
#[no_mangle]
pub unsafe extern "C" fn t_fast32(y: *const f32, n: usize, sos: *mut f32, k: usize, z: *mut f32, m: usize) {
    let mut s = load(sos, k);
    sosfilt_fast32_st(from_raw_parts(y, n), &mut s, from_raw_parts_mut(z, m));
    save(sos, &s);
}
macro_rules! ifast {
    ($name:ident, $t:ty) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(y: *const $t, n: usize, sos: *mut f32, k: usize, z: *mut f32, m: usize) {
            let mut s = load(sos, k);
            sosfilt_ifast32_st(from_raw_parts(y, n), &mut s, from_raw_parts_mut(z, m));
            save(sos, &s);
        }
    };
}
ifast!(t_ifast_i16, i16);
ifast!(t_ifast_isize, isize);
ifast!(t_ifast_u8, u8);
ifast!(t_ifast_i8, i8);
include!("combos.rs");
macro_rules! ac {
    ($($name:ident $n:literal $m:literal $s:literal),* $(,)?) => { $(
        #[no_mangle]
        pub extern "C" fn $name(y: &mut [f32; $n], x: &mut [f32; $m]) -> f32 {
            autocorr_fast32::<$n, $m, $s>(y, x)
        }
    )* };
}
ac_combos!(ac);
ac_rejects!(ac);
macro_rules! rms {
    ($($name:ident $n:literal),* $(,)?) => { $(
        #[no_mangle]
        pub extern "C" fn $name(y: &[f32; $n]) -> f32 {
            rms_fast32::<$n>(y)
        }
    )* };
}
rms_combos!(rms);
macro_rules! bessel {
    ($($name:ident $t:ty, $f:ident;)*) => { $(
        #[no_mangle]
        pub extern "C" fn $name(x: $t) -> $t {
            x.$f()
        }
    )* };
}
bessel! { t_i0_f64 f64, i0; t_i0e_f64 f64, i0e; t_i0_f32 f32, i0; t_i0e_f32 f32, i0e; }
include!("ints.rs");
macro_rules! ints {
    ($($t:ident $f:ident $f2:ident $fk:ident $c:ident $cr:ident $p:ident $s:ident),* $(,)?) => { $(
        #[no_mangle]
        pub extern "C" fn $f(n: &$t, _: &$t, out: &mut $t) { *out = Factorial::factorial(*n) }
        #[no_mangle]
        pub extern "C" fn $f2(n: &$t, _: &$t, out: &mut $t) { *out = Factorial::factorial2(*n) }
        #[no_mangle]
        pub extern "C" fn $fk(n: &$t, k: &$t, out: &mut $t) { *out = Factorial::factorialk(*n, *k) }
        #[no_mangle]
        pub extern "C" fn $c(n: &$t, k: &$t, out: &mut $t) { *out = Combinatoric::comb(*n, *k) }
        #[no_mangle]
        pub extern "C" fn $cr(n: &$t, k: &$t, out: &mut $t) { *out = Combinatoric::comb_rep(*n, *k) }
        #[no_mangle]
        pub extern "C" fn $p(n: &$t, k: &$t, out: &mut $t) { *out = Combinatoric::perm(*n, *k) }
        #[no_mangle]
        pub extern "C" fn $s(n: &$t, k: &$t, out: &mut $t) { *out = Combinatoric::stirling2(*n, *k) }
    )* };
}
int_types!(ints);
