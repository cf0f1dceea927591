From 5e5ade4b9cb7f50cd7ac1b0dcd3a488f2e2db93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:08 +0000
Subject: [PATCH 01/13] fix: autocorr_fast32 keeps the sum over the samples
 after the last full tile

---
 sci-rs/src/stats.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/stats.rs b/sci-rs/src/stats.rs
index 06cb0c0..95cc980 100644
--- a/sci-rs/src/stats.rs
+++ b/sci-rs/src/stats.rs
@@ -268,7 +268,7 @@ pub fn autocorr_fast32<const N: usize, const M: usize, const SKIP: usize>(
             .zip(right.remainder().iter())
             .map(|(a, b)| a * b)
             .sum::<f32>();
-        *xi = left
+        *xi += left
             .zip(right)
             .map(|(left, right)| {
                 left.iter()
@@ -276,7 +276,7 @@ pub fn autocorr_fast32<const N: usize, const M: usize, const SKIP: usize>(
                     .map(|(a, b)| a * b)
                     .sum::<f32>()
             })
-            .sum();
+            .sum::<f32>();
     }
 
     var
-- 
2.43.0


From 0f9dc951bbecbda403af947c25a84e08aa1734d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:08 +0000
Subject: [PATCH 02/13] fix: iirfilter_dyn requires rs, not rp, for a Chebyshev
 II filter

---
 sci-rs/src/signal/filter/design/iirfilter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/design/iirfilter.rs b/sci-rs/src/signal/filter/design/iirfilter.rs
index 735d8e0..2e71af8 100644
--- a/sci-rs/src/signal/filter/design/iirfilter.rs
+++ b/sci-rs/src/signal/filter/design/iirfilter.rs
@@ -106,7 +106,7 @@ where
             cheb1ap_dyn(order, rp.unwrap())
         }
         FilterType::ChebyshevII => {
-            if rp.is_none() {
+            if rs.is_none() {
                 panic!(
                     "stopband attenuation (rs) must be provided to design an Chebyshev II filter."
                 );
-- 
2.43.0


From 659dbcb193f00faea0872ec8d4398126043fb2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:08 +0000
Subject: [PATCH 03/13] fix: zpk2tf_dyn aligns numerator and denominator powers
 when their degrees differ

---
 sci-rs/src/signal/filter/design/zpk2tf.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/zpk2tf.rs b/sci-rs/src/signal/filter/design/zpk2tf.rs
index c4beebc..e84b5cd 100644
--- a/sci-rs/src/signal/filter/design/zpk2tf.rs
+++ b/sci-rs/src/signal/filter/design/zpk2tf.rs
@@ -84,13 +84,17 @@ where
     let bv = poly2ba(b, z);
     let av = poly2ba(a, p);
 
+    // Align equal powers: the lower degree polynomial starts with zero coefficients
+    let len = bv.len().max(av.len());
     let mut b = vec![F::zero(); order + 1];
+    let b_lead = len - bv.len();
     bv.into_iter()
-        .zip(b.iter_mut())
+        .zip(b.iter_mut().skip(b_lead))
         .for_each(|(bvi, bi)| *bi = bvi.real());
     let mut a = vec![F::zero(); order + 1];
+    let a_lead = len - av.len();
     av.into_iter()
-        .zip(a.iter_mut())
+        .zip(a.iter_mut().skip(a_lead))
         .for_each(|(avi, ai)| *ai = avi.real());
 
     BaFormatFilter { b, a }
-- 
2.43.0


From ee688fc406ab750f8e00d9d1d58431a1163c3e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:08 +0000
Subject: [PATCH 04/13] fix: cplxreal_dyn returns real elements without a
 residual imaginary part

---
 sci-rs/src/signal/filter/design/cplx.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sci-rs/src/signal/filter/design/cplx.rs b/sci-rs/src/signal/filter/design/cplx.rs
index e1ffaf4..2ce916b 100644
--- a/sci-rs/src/signal/filter/design/cplx.rs
+++ b/sci-rs/src/signal/filter/design/cplx.rs
@@ -73,6 +73,10 @@ where
     let (zr, zc): (Vec<_>, Vec<_>) = z
         .iter()
         .partition(|zi| Float::abs(zi.im) <= tol * (*zi * *zi).sqrt().re);
+    let zr: Vec<_> = zr
+        .into_iter()
+        .map(|zi: Complex<F>| Complex::new(zi.re, F::zero()))
+        .collect();
 
     if zr.len() == z.len() {
         // Input is entirely real
-- 
2.43.0


From 32e610e7f3a48592f23c52e08baf0e3401450061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:08 +0000
Subject: [PATCH 05/13] fix: zpk2sos_dyn with minimal pairing leaves a last
 real pole unpaired when no real zero is left

---
 sci-rs/src/signal/filter/design/zpk2sos.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/zpk2sos.rs b/sci-rs/src/signal/filter/design/zpk2sos.rs
index 6535170..6014fca 100644
--- a/sci-rs/src/signal/filter/design/zpk2sos.rs
+++ b/sci-rs/src/signal/filter/design/zpk2sos.rs
@@ -169,7 +169,7 @@ where
         // Pair that pole with a zero
         if p1.im.is_zero() && p.iter().filter(|pi| pi.im.is_zero()).count() == 0 {
             // Special case (1): last remaining real pole
-            let sos_si = if matches!(pairing, ZpkPairing::Minimal) {
+            let sos_si = if !matches!(pairing, ZpkPairing::Minimal) {
                 let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Real);
                 let z1 = z.remove(z1_idx);
                 single_zpksos_dyn(
@@ -177,7 +177,7 @@ where
                     vec![p1, Complex::zero()],
                     F::one(),
                 )
-            } else if !z.is_empty() {
+            } else if z.iter().any(|zi| zi.im.is_zero()) {
                 let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Real);
                 let z1 = z.remove(z1_idx);
                 single_zpksos_dyn(vec![z1], vec![p1], F::one())
@@ -221,7 +221,7 @@ where
                 if !z1.im.is_zero() {
                     let sos_si = single_zpksos_dyn(vec![z1, z1.conj()], vec![p1, p2], F::one());
                     sos.push(sos_si);
-                } else if !z.is_empty() {
+                } else if z.iter().any(|zi| zi.im.is_zero()) {
                     let z2_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Real);
                     let z2 = z.remove(z2_idx);
                     assert!(z2.im.is_zero());
-- 
2.43.0


From 106ac47dda8d6dc90b3a1ff8205db5e1de472a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:08 +0000
Subject: [PATCH 06/13] fix: k-factorials do not step past n, which overflows
 near the top of the type

---
 sci-rs/src/special/factorial.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sci-rs/src/special/factorial.rs b/sci-rs/src/special/factorial.rs
index 3c4bccc..fc90240 100644
--- a/sci-rs/src/special/factorial.rs
+++ b/sci-rs/src/special/factorial.rs
@@ -278,11 +278,11 @@ where
             .fold(Int::one(), |result, val| result * val);
     }
 
-    let mut result = Int::one();
+    let mut result = start;
 
-    while start <= stop {
-        result = result * start;
+    while stop - start >= step {
         start = start + step;
+        result = result * start;
     }
     result
 }
-- 
2.43.0


From f91dadb557c82f0d2d8b6fce99de6d33b69ac1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:08 +0000
Subject: [PATCH 07/13] fix: comb, comb_rep and perm do not overflow on the way
 to a representable result

---
 sci-rs/src/special/combinatorics.rs | 33 +++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/sci-rs/src/special/combinatorics.rs b/sci-rs/src/special/combinatorics.rs
index 68cac5c..5b16c0f 100644
--- a/sci-rs/src/special/combinatorics.rs
+++ b/sci-rs/src/special/combinatorics.rs
@@ -128,21 +128,34 @@ where
     if k > n || n < Int::zero() || k < Int::zero() {
         return Int::zero();
     }
-    let m = n + Int::one();
     let n_terms = (min(k, n - k) + Int::one()).to_usize().unwrap();
     (1..n_terms).fold(Int::one(), |result, i| {
-        result * (m - Int::from_usize(i).unwrap()) / Int::from_usize(i).unwrap()
+        let i = Int::from_usize(i).unwrap();
+        // i divides result * (n - i + 1); cancel before multiplying so that nothing exceeds the result
+        let g = primint_gcd(result, i);
+        (result / g) * ((n - (i - Int::one())) / (i / g))
     })
 }
 
+/// Greatest common divisor of two positive integers.
+fn primint_gcd<Int>(mut a: Int, mut b: Int) -> Int
+where
+    Int: PrimInt,
+{
+    while !b.is_zero() {
+        (a, b) = (b, a % b);
+    }
+    a
+}
+
 fn primint_comb_rep<Int>(n: Int, k: Int) -> Int
 where
     Int: PrimInt + FromPrimitive,
 {
-    if n + k == Int::zero() {
+    if n <= Int::zero() || k < Int::zero() {
         return Int::zero();
     }
-    primint_comb(n + k - Int::one(), k)
+    primint_comb(n - Int::one() + k, k)
 }
 
 fn primint_perm<Int>(n: Int, k: Int) -> Int
@@ -153,11 +166,13 @@ where
         return Int::zero();
     }
 
-    let start = (n - k + Int::one()).to_usize().unwrap();
-    let end = (n + Int::one()).to_usize().unwrap();
-    (start..end).fold(Int::one(), |result, val| {
-        result * Int::from_usize(val).unwrap()
-    })
+    let mut val = n - k;
+    let mut result = Int::one();
+    while val < n {
+        val = val + Int::one();
+        result = result * val;
+    }
+    result
 }
 
 fn primint_stirling2<Int>(n: Int, k: Int) -> Int
-- 
2.43.0


From 178b418382e473cd254ee7452342343888938fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:08 +0000
Subject: [PATCH 08/13] fix: valid convolution with a longer second signal is
 not empty

---
 sci-rs/src/signal/convolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/convolve.rs b/sci-rs/src/signal/convolve.rs
index b527805..8982d5a 100644
--- a/sci-rs/src/signal/convolve.rs
+++ b/sci-rs/src/signal/convolve.rs
@@ -77,7 +77,7 @@ pub fn fftconvolve<F: Float + FftNum>(in1: &[F], in2: &[F], mode: ConvolveMode)
             if n1 >= n2 {
                 full_convolution[(n2 - 1)..(n1)].to_vec()
             } else {
-                Vec::new()
+                full_convolution[(n1 - 1)..(n2)].to_vec()
             }
         }
         ConvolveMode::Same => {
-- 
2.43.0


From 507b17c1d67bff9a062d213191e97ce42699f906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:08 +0000
Subject: [PATCH 09/13] fix: companion_dyn never writes outside the matrix when
 the data is longer than stated

---
 sci-rs/src/linalg/companion.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sci-rs/src/linalg/companion.rs b/sci-rs/src/linalg/companion.rs
index 1abbd37..605d7d2 100644
--- a/sci-rs/src/linalg/companion.rs
+++ b/sci-rs/src/linalg/companion.rs
@@ -16,6 +16,7 @@ where
     I: Iterator<Item = B>,
     DefaultAllocator: Allocator<Dyn, Dyn>,
 {
+    assert!(m >= 2, "Invalid data length");
     let mut itr = itr;
     let a0: T = *itr.next().expect("Invalid data length").borrow();
     let itr = itr
@@ -29,9 +30,7 @@ where
         <DefaultAllocator as allocator::Allocator<Dyn, Dyn>>::Buffer<T>,
     >::zeros(m - 1, m - 1);
     for (i, t) in itr {
-        unsafe {
-            *m.get_unchecked_mut(i) = t;
-        }
+        m[i] = t;
     }
     m
 }
-- 
2.43.0


From 4c7ea80ebe19ac7a551acd2d5f29cef89d309e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:08 +0000
Subject: [PATCH 10/13] fix: savgol_filter_dyn does not reserve an iterator's
 upper size bound, which may be huge

---
 sci-rs/src/signal/filter/savgol_filter.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sci-rs/src/signal/filter/savgol_filter.rs b/sci-rs/src/signal/filter/savgol_filter.rs
index b237131..9ab1076 100644
--- a/sci-rs/src/signal/filter/savgol_filter.rs
+++ b/sci-rs/src/signal/filter/savgol_filter.rs
@@ -47,8 +47,7 @@ where
     fir.reverse();
 
     // Pad with nearest edge value
-    let size_hint = y.size_hint();
-    let mut data = Vec::with_capacity(size_hint.1.unwrap_or(size_hint.0));
+    let mut data = Vec::with_capacity(y.size_hint().0);
     let mut y = y;
     let Some(nearest) = y.next() else {
         return vec![];
-- 
2.43.0


From 14efcfba380f429007df13a46c66634017102c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:30 +0000
Subject: [PATCH 11/13] fix: zpk2sos_dyn with minimal pairing keeps enough
 poles for the complex zeros

---
 sci-rs/src/signal/filter/design/zpk2sos.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/zpk2sos.rs b/sci-rs/src/signal/filter/design/zpk2sos.rs
index 6014fca..7d504b6 100644
--- a/sci-rs/src/signal/filter/design/zpk2sos.rs
+++ b/sci-rs/src/signal/filter/design/zpk2sos.rs
@@ -213,9 +213,17 @@ where
                 p1.conj()
             };
 
-            // Find closest zero
+            // Find closest zero; it must be a complex one if the poles left
+            // over could not take all the complex pairs
             if !z.is_empty() {
-                let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Any);
+                let z_real = z.iter().filter(|zi| zi.im.is_zero()).count();
+                let p_real = p.iter().filter(|pi| pi.im.is_zero()).count();
+                let which = if z_real == 1 && 2 * (z.len() - z_real) > 2 * p.len() - p_real {
+                    WhichNearestComplex::Complex
+                } else {
+                    WhichNearestComplex::Any
+                };
+                let z1_idx = nearest_real_complex_idx_dyn(&z, p1, which);
                 let z1 = z.remove(z1_idx);
 
                 if !z1.im.is_zero() {
-- 
2.43.0


From c0484b79ca68381daf092f2e82c6a11b99cd75ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:41 +0000
Subject: [PATCH 12/13] fix: cheby1_dyn and cheby2_dyn default to lowpass as
 documented

---
 sci-rs/src/signal/filter/design/iirfilter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/iirfilter.rs b/sci-rs/src/signal/filter/design/iirfilter.rs
index 2e71af8..8f2162b 100644
--- a/sci-rs/src/signal/filter/design/iirfilter.rs
+++ b/sci-rs/src/signal/filter/design/iirfilter.rs
@@ -364,7 +364,7 @@ where
         wn,
         Some(rp),
         None, // rs
-        btype,
+        Some(btype.unwrap_or(FilterBandType::Lowpass)),
         Some(FilterType::ChebyshevI),
         analog,
         output,
@@ -516,7 +516,7 @@ where
         wn,
         None, // rp
         Some(rs),
-        btype,
+        Some(btype.unwrap_or(FilterBandType::Lowpass)),
         Some(FilterType::ChebyshevII),
         analog,
         output,
-- 
2.43.0


From 50f183fd9cd817f5ec90518b01dbb8506c67d764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:25 +0000
Subject: [PATCH 13/13] fix: cplxreal_dyn sorts both halves of a run of equal
 real parts by imaginary part

Two conjugate pairs with the same real part up to rounding, such as
(0.5+4e-16)+0.5i, 0.5-0.5i, 0.5+0.25i, (0.5+4e-16)-0.25i, were rejected as
'complex value with no matching conjugate': the positive and the negative half
come out of the first sort in different orders, and the run was then sorted as
(mismatched) tuples.
---
 sci-rs/src/signal/filter/design/cplx.rs | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/cplx.rs b/sci-rs/src/signal/filter/design/cplx.rs
index 2ce916b..98ec0d6 100644
--- a/sci-rs/src/signal/filter/design/cplx.rs
+++ b/sci-rs/src/signal/filter/design/cplx.rs
@@ -130,26 +130,10 @@ where
     for i in 0..run_starts.len() {
         let start = run_starts[i];
         let stop = run_stops[i] + 1;
-        let mut chunk: Vec<(Complex<F>, Complex<F>)> = zp[start..stop]
-            .iter()
-            .cloned()
-            .zip(zn[start..stop].iter().cloned())
-            .collect();
-        chunk.sort_unstable_by(|a, b| {
-            match Float::abs(a.1.im).partial_cmp(&Float::abs(b.1.im)).unwrap() {
-                Ordering::Less => Ordering::Less,
-                Ordering::Greater => Ordering::Greater,
-                Ordering::Equal => a.0.im.partial_cmp(&b.0.im).unwrap(),
-            }
-        });
-        zp[start..stop]
-            .iter_mut()
-            .zip(zn[start..stop].iter_mut())
-            .zip(chunk.iter())
-            .for_each(|((zpi, zni), ci)| {
-                *zpi = ci.0;
-                *zni = ci.1;
-            })
+        for half in [&mut zp, &mut zn] {
+            half[start..stop]
+                .sort_by(|a, b| Float::abs(a.im).partial_cmp(&Float::abs(b.im)).unwrap());
+        }
     }
 
     // Check that negatives match positives
-- 
2.43.0

