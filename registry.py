"""What each property's check runs, and the bounds it states."""
REAL = "floating-point values are treated as real numbers: rounding, overflow, NaN and infinities are outside the claim; constants keep their f64 values"
DIV = "divisors are non-zero (each such divisor is listed as an assumption of the case)"
LEVEL = "Bounded symbolic execution of the compiled generic code over a symbolic real scalar; every assertion is discharged for all values of the symbols within the stated sizes (normal form plus SMT), counterexamples are replayed on f64. Trusts the term normaliser, z3 and the real-arithmetic reading of floats."
PROPS = {}
def prop(pid, **kw):
    PROPS[pid] = kw
prop("C01", bins=["c01"],
     functions=["sosfilt_dyn", "sosfilt_st", "sosfilt_item", "Sos::from_scipy_dyn", "Sos::new"],
     bounds={"quick": "0..24 sections x lengths {0,1,2,5,17,40}; all samples, coefficients, states real and symbolic; signals up to 70000 samples through numeric non-recursive sections with three symbolic samples; selected cases also with signals and states scaled by 2^-80 and 2^80", "thorough": "0..32 sections x lengths up to 130"},
     outside="more sections or longer signals than listed", assumptions=[REAL],
     technique="symbolic execution of the real generic code + SMT (z3)")
SE = "symbolic execution of the real generic code + SMT (z3)"
prop("C02", bins=["c02"],
     functions=["sosfilt_dyn", "sosfilt_st", "sosfilt_item"],
     bounds={"quick": "0..21 sections; every chunking of 5 samples, selected chunkings up to 40 samples, the entry points rotated over the chunks; all samples, coefficients, states symbolic; signals up to 70000 samples cut once, numeric non-recursive sections, three symbolic samples; selected cases also scaled by 2^-80 and 2^80", "thorough": "0..24 sections, every chunking of 7 samples"},
     outside="longer chunk sequences than listed", assumptions=[REAL], technique=SE)
prop("C04", bins=["c04"],
     functions=["lfilter_zi_dyn", "sosfilt_zi_dyn", "companion_dyn", "sosfilt_dyn"],
     bounds={"quick": "coefficient vectors of length 2..7 and cascades of 0..3 sections, all coefficients and the input constant symbolic; coefficients with a common factor 2^-80 or 2^80; up to 3 leading zeros in the denominator", "thorough": "length 2..10, 0..5 sections"},
     outside="higher orders; sum(a) = 0", assumptions=[REAL, DIV, "sum of the denominator coefficients (DC) is non-zero"], technique=SE)
prop("C25", bins=["c25"],
     functions=["companion_dyn"],
     bounds={"quick": "2..20 coefficients, symbolic; 50 and 101 coefficients; common factors 2^-80 and 2^80; stated sizes 0..8 with 0 to size+3 coefficients", "thorough": "2..40 coefficients"},
     outside="more coefficients", assumptions=[REAL], technique=SE)
prop("C05", bins=["c05"],
     functions=["sosfiltfilt_dyn", "sosfilt_zi_dyn", "sosfilt_dyn", "pad", "odd_ext_dyn", "lfilter_zi_dyn", "companion_dyn"],
     bounds={"quick": "1..6 sections from 12 coefficient sets (zero b2/a2 in every combination, mixed), signals of edge+1..edge+7 symbolic samples and too-short ones; 1..2 sections with symbolic numerators; cascades up to 12 sections and longer signals with four symbolic samples; eight section lists also with the signal scaled by 2^-80 and 2^80", "thorough": "more section lists and lengths; all coefficients symbolic for one and two sections"},
     outside="other coefficient values than the listed sets when numerators are not symbolic; longer signals", assumptions=[REAL, DIV], technique=SE)
prop("C06", bins=["c06"],
     functions=["odd_ext_dyn", "pad", "axis_slice_unsafe", "axis_reverse_unsafe"],
     bounds={"quick": "all shapes up to 6x6, all n up to 8, axes 0, 1 and unknown ones; defaulted lengths for ntaps up to 5; every matrix entry symbolic; larger matrices and defaulted lengths for ntaps up to 41; four shapes also scaled by 2^-80 and 2^80", "thorough": "shapes up to 9x9"},
     outside="larger matrices; padding types other than odd", assumptions=[REAL], technique=SE)
prop("C07", bins=["c07"],
     functions=["bilinear_zpk_dyn", "relative_degree_dyn"],
     bounds={"quick": "up to 4 poles and as many zeros in every split into conjugate pairs and reals, all symbolic together with gain, fs and z; up to 8 numeric roots", "thorough": "up to 5 symbolic roots, 12 numeric ones"},
     outside="higher orders with symbolic roots", assumptions=[REAL, DIV], technique=SE)
prop("C08", bins=["c08"],
     functions=["lp2lp_zpk_dyn", "lp2hp_zpk_dyn", "relative_degree_dyn"],
     bounds={"quick": "up to 4 poles and 4 zeros in every split into pairs and reals, symbolic with gain, wo and s", "thorough": "up to 6 poles"},
     outside="higher orders", assumptions=[REAL, DIV], technique=SE)
prop("C09", bins=["c09"],
     functions=["lp2bp_zpk_dyn", "lp2bs_zpk_dyn", "relative_degree_dyn"],
     bounds={"quick": "up to 2 symbolic roots, up to 6 numeric poles and zeros with symbolic wo, bw, gain and s, in every split into pairs and reals", "thorough": "more symbolic roots and orders"},
     outside="higher orders; symbolic roots beyond the listed ones", assumptions=[REAL, DIV, "complex square roots are characterised by w^2 = x and Re w >= 0"], technique=SE)
prop("C10", bins=["c10"],
     functions=["buttap_dyn", "cheb1ap_dyn", "cheb2ap_dyn", "iirfilter_dyn"],
     bounds={"quick": "order 0 with symbolic ripple, orders 1..10 at ripples {0.5,1,3} / {10,20,60} dB and orders 1..6 with symbolic ripple; every frequency w", "thorough": "orders up to 14, symbolic ripple at every order"},
     outside="higher orders; other ripples above order 6", assumptions=[REAL, "coefficient constants produced by sin/cos/sinh at fixed arguments are compared with relative tolerance 1e-7"], technique=SE)
prop("C12", bins=["c12"],
     functions=["poly_dyn", "zpk2tf_dyn", "sort_cplx_dyn"],
     bounds={"quick": "up to 5 symbolic roots in every split into pairs and reals and three listing orders, up to 11 numeric roots mixed with symbolic ones; b/a with up to 3 zeros and 4 poles symbolic plus up to 8 numeric; gain and x symbolic; gains scaled by 2^-80, 2^-40, 2^40", "thorough": "up to 6 symbolic, 16 numeric roots"},
     outside="higher degrees with symbolic roots", assumptions=[REAL], technique=SE)
prop("C13", bins=["c13"],
     functions=["zpk2sos_dyn", "nearest_real_complex_idx_dyn", "single_zpksos_dyn", "cplxreal_dyn", "zpk2tf_dyn"],
     bounds={"quick": "all splits of up to 7 zeros and 7 poles into pairs and reals over numeric root tables in three listings, with symbolic gain and z; up to 3 symbolic roots, or one symbolic root among up to 6 (every pairing branch explored); digital and analog; one unpaired symbolic root among up to 4 others; orders up to 20 with numeric roots, repeated zeros at -1; a pair 3e-2..1e-5 from the real axis; pairs sharing a real part with symbolic errors of rounding size; gains scaled by 2^-80, 2^-40, 2^40", "thorough": "more tables and symbolic roots"},
     outside="higher orders; symbolic roots beyond the listed ones", assumptions=[REAL, "the code's tolerance for a conjugate partner (100 eps) is taken as is"], technique=SE)
prop("C11", bins=["c11"],
     functions=["iirfilter_dyn", "butter_dyn", "cheby1_dyn", "cheby2_dyn", "buttap_dyn", "cheb1ap_dyn", "cheb2ap_dyn", "lp2lp_zpk_dyn", "lp2hp_zpk_dyn", "lp2bp_zpk_dyn", "lp2bs_zpk_dyn", "bilinear_zpk_dyn"],
     bounds={"quick": "Butterworth, Chebyshev I and II, four band types, analog and digital, with and without fs (symbolic): symbolic critical frequencies for orders up to 6 (low/highpass analog), 4 (digital), 1..2 (band types), numeric ones for orders up to 8; every z or s; numeric designs of orders up to 20 (low/highpass) and 10 (band types)", "thorough": "orders up to 10; symbolic critical frequencies attempted at every order"},
     outside="higher orders; ripples other than {0.5, 3} and {20, 47.5} dB; Chebyshev II highpass and bandstop of order 2 and more (listed finding): only that the stages are put together as specified", assumptions=[REAL, DIV, "constants produced by sin/cos/sinh/tan at fixed arguments are compared with relative tolerance 1e-7"], technique=SE)
prop("C14", bins=["c14"],
     functions=["iirfilter_dyn", "butter_dyn", "cheby1_dyn", "cheby2_dyn", "zpk2tf_dyn", "zpk2sos_dyn"],
     bounds={"quick": "every combination of family, band type, analog flag, 0..3 critical frequencies, ripple and attenuation given or not, fs given or not, all values symbolic; rejection for orders 1, 2, 5, acceptance for order 1; output formats compared for orders 1..6 at two specifications each, every z", "thorough": "every output format with every combination; orders up to 9"},
     outside="higher orders; elliptic and Bessel families (todo!() in the code); zero ripple or fs", assumptions=[REAL, DIV], technique=SE)
prop("C16", bins=["c16"],
     functions=["mean", "variance", "stdev", "autocorr", "lag_diff", "rmssd", "zscore"],
     bounds={"quick": "lengths 0..24, 33, 64 , every sample symbolic for mean, variance and deviation, up to 8 for the others, 100, 257, 1000, 1030 with 3..5; autocorrelation at every lag for lengths up to 14; samples by reference and by value from an iterator of unknown length; 1..8 samples also scaled by 2^-60 and 2^60; mean of 0..12, 33 and 100 integer samples", "thorough": "lengths 0..40 with every sample symbolic"},
     outside="longer signals; more symbolic samples at large lengths; constant signals where a division by the deviation is taken", assumptions=[REAL, DIV], technique=SE)
prop("C17", bins=["c17"],
     functions=["median", "quickselect", "median_abs_deviation", "mod_zscore"],
     bounds={"quick": "median of up to 5 symbolic samples (every order and tie), MAD and modified z-score of up to 3; lengths 4..14 with one or two symbolic samples, and 19, 20, 33, 40 with one, among numbers with and without ties; 2..3 samples also scaled by 2^-80 and 2^80; median of up to 4 symbolic integers and of longer ones with one or two", "thorough": "up to 6 and 4 symbolic samples; lengths up to 26 with every position symbolic"},
     outside="more symbolic samples; machine overflow of integer sums; direction in which an integer mean is rounded", assumptions=[REAL, DIV], technique=SE)
prop("C15", bins=["c15"],
     functions=["savgol_coeffs_dyn", "savgol_filter_dyn"],
     bounds={"quick": "windows 1..17, 21, 25, 31 with orders 0..5, every derivative up to order+2, symbolic spacing, every polynomial (symbolic coefficients); filtering with odd windows 3..11 and orders 0..4 on 0..2w+1 symbolic samples from five kinds of iterator; windows up to 101 and signals up to 1030 samples with a few symbolic samples; rejection for windows and orders 0..12; four filters also on signals scaled by 2^-80 and 2^80", "thorough": "windows up to 35; filtering with windows up to 15"},
     outside="larger windows and orders; longer signals", assumptions=[REAL, "the singular value decomposition runs on numbers and is only required to be accurate to 1e-5 (orders 0..3) or 1e-3 (orders 4, 5) in units of the half window"], technique=SE)
FFT = "the scalar algorithms of rustfft are executed symbolically; the vectorised ones it picks for f32 and f64 run only when cases are replayed on numbers"
prop("C19", bins=["c19"],
     functions=["convolve", "correlate", "fftconvolve"],
     bounds={"quick": "every pair of lengths 1..9 with every sample of both signals symbolic, every mode; 14 longer pairs up to 130 samples with two symbolic samples in each signal; five pairs of lengths also scaled by 2^-60 and 2^60", "thorough": "lengths 1..12; the longer pairs also with twelve symbolic samples in either signal"},
     outside="longer signals; empty signals", assumptions=[REAL, FFT, "twiddle factors are binary numbers, so results are compared with relative tolerance 1e-6"], technique=SE)
prop("C20", bins=["c20"],
     functions=["resample"],
     bounds={"quick": "signals of 1..13 symbolic samples to 0..16 samples, and all combinations of harmonics with symbolic amplitudes at those sizes; 19 longer sizes up to 250 with six symbolic samples; six pairs of sizes also scaled by 2^-80 and 2^80", "thorough": "1..20 to 0..23 samples"},
     outside="longer signals; the single harmonic at exactly half of the smaller length, which the code halves", assumptions=[REAL, FFT, "twiddle factors are binary numbers, so results are compared with relative tolerance 1e-6"], technique=SE)
prop("C21", bins=["c21"],
     functions=["square"],
     bounds={"quick": "t symbolic over [-120, 120], [-1000, 1000] and around 1e5, duty symbolic over [0, 1]; t in the first period on either side including the jumps; whole-period shifts up to 1000; 12 shapes of up to 4 dimensions in three memory layouts with one symbolic element and symbolic duty; 8 shapes of up to 4500 elements with one symbolic element or symbolic duty", "thorough": "t in [-400, 400], every element position symbolic"},
     outside="times beyond those ranges; rounding within 1e-7 of a jump away from the first period; more dimensions", assumptions=[REAL, "2 pi is the double nearest to it"], technique=SE)
IR = "symbolic execution of the compiled code's LLVM representation + SMT (z3)"
IRN = "the optimised LLVM code (vectorisation off, overflow and debug assertions on) stands for the machine code; entry points of /verif/ir fix the types"
prop("C03", bins=["c03"], ir=True,
     functions=["sosfilt_fast32_st", "sosfilt_ifast32_st", "_sosfilt32", "_sosfilt_isize_32", "biquad_fold"],
     bounds={"quick": "0..13 sections, lengths 0..9, 12, 15, 16 (at most 130 section-samples), samples f32, i8, u8, i16, isize, two successive calls, eight pairs of unequal lengths, up to 4100 samples with three of them symbolic; otherwise all samples, coefficients and states symbolic; every memory access checked; 1..12 sections also scaled by 2^-60 and 2^60", "thorough": "0..24 sections, lengths up to 66"},
     outside="more sections or longer signals; isize samples beyond 2^23, where the conversion to f32 rounds", assumptions=[REAL, IRN], technique=IR)
prop("C18", bins=["c18"], ir=True,
     functions=["autocorr_fast32", "rms_fast32"],
     bounds={"quick": "lengths 1..13, 15..20, 23, 24, 27, 32, 33 with up to 30 choices of lag count and skip each (331 in all), 18 rejected requests, 40..101 for the root mean square; every sample symbolic; every memory access checked; lengths up to 8 (20) also scaled by 2^-40 and 2^40", "thorough": "lengths up to 101"},
     outside="other lengths and lag ranges", assumptions=[REAL, IRN], technique=IR)
prop("C22", bins=["c22"], ir=True,
     functions=["Bessel::i0, i0e for f32, f64, Vec and ArrayD", "chbevl"],
     bounds={"quick": "x in [-8, 8] in 16 boxes and 32/x in (0, 4] in 18 boxes plus the tail, both signs, against rigorous polynomial enclosures of the Bessel function, accuracy 1e-14 (f64) and 3e-6 (f32); evenness and scaling over [-600, 600]; vectors of 0..12 and up to 5000 symbolic elements, 10 array shapes", "thorough": "the same with the wider families of vectors and shapes"},
     outside="|x| beyond the range of exp; rounding of the Chebyshev recurrence", assumptions=[REAL, IRN, "remainder bounds (Taylor, Cauchy, Olver) of the reference enclosures in tools/gen_bessel.py"], technique=IR)
INT = "integers are exact: every value is a polynomial over integer unknowns, wrap-around is decided against the width, and overflow checks are on"
prop("C23", bins=["c23"], ir=True,
     functions=["primint_factorial", "primint_factorial2", "primint_factorialk", "partial_product", "Factorial for the twelve integer types"],
     bounds={"quick": "twelve types; every n whose n!, n!! or n!(k), k <= 6, is representable; k-factorials of one to three factors with step and remainder symbolic (steps up to 1.8e19); every negative n down to -2^52 and at the bottom of the type; every k <= 0; n <= k within 2^14 of the maximum", "thorough": "k <= 12, up to six factors"},
     outside="k-factorials of more factors with symbolic steps", assumptions=[INT, IRN], technique=IR)
prop("C24", bins=["c24"], ir=True,
     functions=["primint_comb", "primint_gcd", "primint_comb_rep", "primint_perm", "primint_stirling2", "Combinatoric for the twelve integer types"],
     bounds={"quick": "twelve types; binomials and combinations with repetition for k or n-k <= 3 (4 for u8 i8 u16 i32 u64 i128): n symbolic, by residue class, over the whole representable range (2^44 classes from either end); larger k: the 7 smallest and 7 largest representable n; k-permutations for every k with n symbolic over the whole range; Stirling numbers for n <= 6 and for k or n-k <= 5 with n up to 150; k > n, negative n, negative k symbolic", "thorough": "k up to 5 over the whole range, 61 values from either end for larger k, all types; Stirling numbers n <= 11, k or n-k <= 12"},
     outside="binomials with larger k and n between the two windows; Stirling numbers with larger n (the recursion is exponential); n of more than 2^44 classes from both ends", assumptions=[INT, IRN], technique=IR)
NA = {}
