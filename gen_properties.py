import json
P=[]
S="signal/filter/"
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
       "why_tests_cant":why,"anchors":{"files":["sci-rs/src/"+f for f in files],
       "mechanism":[{"name":n,"where":"sci-rs/src/"+w} for n,w in mech],"observe_at":observe,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":"sci-rs/src/"+c} for a,b,c in state]
    assert len(title)<=80,title
    P.append(d)
p("C01","Second-order-section filtering computes the biquad cascade",
 "Filtering a signal through a cascade of second-order sections (whole-buffer, lazy-iterator or single-sample entry point) yields exactly one output per input sample, and every output equals the transposed direct-form-II biquad recurrence y=b0*x+z0, z0'=b1*x-a1*y+z1, z1'=b2*x-a2*y applied section after section. The result does not depend on the number of sections, on the buffer length, or on which entry point is used, and the delay values left in the sections are those of the same recurrence. Sections built from a flat SciPy-layout coefficient list hold b0,b1,b2,a0,a1,a2 of each row in order with zero initial state.",
 ["inputs","configurations"],"all sample values, all coefficients, all initial states, every number of sections, every signal length",
 "Tests filter one fixed bandpass filter with 4 sections over a sine; other section counts (each with its own code path), arbitrary states and coefficients are never compared with the recurrence.",
 [S+"sosfilt.rs",S+"design/sos.rs"],[("sosfilt_dyn / sosfilt_st / sosfilt_item",S+"sosfilt.rs"),("Sos::from_scipy_dyn",S+"design/sos.rs")],["returned samples","Sos.zi0/zi1 after the call"],
 [("zi0, zi1","filter delays",S+"design/sos.rs")])
p("C02","Section filtering is streaming: any chunking gives the same result",
 "Feeding a signal to a section cascade in any sequence of consecutive chunks, of any sizes including empty and single-sample ones and through any mixture of the generic entry points, yields the same samples and the same final filter state as filtering the whole signal at once. State never leaks between separate filters, and filtering never changes the coefficients.",
 ["histories","inputs"],"all signals, all coefficient sets, all initial states, all splits of the signal into consecutive calls",
 "No test splits a signal over several calls; the state hand-over is an all-histories claim.",
 [S+"sosfilt.rs"],[("state kept in &mut [Sos<F>]",S+"sosfilt.rs")],["concatenated outputs","final zi0/zi1","b/a after the call"],
 [("zi0, zi1","filter delays carried between calls",S+"design/sos.rs")])
p("C03","The 32-bit fast filtering paths equal the generic cascade",
 "The specialised 32-bit filter routines, for float samples and for integer samples, produce for every input length and every number of sections the same output samples and the same final section state as the generic biquad cascade run on the same (converted) samples, writing every output slot exactly once from the right input slot. They reject an output buffer whose length differs from the input's, and do nothing on empty input.",
 ["inputs","configurations"],"all samples, coefficients and initial states; all lengths (multiples of the tile and not); all section counts; sample types i8, i16, isize and f32",
 "Tests cover one filter (4 sections) and one length; the tiled paths for 2,4,6,8,10 sections and the non-multiple-of-4 path are separate code.",
 [S+"sosfilt.rs"],[("_sosfilt32, _sosfilt_isize_32, biquad_fold",S+"sosfilt.rs")],["output buffer","Sos<f32> state"])
p("C04","Step-response initial conditions put the filter in steady state",
 "The initial state returned for a b/a filter, scaled by any constant, is a fixed point: feeding that constant to the transposed direct-form-II filter leaves the state unchanged and every output equals the constant times sum(b)/sum(a), also when a[0] differs from 1; leading zero denominator coefficients are dropped and made up for by trailing zeros. The initial state stored into a section cascade makes the whole cascade respond to a unit step with its DC gain from the first sample on, leaving all states unchanged.",
 ["inputs"],"all coefficient vectors of equal length >= 2 with sum(a) != 0; all cascades",
 "Tests compare with three tables of SciPy numbers; a wrong term that vanishes for normalised or symmetric coefficients passes.",
 [S+"lfilter_zi.rs",S+"sosfilt_zi.rs"],[("lfilter_zi_dyn",S+"lfilter_zi.rs"),("sosfilt_zi_dyn",S+"sosfilt_zi.rs")],["returned zi","Sos.zi0/zi1"])
p("C05","Zero-phase filtering is forward-backward filtering of the odd extension",
 "Forward-backward section filtering returns exactly as many samples as it is given, equal to: odd-extend the signal by 3*ntaps samples per side (ntaps = 2*sections+1 minus the smaller of the counts of zero b2 and zero a2 coefficients), filter forward from the step-response state scaled by the first extended sample, filter the reversed result from the step-response state scaled by its first sample, reverse, and drop the extensions. A constant signal therefore comes back multiplied by the squared DC gain, the caller's sections are not modified, and a signal not longer than the extension is rejected with a panic.",
 ["inputs","configurations"],"all signals, all coefficients with sum(a) != 0, all section counts, lengths on both sides of the rejection threshold",
 "Tests filter one sine with one filter and check a few values.",
 [S+"sosfiltfilt.rs",S+"ext.rs",S+"sosfilt_zi.rs",S+"sosfilt.rs"],[("sosfiltfilt_dyn",S+"sosfiltfilt.rs")],["returned samples","panic on short input"])
p("C06","Odd extension and padding are exact, in bounds, on either axis",
 "Odd extension by n along either axis of a matrix keeps the original block in the middle and fills position i outside the first (last) entry with 2*edge minus the entry mirrored across that edge, for every shape and every n smaller than the extent of that axis; larger n or an unknown axis is rejected with a panic and no element outside the matrix is ever read or written. Padding returns the pad length together with that extension, defaulting to 3*ntaps, and returns the data unchanged when no padding is requested or the length is zero.",
 ["inputs","configurations"],"all matrix entries, all shapes, all n, both axes, default and explicit pad length",
 "Tests check three small matrices with fixed entries; the code indexes without bounds checks, so correctness for every shape and n is a memory-safety claim.",
 [S+"ext.rs"],[("odd_ext_dyn, pad",S+"ext.rs")],["returned matrix","returned edge","panic"])
p("C07","The bilinear transform preserves the transfer function",
 "For every analog zeros/poles/gain filter with at least as many poles as zeros and every sampling rate, the digital filter returned has equal numbers of zeros and poles and its transfer function at every z equals the analog one at s = 2*fs*(z-1)/(z+1), with zeros at infinity moved to z=-1. Improper filters are rejected with a panic.",
 ["inputs"],"all complex zeros and poles closed under conjugation (including real ones) with 2*fs not among them, all gains, all fs > 0, all z",
 "Tests check one fixed 4-pole filter at one sampling rate without zeros and one with.",
 [S+"design/bilinear_zpk.rs",S+"design/relative_degree.rs"],[("bilinear_zpk_dyn",S+"design/bilinear_zpk.rs"),("relative_degree_dyn",S+"design/relative_degree.rs")],["z, p, k of the result"])
p("C08","Analog lowpass-to-lowpass and lowpass-to-highpass substitutions are exact",
 "For every analog prototype in zeros/poles/gain form and every cutoff wo, the lowpass transform returns a filter whose transfer function at s equals the prototype's at s/wo, and the highpass transform one equal to the prototype's at wo/s, with the zeros at infinity moved to the origin. Omitting wo means wo = 1, and a prototype with more zeros than poles is rejected with a panic.",
 ["inputs"],"all conjugate-closed zeros and poles (non-zero for highpass), all gains, all wo > 0, all s",
 "Tests compare with single tables of numbers, and the highpass ones with zeros were generated from the code itself.",
 [S+"design/lp2lp_zpk.rs",S+"design/lp2hp_zpk.rs",S+"design/relative_degree.rs"],[("lp2lp_zpk_dyn",S+"design/lp2lp_zpk.rs"),("lp2hp_zpk_dyn",S+"design/lp2hp_zpk.rs")],["z, p, k of the result"])
p("C09","Analog lowpass-to-bandpass and -bandstop substitutions are exact",
 "For every analog prototype in zeros/poles/gain form, every centre wo and every bandwidth bw, the bandpass transform returns a filter whose transfer function at s equals the prototype's at (s^2+wo^2)/(s*bw) and the bandstop transform one equal to the prototype's at s*bw/(s^2+wo^2). Every finite pole and zero becomes two, zeros at infinity move to the origin (bandpass) or to +-j*wo (bandstop), and omitted wo or bw mean 1.",
 ["inputs"],"all conjugate-closed zeros and poles, all gains, all wo > 0, bw > 0, all s",
 "Tests compare with single tables of numbers; the complex square root behind each duplicated root has branch and sign cases no table exercises.",
 [S+"design/lp2bp_zpk.rs",S+"design/lp2bs_zpk.rs"],[("lp2bp_zpk_dyn",S+"design/lp2bp_zpk.rs"),("lp2bs_zpk_dyn",S+"design/lp2bs_zpk.rs")],["z, p, k of the result"])
p("C10","Analog prototypes have the Butterworth / Chebyshev magnitude response",
 "The analog lowpass prototypes of every order n >= 1 satisfy, at every frequency w: Butterworth |H(jw)|^2 = 1/(1+w^(2n)); Chebyshev I |H(jw)|^2 = 1/(1+(10^(rp/10)-1)*Tn(w)^2); Chebyshev II |H(jw)|^2 = 1/(1+(10^(rs/10)-1)/Tn(1/w)^2), where Tn is the Chebyshev polynomial. All poles lie strictly in the left half plane, poles and zeros are closed under conjugation, each prototype has n poles and respectively 0, 0 and 2*floor(n/2) zeros, and its gain at w = 0 is positive. At order 0 each prototype has no roots and is the constant 1 (Butterworth, Chebyshev II) or 10^(-rp/20), the bottom of the ripple band (Chebyshev I).",
 ["inputs","configurations"],"every order, every ripple rp > 0, every attenuation rs > 0, every frequency w",
 "Tests compare poles at a handful of (order, ripple) pairs with SciPy printouts.",
 [S+"design/iirfilter.rs"],[("buttap_dyn, cheb1ap_dyn, cheb2ap_dyn",S+"design/iirfilter.rs")],["z, p, k of cheb1ap_dyn, cheb2ap_dyn and analog butter_dyn at cutoff 1"])
p("C11","IIR design meets its specification at every cutoff and frequency",
 "A Butterworth, Chebyshev I or Chebyshev II filter designed for order n and critical frequencies Wn has, at every frequency, exactly the response of its analog prototype under the lowpass, highpass, bandpass or bandstop substitution, evaluated for digital filters at the bilinear-warped frequency tan(pi*f/fs) relative to the warped critical frequencies. Specifying fs is equivalent to giving Wn as a fraction of fs/2.",
 ["inputs","configurations"],"all critical frequencies in range, all sampling rates, all ripples/attenuations, every order, band type and filter family, analog and digital",
 "Tests compare about ten concrete designs with SciPy; the design is a chain of transforms whose gain and root placement must agree for every Wn.",
 [S+"design/iirfilter.rs",S+"design/butter.rs",S+"design/lp2lp_zpk.rs",S+"design/lp2hp_zpk.rs",S+"design/lp2bp_zpk.rs",S+"design/lp2bs_zpk.rs",S+"design/bilinear_zpk.rs"],[("iirfilter_dyn, butter_dyn, cheby1_dyn, cheby2_dyn",S+"design/iirfilter.rs")],["Zpk output of butter_dyn, cheby1_dyn, cheby2_dyn, iirfilter_dyn"])
p("C12","Transfer-function coefficients are the expanded zero/pole polynomials",
 "Expanding roots gives the monic polynomial whose value at every x is the product of (x - root), highest power first, with real coefficients whenever the roots are closed under conjugation. Converting zeros/poles/gain to b/a gives coefficient vectors with b(x)/a(x) = k*prod(x-z)/prod(x-p) for every x, both of length order+1 and in descending powers.",
 ["inputs"],"all root multisets closed under conjugation, in every order of listing, all gains, at most order zeros and order poles",
 "Tests check two fixed fourth-order filters, both with as many zeros as poles.",
 [S+"design/zpk2tf.rs",S+"design/cplx.rs"],[("poly_dyn, zpk2tf_dyn",S+"design/zpk2tf.rs"),("sort_cplx_dyn",S+"design/cplx.rs")],["returned coefficient vectors"])
p("C13","Second-order sections multiply back to the original filter",
 "Converting a zeros/poles/gain filter with at least one zero or pole to second-order sections yields ceil(n/2) sections, n the larger of the numbers of zeros and poles, with real coefficients and a[0]=1 whose product equals the original transfer function at every z, for every arrangement of real and conjugate-pair zeros and poles and every gain; for a digital filter with unequal numbers the shorter set is first filled up with roots at the origin, an analog filter has no more zeros than poles. Each conjugate pair stays within one section; imaginary parts of real roots and differences between conjugates of rounding size (100 eps) are tolerated, also between pairs that share a real part, and roots without a conjugate partner are rejected with a panic.",
 ["inputs","configurations"],"all conjugate-closed root multisets in any order (real, complex, near-real), any gain, digital and analog, fewer zeros than poles and equal counts",
 "Tests convert one 4th-order bandpass; the pairing has many data-dependent branches (last real pole, one real zero left, nearest zero).",
 [S+"design/zpk2sos.rs",S+"design/cplx.rs",S+"design/zpk2tf.rs"],[("zpk2sos_dyn, nearest_real_complex_idx_dyn, single_zpksos_dyn",S+"design/zpk2sos.rs"),("cplxreal_dyn",S+"design/cplx.rs")],["Sos.b, Sos.a of the result","panic"])
p("C14","Filter design accepts exactly the valid specifications",
 "Filter design panics whenever the specification is invalid (more than two critical frequencies, one where the band type needs two or the reverse, a non-positive one, band edges not increasing, a digital one at or above Nyquist, fs with an analog filter, negative ripple or attenuation, a missing ripple for Chebyshev I or attenuation for Chebyshev II) and returns a filter whenever it is valid. The zpk, b/a and sections outputs of one specification describe the same transfer function; the default output is b/a and the default band type lowpass for the Butterworth and Chebyshev functions, bandpass for the general one.",
 ["inputs","configurations"],"all critical frequencies, ripples, attenuations and sampling rates; all combinations of family, band type, analog flag, fs and output",
 "Tests call a dozen valid designs and no invalid one.",
 [S+"design/iirfilter.rs",S+"design/butter.rs"],[("validation in iirfilter_dyn",S+"design/iirfilter.rs")],["panic or returned DigitalFilter"])
p("C15","Savitzky-Golay filtering is the local least-squares polynomial fit",
 "The Savitzky-Golay coefficients for window w, order d, derivative m and spacing delta reproduce, for every polynomial of degree at most d, its m-th derivative at the window centre exactly, with minimal norm (they themselves are a polynomial of degree at most d in position), and are all zero when m > d. Filtering returns one sample per input sample, equal to the coefficients applied to the window centred on that sample with the signal extended by its first and last values; an empty signal gives an empty result, whatever iterator supplies the samples, and an even or too small window is rejected with a panic.",
 ["inputs","configurations"],"all signals, all polynomials, all delta != 0, all admissible (window, order, derivative)",
 "Tests compare a few (window, order) pairs on one signal with SciPy output.",
 [S+"savgol_filter.rs"],[("savgol_coeffs_dyn, savgol_filter_dyn",S+"savgol_filter.rs")],["returned coefficients and samples","panic"])
p("C16","Moment statistics match their definitions for every signal",
 "Mean, variance and standard deviation return the population values sum(x)/n, sum((x-mean)^2)/n and its square root together with the number of samples, and (0, 0) for an empty signal; the mean of integer samples is sum(x)/n rounded to a neighbouring integer. z-scores of a non-constant signal are (x-mean)/stdev element by element, lag differences are the n-1 successive differences, rmssd is the root of their mean square, and autocorrelation at lag k is sum((x_i-mean)*(x_{i+k}-mean))/(n*variance) for a non-constant signal.",
 ["inputs"],"all signals of every length, all lags",
 "Doc-tests use [1,2,3,4,5] and one ECG-like table; definitions must hold for every value and length.",
 ["stats.rs"],[("mean, variance, stdev, autocorr, lag_diff, rmssd, zscore","stats.rs")],["returned values"])
p("C17","Median-based statistics are exact order statistics",
 "The median of any non-empty signal is the middle order statistic (odd length) or the mean of the two middle ones (even length), whatever the order of the samples and whatever values repeat, together with the number of samples (for integer samples that mean is rounded to a neighbouring integer); an empty signal gives (0, 0). The median absolute deviation is the median of |x - median|, and the modified z-score of each sample is 0.6745*(x-median)/MAD when MAD is not zero.",
 ["inputs"],"all signals of every length, in every order and with every pattern of ties, floating-point and integer",
 "Tests use six short hand-written arrays; the selection algorithm branches on every comparison of samples.",
 ["stats.rs"],[("quickselect, median, median_abs_deviation, mod_zscore","stats.rs")],["returned values"])
p("C18","The fast 32-bit statistics equal their definitions for every length",
 "The tiled 32-bit autocorrelation removes the mean from its buffer, stores for each requested lag h the full sum of y[i]*y[i+h] over all i, for lags SKIP, SKIP+1, ... in order, and returns the population variance, for every signal length whether or not it is a multiple of the tile. A request for more lags than the signal has (SKIP + M > N) panics. The tiled root-mean-square is sqrt(sum(y^2)/n) for every length.",
 ["inputs","configurations"],"all signals, all lengths, all lag counts and skips with SKIP + M <= N",
 "The test uses one long signal and compares loosely; remainder handling depends on (N - lag) mod 4.",
 ["stats.rs"],[("autocorr_fast32, rms_fast32","stats.rs")],["x, y buffers and returned value"])
p("C19","Convolution and correlation equal their defining sums in every mode",
 "Full convolution of non-empty signals of lengths n1 and n2 has n1+n2-1 samples, the k-th being sum over i of a[i]*b[k-i]; correlation is the convolution with the reversed second signal. Same mode returns the n1 samples starting at (n2-1)/2 of the full result and valid mode the max(n1,n2)-min(n1,n2)+1 samples where the shorter signal lies fully inside the longer, whichever argument is longer.",
 ["inputs","configurations"],"all signals, all pairs of positive lengths (including those that are not powers of two), all modes",
 "Tests convolve two pairs of short signals.",
 ["signal/convolve.rs"],[("fftconvolve, convolve, correlate","signal/convolve.rs")],["returned samples"])
p("C20","Fourier resampling is linear, sized right and exact on low harmonics",
 "Resampling a signal of length m to n samples returns exactly n samples that depend linearly on the input, and every signal composed of harmonics below half of min(m,n) bins (the constant included when at least two bins exist) is reproduced exactly at the new sampling positions k*m/n, for up- and down-sampling. Harmonics above the retained half spectrum are removed, not aliased, and resampling such a band-limited signal up and back down returns it unchanged.",
 ["inputs","configurations"],"all signals (hence all amplitudes and phases of all harmonics), all pairs of lengths, odd and even",
 "Tests resample one sine from 5000 to two sizes.",
 ["signal/resample.rs"],[("resample","signal/resample.rs")],["returned samples"])
p("C21","The square wave follows phase and duty cycle for every time",
 "For every time t and duty cycle d in [0,1] the square wave is +1 when t modulo 2*pi (in [0, 2*pi)) is below 2*pi*d and -1 otherwise, independently for each element of an array of any shape; it is periodic, takes no other value, and keeps the array's shape. A duty cycle outside [0,1] is rejected with a panic.",
 ["inputs"],"all times of either sign and any magnitude, all duty cycles, all array shapes",
 "Tests check a few grids of times at duty 0.5 and some others.",
 ["signal/wave/mod.rs"],[("square","signal/wave/mod.rs")],["returned array","panic"])
p("C22","Bessel i0/i0e are even, consistent, accurate and element-wise",
 "For every finite x, in single and double precision, i0(x) = i0(-x), i0e(x) = exp(-|x|)*i0(x), and i0e(x) agrees with the modified Bessel function of order zero to the accuracy of the type on both sides of and across |x| = 8. Applying i0 or i0e to a vector or array applies it to every element and keeps length and shape.",
 ["inputs"],"all x within the representable range of exp; all vectors and arrays",
 "Tests check a table of points; an altered Chebyshev coefficient or interval shows only at other arguments.",
 ["special/xsf/i0.rs","special/xsf/chbevl.rs","special/bessel.rs"],[("Bessel for f32, f64, Vec, ArrayD","special/bessel.rs"),("chbevl","special/xsf/chbevl.rs")],["returned values"])
p("C23","Factorials are exact whenever the result is representable",
 "For every integer type and every n, factorial, double factorial and k-factorial return the exact mathematical value whenever it fits the type, without overflowing on the way, return 0 for negative n, and 1 for n = 0. The k-factorial rejects k <= 0 with a panic.",
 ["inputs","configurations"],"all n and k of all twelve integer types",
 "Tests enumerate small n for a few types; values near a type's maximum, where intermediate steps can overflow, are not reached.",
 ["special/factorial.rs"],[("primint_factorial, primint_factorial2, primint_factorialk, partial_product","special/factorial.rs")],["returned value","panic (overflow)"])
p("C24","Combinatorial counts are exact whenever the result is representable",
 "For every integer type and every n and k, the binomial coefficient, the k-permutation count and the Stirling number of the second kind equal the mathematical value whenever it fits the type, without overflowing on the way, and are 0 when n < 0, k < 0 or k > n. The number of combinations with repetition equals the binomial coefficient of n+k-1 over k for n >= 1 and k >= 0 whenever that fits the type, and is 0 for negative arguments.",
 ["inputs","configurations"],"all n and k of all twelve integer types",
 "Tests check small tables; intermediate products overflow long before the result does.",
 ["special/combinatorics.rs"],[("primint_comb, primint_comb_rep, primint_perm, primint_stirling2","special/combinatorics.rs")],["returned value","panic (overflow)"])
p("C25","The companion matrix has the given characteristic polynomial",
 "For every coefficient list a[0..m] with a[0] != 0 and m >= 2 the companion matrix is the (m-1)x(m-1) matrix whose first row is -a[i]/a[0], whose first sub-diagonal is one and whose other entries are zero, so its characteristic polynomial is the given polynomial made monic. A stated size below two or an empty list is rejected with a panic. Lists whose length disagrees with the stated size never cause access outside the matrix.",
 ["inputs","configurations"],"all coefficient values, all m, coefficient sources longer or shorter than m",
 "Tests check two fixed polynomials; the code writes without bounds checks.",
 ["linalg/companion.rs"],[("companion_dyn","linalg/companion.rs")],["returned matrix","panic"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
try: import jsonschema
except ImportError: jsonschema=None
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in (P if jsonschema else []): jsonschema.validate(x,sch)
import re
for x in P:
    n=len(re.findall(r'[.;]\s+[A-Z]',x['statement']))+1
    print(x['id'],n)
