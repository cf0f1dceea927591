#!/usr/bin/env python3-vt
"""Writes sym/src/bessel_ref.rs: Taylor polynomials of exp(-x) I0(x) on [0, 8] (in x) and of
sqrt(x) exp(-x) I0(x) for x >= 8 (in u = 32/x), in the scaled variable t in [-1, 1], and the asymptotic
polynomial below u = 32/700.  The truncation errors are bounded as follows.
 [0, 8]: f(x) = (1/pi) int exp(-x(1-cos q)) dq, so |f^(m)| <= 2^m and the remainder after m terms on a
         half width h is at most (2h)^m/m!.
 u-boxes: g is analytic in |u - u0| <= 0.9 u0, where |x| <= 10 x0 and Re x >= x0/1.9, hence
         |g| <= sqrt(10 x0) f(Re x) <= sqrt(19) sup sqrt(y) f(y) <= 2.1; Cauchy's estimate with
         h = u0/8 gives a remainder of at most 2.1 r^m/(1-r), r = h/(0.9 u0).
 asymptotic: Olver's bound: the remainder is at most 2 exp(1/(4x)) times the first omitted term plus exp(-2x)."""
import mpmath as mp, math, os
mp.mp.dps = 60
f = lambda x: mp.exp(-x) * mp.besseli(0, x)
out = ["// generated by tools/gen_bessel.py", "/// (low, high, Taylor coefficients in t, truncation bound)", "pub type Piece = (f64, f64, &'static [f64], f64);"]
def emit(name, rows):
    out.append("#[rustfmt::skip]\npub const %s: &[Piece] = &[" % name)
    for lo, hi, cs, e in rows:
        out.append("    (%r, %r, &[%s], %.1e)," % (lo, hi, ", ".join(repr(float(c)) for c in cs), float(e)))
    out.append("];")
rows = []
for k in range(16):
    lo, hi = k / 2, k / 2 + .5
    c, h, m = (lo + hi) / 2, .25, 22
    cs = mp.taylor(f, mp.mpf(c), m - 1)
    rows.append((lo, hi, [a * mp.mpf(h) ** i for i, a in enumerate(cs)], mp.mpf(2 * h) ** m / mp.factorial(m)))
emit("NEAR", rows)
rows = []
hi = 4.0
g = lambda u: mp.sqrt(32 / u) * f(32 / u)
while hi > 32 / 700:
    lo = math.floor(hi * 7 / 9 * 2**14) / 2**14 + 2.0**-14
    c, h, m = (lo + hi) / 2, (hi - lo) / 2, 24
    cs = mp.taylor(g, mp.mpf(c), m - 1)
    r = mp.mpf(h) / (mp.mpf(c) * .9)
    rows.append((lo, hi, [a * mp.mpf(h) ** i for i, a in enumerate(cs)], 2.1 * r ** m / (1 - r)))
    hi = lo
emit("FAR", rows)
# asymptotic in u directly: sum (1^2 3^2 .. (2k-1)^2)/(k! 8^k x^k)
m = 8
cs = []
for k in range(m):
    a = mp.mpf(1)
    for j in range(1, k + 1):
        a *= mp.mpf((2 * j - 1) ** 2) / (8 * j)
    cs.append(a / mp.sqrt(2 * mp.pi) / mp.mpf(32) ** k)
a = mp.mpf(1)
for j in range(1, m + 1):
    a *= mp.mpf((2 * j - 1) ** 2) / (8 * j)
emit("ASYM", [(0.0, hi, cs, 2.1 * a * (mp.mpf(hi) / 32) ** m + mp.exp(-1390))])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sym", "src", "bessel_ref.rs"), "w").write("\n".join(out) + "\n")
