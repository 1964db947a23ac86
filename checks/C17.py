"""Spectrum::fetch and resampling: linear interpolation between samples, end values outside, no read outside the samples."""
from .common import *
HARNESS = 'spectrum.cpp'
BOUNDS = 'tables of 2 to 6 samples with free values in [-4,4]: every wavelength, over eight fixed ranges (among them 0..1, 380..780, 300..1100, -2..5) and over every range with lo in [300,400], hi in [700,800] (2 and 3 samples); a spectrum fetched at every wavelength in windows over [370,790] with all samples near it free; resampling of 2 to 5 free samples to all 400 wavelengths for seven ranges, and of 400 samples; bit-exact: every binary32 wavelength for tables of 2 and 4 samples on seven ranges'
OUTSIDE = 'tables of one sample (no range); ranges with hi <= lo; sample values beyond 4 in magnitude (the arithmetic is linear in them)'
BUDGET = {'quick': 240, 'thorough': 900}
RANGES = ((0.0, 1.0), (380.0, 780.0), (380.0, 779.0), (300.0, 1100.0), (-2.0, 5.0), (400.0, 700.0), (380.0, 730.0), (0.1, 0.7))


def interp(S, u, s):
    """piecewise linear through s[0..n-1] at u = 0..n-1 (u a real), end values outside"""
    n = len(s)
    if S.le(u, S.lit(0)):
        return s[0]
    for k in range(n - 1):
        if S.le(u, S.lit(k + 1)):
            return s[k] + (s[k + 1] - s[k]) * (u - S.lit(k))
    return s[n - 1]


def fetch(n, lo, hi):
    def body(S):
        """equals linear interpolation between the neighbouring samples, and the end samples outside"""
        w = hi - lo
        t = S.inp('t', lo - w / 4, hi + w / 4)
        s = [S.inp('s%d' % i, -4, 4) for i in range(n)]
        o = S.val(S.call('s_fetch', [lo, hi, t] + s, 1, [n])[0])
        flo, fhi = S.f(lo), S.f(hi)
        u = (S.val(t) - flo) * S.lit(n - 1) / (fhi - flo)
        S.close('interpolation', o, interp(S, u, S.vals(s)), abs='0.004')
    return body


def knot(n, lo, hi, k):
    def body(S):
        """outside the range the end sample is returned exactly; it is the nearest sample that counts"""
        s = [S.inp('s%d' % i, -4, 4) for i in range(n)]
        w = hi - lo
        t = S.inp('t', *((lo - 1000 * w, lo) if k == 0 else (hi, hi + 1000 * w)))
        o = S.val(S.call('s_fetch', [lo, hi, t] + s, 1, [n])[0])
        S.close('end', o, S.val(s[0 if k == 0 else n - 1]), abs='1e-9')
    return body


def free(n):
    def body(S):
        """the same with the range itself free"""
        lo, hi = S.inp('lo', 300, 400), S.inp('hi', 700, 800)
        t = S.inp('t', 250, 850)
        s = [-4.0, 4.0, -1.0][:n]
        o = S.val(S.call('s_fetch', [lo, hi, t] + s, 1, [n])[0])
        u = (S.val(t) - S.val(lo)) * S.lit(n - 1) / (S.val(hi) - S.val(lo))
        S.close('interpolation', o, interp(S, u, S.vals(s)), abs='0.004')
    return body


def at(a, b):
    def body(S):
        """a spectrum read at a wavelength: 380 + i nm is sample i"""
        i0, i1 = min(398, max(0, a - 381)), min(399, b - 379)
        s = [S.inp('s%d' % i, -4, 4) if i0 <= i <= i1 else 100.0 + i for i in range(400)]
        t = S.inp('t', a, b)
        o = S.val(S.call('s_at', [t] + s, 1)[0])
        e = S.vals(s[i0:i1 + 1])
        S.close('interpolation', o, interp(S, S.val(t) - S.lit(380 + i0), e), abs='0.004')
    return body


def resample(n, lo, hi):
    def body(S):
        """every one of the 400 values is the interpolation of the samples at 380 + i nm"""
        s = [S.inp('s%d' % i, -4, 4) for i in range(n)]
        o = S.vals(S.call('s_resample', [lo, hi] + s, 400, [n]))
        v = S.vals(s)
        for i in range(400):
            u = Fraction(380 + i - Fraction(lo)) * (n - 1) / (Fraction(hi) - Fraction(lo))
            k = min(max(int(u), 0), n - 2)
            r = min(max(u - k, 0), 1)
            S.close('value%d' % i, o[i], v[k] * S.lit(1 - r) + v[k + 1] * S.lit(r), abs='0.004')
    return body


def copy(k):
    def body(S):
        """a spectrum built from 400 samples holds them; the default one is zero"""
        s = [S.inp('s%d' % i, -4, 4) for i in range(400)]
        o = S.vals(S.call('s_copy', s, 400, [k]))
        for i in range(400):
            S.close('value%d' % i, o[i], S.val(s[i]) if k < 2 else S.lit(0), abs='1e-4')
    return body


def lerp(S):
    """lerp(a,b,r) = a + (b-a) r"""
    a, b, r = S.inp('a', -100, 100), S.inp('b', -100, 100), S.inp('r', -2, 2)
    o = S.val(S.call('s_lerp', [a, b, r], 1)[0])
    A, B, R = S.vals([a, b, r])
    S.close('lerp', o, A + (B - A) * R, abs='2e-4')


def fw(x):
    import struct
    return struct.unpack('<I', struct.pack('<f', x))[0]


def exact(n, lo, hi):
    def body(S):
        """for every binary32 wavelength: no read outside the samples"""
        t = S.u32('t')
        S.assume(S.land(S.fcmp('oge', t, fw(lo)), S.fcmp('ole', t, fw(hi))))
        o = S.call('s_fetch', [fw(lo), fw(hi), t] + [fw(float(2 ** i)) for i in range(n)], 1, [n], fl=True)[0]
        S.claim('returned', 1)
    return body


def jobs(tier):
    t = tier == 'thorough'
    out = [J('lerp', lerp)]
    for n in ((2, 3, 4, 6) if not t else (2, 3, 4, 5, 6)):
        for lo, hi in RANGES:
            out.append(J('fetch.%d.%g.%g' % (n, lo, hi), fetch(n, lo, hi)))
            for k in (0, 1):
                out.append(J('end%d.%d.%g.%g' % (k, n, lo, hi), knot(n, lo, hi, k)))
    for n in (2, 3):
        out.append(J('free.%d' % n, free(n)))
    for lo, hi in ((0.0, 1.0), (380.0, 779.0), (-2.0, 5.0), (0.1, 0.7), (400.0, 700.0), (-4.0, 0.5), (-400.0, -140.0)):
        for n in (2, 4):
            out.append(BJob('exact.%d.%g.%g' % (n, lo, hi), exact(n, lo, hi), asan=True))
    for a in range(370, 790, 6 if t else 30):
        out.append(J('at.%d' % a, at(a, a + 6)))
    for n in (2, 3, 5):
        for lo, hi in RANGES[1:4] + RANGES[5:7] + ((200.0, 350.0), (800.0, 900.0)):
            out.append(J('resample.%d.%g.%g' % (n, lo, hi), resample(n, lo, hi)))
    for k in range(3):
        out.append(J('copy.%d' % k, copy(k)))
    return out
