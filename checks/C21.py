"""Colour of a temperature: fromPlanckianLocus, fromCT, fromCCT."""
from .common import *
HARNESS = 'color.cpp'
BOUNDS = 'every temperature in [1667,25000] K (piecewise cubic) and [1000,10000] K (polynomial), agreement of the two over [1667,10000] K; offset from the locus: every dUV in [-0.05,0.05] at 16 (thorough: 91) temperatures from 1000 to 10000 K; every luminance in [0.01,100] at 8 (91) of them'
OUTSIDE = 'temperatures outside those ranges (the approximations are not meant for them); offsets at other temperatures'
BUDGET = {'quick': 240, 'thorough': 900}


def cubic(S, T):
    """Kim et al.: x as a cubic in 1/T, y as a cubic in x"""
    low = S.lt(T, S.lit(4000))
    k = ('-0.2661239e9', '-0.2343580e6', '0.8776956e3', '0.179910') if low else ('-3.0258469e9', '2.1070379e6', '0.2226347e3', '0.240390')
    a, b, c, d = [S.lit(Fraction(v)) for v in k]
    x = ((a / T + b) / T + c) / T + d
    if S.lt(T, S.lit(2222)):
        k = ('-1.1063814', '-1.34811020', '2.18555832', '-0.20219683')
    elif low:
        k = ('-0.9549476', '-1.37418593', '2.09137015', '-0.16748867')
    else:
        k = ('3.0817580', '-5.87338670', '3.75112997', '-0.37001483')
    return x, [S.lit(Fraction(v)) for v in k]


def chroma(o):
    s = o[0] + o[1] + o[2]
    return o[0] / s, o[1] / s


def planckian(t0, t1):
    def body(S):
        """chromaticity follows the published cubics, luminance is the one asked for (1 by default)"""
        t = S.inp('T', t0, t1)
        o = S.vals(S.call('ct_planckian1', [t], 3))
        T = S.val(t)
        S.close('Y', o[1], S.lit(1), abs='1e-6')
        x, k = cubic(S, T)
        s = o[0] + o[1] + o[2]
        S.close('x', o[0], x * s, rel='1e-5', scale=s)
        S.close('y', o[1], (((k[0] * x + k[1]) * x + k[2]) * x + k[3]) * s, rel='2e-5', scale=s)
    return body


PX = ('0.811973208', '-0.00016747', '0.00000000331067', '0.00000000000690001', '-1.39671E-15', '1.11951E-19', '-3.31672E-24')
PY = ('0.136977825', '0.000317653', '-0.000000127946', '0.0000000000222415', '-1.81438E-15', '5.67564E-20')


def poly(S, c, T):
    r = S.lit(Fraction(c[-1]))
    for k in reversed(c[:-1]):
        r = r * T + S.lit(Fraction(k))
    return r


def ct(t0, t1):
    def body(S):
        """chromaticity follows the published polynomials, luminance is the one asked for (1 by default)"""
        t = S.inp('T', t0, t1)
        o = S.vals(S.call('ct_ct1', [t], 3))
        T = S.val(t)
        S.close('Y', o[1], S.lit(1), abs='1e-6')
        s = o[0] + o[1] + o[2]
        S.close('x', o[0], poly(S, PX, T) * s, rel='2e-5', scale=s)
        S.close('y', o[1], poly(S, PY, T) * s, rel='2e-5', scale=s)
    return body


def agree(t0, t1):
    def body(S):
        """the two independent approximations describe the same locus"""
        t = S.inp('T', t0, t1)
        T = S.val(t)
        a = S.vals(S.call('ct_planckian1', [t], 3))
        b = S.vals(S.call('ct_ct1', [t], 3))
        xa, ya = chroma(a)
        xb, yb = chroma(b)
        S.close('x', xa, xb, abs='0.002')
        S.close('y', ya, yb, abs='0.004')
    return body


def uv(o):
    d = o[0] + 15 * o[1] + 3 * o[2]
    return 4 * o[0] / d, 6 * o[1] / d


def cct(T):
    def body(S):
        """the result lies |dUV| away from the locus in the uv diagram, across it, above it for positive dUV, at the luminance asked for"""
        d = S.inp('dUV', -0.05, 0.05)
        o = S.vals(S.call('ct_cct1', [T, d], 3))
        D = S.val(d)
        u, v = uv(o)
        u0, v0 = uv(S.vals(S.call('ct_ct1', [T], 3)))
        e, f = u - u0, v - v0
        S.close('Y', o[1], S.lit(1), abs='1e-6')
        S.close('distance', e * e + f * f, D * D, abs='4e-7')
        # the locus direction, from a wider step than the code's
        h = T / 500
        u1, v1 = uv(S.vals(S.call('ct_ct1', [T - h], 3)))
        u2, v2 = uv(S.vals(S.call('ct_ct1', [T + h], 3)))
        a, b = u1 - u2, v1 - v2
        # cross product of direction and offset = |direction| dUV
        c = (a * f - b * e)
        n = a * a + b * b
        S.nonneg('side', c * D + S.lit('1e-9'))
        g = a * e + b * f
        S.nonneg('across', n * (D * D / 100 + S.lit('1e-11')) - g * g)
    return body


def lum(fn, T):
    def body(S):
        """the luminance asked for is delivered and scales the whole stimulus"""
        Y = S.inp('Y', 0.01, 100)
        mid = []
        if fn == 'ct_cct':
            mid = [S.inp('dUV', -0.05, 0.05)]
        o = S.vals(S.call(fn, [T] + mid + [Y], 3))
        u = S.vals(S.call(fn + '1', [T] + mid, 3))
        V = S.val(Y)
        S.close('Y', o[1], V, rel='1e-6', scale=V)
        for i in (0, 2):
            S.close('XYZ'[i], o[i], u[i] * V, rel='2e-5', scale=V)
    return body


def jobs(tier):
    t = tier == 'thorough'
    out = []
    ts = (1667, 2222, 3000, 4000, 7000, 12000, 25000)
    for a, b in zip(ts, ts[1:]):
        out.append(J('planckian.%d' % a, planckian(a, b)))
    ts = (1000, 2000, 4000, 6500, 10000)
    for a, b in zip(ts, ts[1:]):
        out.append(J('ct.%d' % a, ct(a, b)))
    ts = (1667, 2222, 3000, 4000, 5000, 6500, 8000, 9000, 10000)
    for a, b in zip(ts, ts[1:]):
        out.append(J('agree.%d' % a, agree(a, b)))
    for T in range(1000, 10001, 100 if t else 600):
        out.append(J('cct.%d' % T, cct(float(T))))
        for fn in ('ct_planckian', 'ct_ct', 'ct_cct'):
            if T % 1200 == 1000 or t:
                out.append(J('luminance.%s.%d' % (fn, T), lum(fn, float(T))))
    return out
