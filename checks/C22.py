"""Colour differences: uv distance, CIE76, ICtCp."""
from .common import *
HARNESS = 'color.cpp'
BOUNDS = 'ICtCp: every pair of stimuli from four cubes [k,4k] with k = 1/1024, 1/16, 1, 16; uv: coordinates in [-1,1]; CIE76: L in [0,100], a,b in [-128,128]; squared distances compared to 1e-8 (uv: 1e-12)'
OUTSIDE = 'stimuli outside those ranges'
BUDGET = {'quick': 240, 'thorough': 600}
SC = (2.0 ** -10, 2.0 ** -4, 1.0, 16.0)
RNG = {'d_uv': ((0, 100), (-1, 1), (-1, 1)), 'd_e76': ((0, 100), (-128, 128), (-128, 128))}


def pair(S, fn):
    return [S.inp(n + k, *b) for k in '12' for n, b in zip('Lab', RNG[fn])]


def dist2(S, fn, t):
    V = S.vals(t)
    d = [V[i] - V[i + 3] for i in range(3)]
    if fn == 'd_uv':
        d = d[1:]
    r = d[0] * d[0]
    for x in d[1:]:
        r = r + x * x
    return r


def defn(fn):
    def body(S):
        """the square of the result is the sum of squared differences"""
        t = pair(S, fn)
        o = S.val(S.call(fn, t, 1)[0])
        e = dist2(S, fn, t)
        S.close('distance', o * o, e, rel='1e-5', scale=e, abs='1e-8' if fn == 'd_e76' else '1e-12')
        S.nonneg('sign', o)
    return body


def ictcp(k1, k2):
    def body(S):
        """the square of the result is dI^2 + dT^2/4 + dP^2 of the two converted stimuli"""
        t = [S.inp(n + k, 1.0 * s, 4.0 * s) for k, s in (('1', k1), ('2', k2)) for n in 'XYZ']
        o = S.val(S.call('d_ictcp', t, 1)[0])
        a, b = [S.vals(S.cut(S.call('ictcp_to', p, 3))) for p in (t[:3], t[3:])]
        d = [x - y for x, y in zip(a, b)]
        S.close('distance', o * o, d[0] * d[0] + d[1] * d[1] / 4 + d[2] * d[2], rel='1e-5', abs='1e-12')
        S.nonneg('sign', o)
    return body


def jobs(tier):
    out = [J('ictcp.%g.%g' % (a, b), ictcp(a, b), symerr=True) for a in SC for b in SC]
    for fn in ('d_uv', 'd_e76'):
        out.append(J(fn + '.definition', defn(fn), symerr=True))
    return out
