"""OTF::toScreen / toScene: every type, every channel, independently."""
from .otf import *
from engine.expr import f32
HARNESS = 'color.cpp'
BOUNDS = 'all nine transfer types in both directions; the three channels independent over the range in which the scalar function is defined (sRGB, BT.709: [-2,2]; PQ: scene [-1,120], signal [0.01,0.99]; S-Log: scene [-1,12], signal [0,1.09]; S-Log2, S-Log3: scene [-0.01,15], signal [0,1]; HLG: scene [-1,12], signal [-1,1]; gamma: [0.01,4] with exponents 0.4, 0.5, 1, 1.8, 2.2, 2.6, 3, and [0.05,2] with every exponent in [0.25,4] against the scalar function, toScene only; linear: [-1000,1000])'
OUTSIDE = 'channel values outside those ranges'
BUDGET = {'quick': 240, 'thorough': 600}
#        type, scene range, signal range, tolerances
TYPES = {'sRGB': (2, (-2, 2), (-2, 2), '1e-6', '2e-6'), 'BT709': (3, (-2, 2), (-2, 2), '1e-6', '2e-6'),
         'ST2084': (4, (-1, 120), (0.01, 0.99), '2e-4', '0.1'), 'SLog': (5, (-1, 12), (0, 1.09), '4e-6', '1e-4'),
         'SLog2': (6, (-0.01, 15), (0, 1), '4e-6', '1e-4'), 'SLog3': (7, (-0.01, 15), (0, 1), '4e-6', '4e-4'),
         'HLG': (8, (-1, 12), (-1, 1), '2e-6', '4e-5')}


def one(n, back, i):
    def body(S):
        """channel i equals the scalar function of channel i, whatever the others hold"""
        k, sc, sg, t0, t1 = TYPES[n]
        v = [S.inp(c, *(sg if back else sc)) for c in 'RGB']
        o = S.vals(S.call('otf_scene' if back else 'otf_screen', v + [1.0], 3, [k]))
        S.close('channel', o[i], S.val(call(S, n, v[i], back)), abs=t1 if back else t0)
    return body


def other(n, back):
    def body(S):
        """the exponent argument plays no part outside the gamma type"""
        k, sc, sg, t0, t1 = TYPES[n]
        x, g = S.inp('x', *(sg if back else sc)), S.inp('g', 0.5, 3)
        o = S.vals(S.call('otf_scene' if back else 'otf_screen', [x, x, x, g], 3, [k]))
        e = S.val(call(S, n, x, back))
        for i in range(3):
            S.close('channel%d' % i, o[i], e, abs=t1 if back else t0)
    return body


def gamma(back, i, g):
    def body(S):
        v = [S.inp(c, 0.01, 4) for c in 'RGB']
        o = S.vals(S.call('otf_scene' if back else 'otf_screen', v + [f32(g)], 3, [1]))
        x = S.val(v[i])
        S.close('channel', o[i], S.pow(x, S.f(g) if back else 1 / S.f(g)), rel='4e-6', abs='4e-6')
    return body


def anygamma(back):
    def body(S):
        """the exponent passed is the one used"""
        x, g = S.inp('x', 0.05, 2), S.inp('g', 0.25, 4)
        o = S.vals(S.call('otf_scene' if back else 'otf_screen', [x, x, x, g], 3, [1]))
        e = S.val(call(S, 'gamma', x, back, g))
        for i in range(3):
            S.close('channel%d' % i, o[i], e, abs='1e-6', rel='1e-6')
    return body


def linear(S):
    v = [S.inp(c, -1000, 1000) for c in 'RGB']
    g = S.inp('g', 0.5, 3)
    V = S.vals(v)
    for fn in ('otf_screen', 'otf_scene'):
        for i, o in enumerate(S.vals(S.call(fn, v + [g], 3, [0]))):
            S.close(fn + str(i), o, V[i], abs='0')


def default(S):
    """without an exponent the gamma type is the identity"""
    x = S.inp('x', 0.01, 4)
    for fn in ('otf_screen1', 'otf_scene1'):
        S.close(fn, S.val(S.call(fn, [x], 1, [1])[0]), S.val(x), abs='4e-6')


def jobs(tier):
    out = [J('linear', linear), J('default', default)]
    for n in TYPES:
        for d in (False, True):
            s = n + ('.scene' if d else '.screen')
            out += [J('%s.%d' % (s, i), one(n, d, i), max_paths=4000) for i in range(3)] + [J(s + '.g', other(n, d))]
    out += [J('gamma.any.%d' % d, anygamma(d)) for d in (True,)]
    for g in (0.4, 0.5, 1.0, 1.8, 2.2, 2.6, 3.0):
        out += [J('gamma%.1f.%s.%d' % (g, 'scene' if d else 'screen', i), gamma(d, i, g)) for d in (False, True) for i in range(3)]
    return out
