"""CIE 1976 L*a*b*: definition, inverse, reference white."""
from .common import *
HARNESS = 'color.cpp'
BOUNDS = 'X,Y,Z in [0,1.25] with every component at most that of the white; white components in [0.5,1.25]; L in [0,100], a in [-150,150], b in [-200,150] with inverse-curve arguments at most 1'
OUTSIDE = 'stimuli brighter than the reference white (the code saturates them), white components outside [0.5,1.25]'
BUDGET = {'quick': 240, 'thorough': 900}


def f(S, t):
    if S.lt(t, S.lit('216') / 24389):
        return (S.lit('24389') / 27 * t + 16) / 116
    return S.pow(t, S.lit('1') / 3)


def finv(S, t):
    if S.lt(t, S.lit('6') / 29):
        return 3 * (t - S.lit('4') / 29) * 36 / 841
    return S.pow(t, 3)


WHITES = {'D65': (0.95047, 1.0, 1.08883), 'A': (1.0985, 1.0, 0.35585), 'pct': (96.42, 100.0, 82.49)}


def white(S, k, fixed=None):
    if k == 2:
        return [], [S.f(x) for x in (0.9642, 1.0, 0.8249)]
    if fixed:
        return list(WHITES[fixed]), [S.f(x) for x in WHITES[fixed]]
    w = [S.inp('w%d' % i, 0.5, 1.25) for i in range(3)]
    return w, S.vals(w)


def to(k, ch, fixed=None):
    def body(S):
        w, W = white(S, k, fixed)
        t = [S.inp(n, 0, 1.25 if fixed != 'pct' else 110) for n in 'XYZ']
        T = S.vals(t)
        for i in {'L': (1,), 'a': (0, 1), 'b': (1, 2)}[ch]:
            S.assume('le', T[i], W[i])
            if w and not fixed and ch != 'L':
                S.assume('ge', T[i], S.lit('0.00886') * W[i])
        o = S.vals(S.call('lab_to', t + w, 3, [k]))
        fy = f(S, T[1] / W[1])
        if ch == 'L':
            S.close('L', o[0], 116 * fy - 16, abs='3e-4')
        if ch == 'a':
            S.close('a', o[1], 500 * (f(S, T[0] / W[0]) - fy), abs='1.5e-3')
        if ch == 'b':
            S.close('b', o[2], 200 * (fy - f(S, T[2] / W[2])), abs='6e-4')
    return body


def from_(k, ch, fixed=None):
    def body(S):
        w, W = white(S, k, fixed)
        L, a, b = S.inp('L', 0, 100), S.inp('a', -150, 150), S.inp('b', -200, 150)
        o = S.vals(S.call('lab_from', [L, a, b] + w, 3, [k]))
        L, a, b = S.vals([L, a, b])
        fy = (L + 16) / 116
        g = {'X': fy + a / 500, 'Y': fy, 'Z': fy - b / 200}[ch]
        S.assume('le', g, 1)
        if w and not fixed and ch != 'Y':
            S.assume('ge', g, S.lit('0.207'))
        i = 'XYZ'.index(ch)
        S.close(ch, o[i], W[i] * finv(S, g), abs='4e-6' if fixed != 'pct' else '4e-4')
    return body


def rt(k, i):
    def body(S):
        w, W = white(S, k)
        t = [S.inp(n, 0, 1.25) for n in 'XYZ']
        T = S.vals(t)
        for j in {i, 1}:
            S.assume('le', T[j], W[j])
        o = S.vals(S.call('lab_from', S.call('lab_to', t + w, 3, [k]) + w, 3, [k]))
        S.close('XYZ'[i], o[i], T[i], abs='1e-5')
    return body


def rtlab(zone):
  def body(S):
    w, W = white(S, 2)
    L, a, b = S.inp('L', 0, 100), S.inp('a', -150, 150), S.inp('b', -200, 150)
    LL, A, B = S.vals([L, a, b])
    fy = (LL + 16) / 116
    for z, g in zip(zone, (fy + A / 500, fy, fy - B / 200)):
        if z == 'p':
            S.assume('le', g, 1)
            S.assume('ge', g, S.lit('6') / 29 + S.lit('1e-5'))
        else:
            S.assume('ge', g, S.lit('4') / 29)
            S.assume('le', g, S.lit('6') / 29 - S.lit('1e-5'))
    o = S.vals(S.call('lab_to', S.call('lab_from', [L, a, b], 3, [2]), 3, [2]))
    S.close('L', o[0], LL, abs='1e-3')
    S.close('a', o[1], A, abs='5e-3')
    S.close('b', o[2], B, abs='2e-3')
  return body


def ends(k):
    def body(S):
        w = [S.inp('w%d' % i, 0.01, 110) for i in range(3)]
        o = S.vals(S.call('lab_to', w + w, 3, [k]))
        S.close('white.L', o[0], 100, abs='3e-4')
        S.close('white.a', o[1], 0, abs='1e-3')
        S.close('white.b', o[2], 0, abs='1e-3')
        o = S.vals(S.call('lab_from', [100.0, 0.0, 0.0] + w, 3, [k]))
        W = S.vals(w)
        for i in range(3):
            S.close('white.' + 'XYZ'[i], o[i], W[i], rel='2e-6', scale=W[i])
        z = 0.0
        o = S.vals(S.call('lab_to', [z, z, z] + w, 3, [k]))
        for i in range(3):
            S.close('black.' + 'Lab'[i], o[i], 0, abs='1e-4')
        o = S.vals(S.call('lab_from', [z, z, z] + w, 3, [k]))
        for i in range(3):
            S.close('black.' + 'XYZ'[i], o[i], 0, abs='1e-6', rel='1e-6', scale=W[i])
    return body


def jobs(tier):
    out = []
    J = lambda *a: Job(*a, cuts=('cube',))
    for k in (0, 1, 2):
        for ch in 'Lab':
            out.append(J('XYZ->Lab.%d.%s' % (k, ch), to(k, ch)))
        for ch in 'XYZ':
            out.append(J('Lab->XYZ.%d.%s' % (k, ch), from_(k, ch)))
        for i in range(3):
            out.append(J('roundtrip.%d.%s' % (k, 'XYZ'[i]), rt(k, i)))
    for z in ('ppp', 'lpp', 'ppl', 'lpl', 'lll', 'pll', 'llp', 'plp'):
        out.append(J('roundtrip.Lab.' + z, rtlab(z)))
    for w in WHITES:
        for k in (0, 1):
            for ch in 'Lab':
                out.append(J('XYZ->Lab.%d.%s.%s' % (k, ch, w), to(k, ch, w)))
            for ch in 'XYZ':
                out.append(J('Lab->XYZ.%d.%s.%s' % (k, ch, w), from_(k, ch, w)))
    for k in (0, 1):
        out.append(J('ends.%d' % k, ends(k)))
    return out
