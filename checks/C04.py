"""XYZ <-> Yxy."""
from .common import *
HARNESS = 'color.cpp'
BOUNDS = ('toYxy: X,Y,Z in [0,1e4] with X+Y+Z >= 2e-8, plus the black point |X+Y+Z| < 0.9e-8 (signed components); fromYxy: Y in [0,1e4], x in [-1,2], '
          '|y| in [2e-8,2] and |y| < 0.9e-8; round trips: X,Z in [0,100], Y in [1e-3,100]; x in [0,1], y in [1e-3,1], x+y <= 1')
OUTSIDE = 'the exact switch-over point of the near-zero guards between 0.9e-8 and 2e-8; X+Y+Z of mixed sign components with cancellation'
BUDGET = {'quick': 240, 'thorough': 900}


def to(k, hi, lo):
    def body(S):
        X, Y, Z = [S.inp(n, 0, hi) for n in 'XYZ']
        x, y, z = S.vals([X, Y, Z])
        s = x + y + z
        S.assume('ge', s, S.lit(lo))
        o = S.vals(S.call('yxy_to', [X, Y, Z], 3, [k]))
        S.close('Y', o[0], y)
        S.close('x', o[1] * s, x, rel='1e-6', scale=s)
        S.close('y', o[2] * s, y, rel='1e-6', scale=s)
    return body


def black(S):
    X, Y, Z = [S.inp(n, -4e-9, 4e-9) for n in 'XYZ']
    x, y, z = S.vals([X, Y, Z])
    s = x + y + z
    S.assume('le', s, S.lit('0.9e-8'))
    S.assume('ge', s, S.lit('-0.9e-8'))
    o = S.vals(S.call('yxy_to', [X, Y, Z], 3, [0]))
    S.close('Y', o[0], y)
    S.close('x=white', o[1], S.f(0.3127), abs='1e-7')
    S.close('y=white', o[2], S.f(0.3290), abs='1e-7')


def from_(k, ylo, yhi):
    def body(S):
        Y, x, y = S.inp('Y', 0, 1e4), S.inp('x', -1, 2), S.inp('y', ylo, yhi)
        o = S.vals(S.call('yxy_from', [Y, x, y], 3, [k]))
        Y, x, y = S.vals([Y, x, y])
        S.close('Y', o[1], Y)
        ay = y if ylo > 0 else -y
        # X = xY/y, Z = (1-x-y)Y/y
        S.close('X', o[0] * y, x * Y, abs='1e-38', rel='5e-7', scale=2 * Y)
        S.close('Z', o[2] * y, (1 - x - y) * Y, abs='1e-38', rel='5e-7', scale=3 * Y)
    return body


def fromzero(S):
    Y, x, y = S.inp('Y', -1e4, 1e4), S.inp('x', -2, 2), S.inp('y', -0.9e-8, 0.9e-8)
    o = S.vals(S.call('yxy_from', [Y, x, y], 3, [0]))
    S.close('Y', o[1], S.val(Y))
    S.close('X', o[0], 0)
    S.close('Z', o[2], 0)


def rt(S):
    X, Y, Z = S.inp('X', 0, 100), S.inp('Y', 1e-3, 100), S.inp('Z', 0, 100)
    o = S.vals(S.call('yxy_from', S.call('yxy_to', [X, Y, Z], 3, [0]), 3, [0]))
    X, Y, Z = S.vals([X, Y, Z])
    s = X + Y + Z
    S.close('X', o[0], X, rel='2e-6', scale=s)
    S.close('Y', o[1], Y)
    S.close('Z', o[2], Z, rel='2e-6', scale=s)


def rt2(S):
    Y, x, y = S.inp('Y', 1e-3, 100), S.inp('x', 0, 1), S.inp('y', 1e-3, 1)
    S.assume('le', S.val(x) + S.val(y), 1)
    o = S.vals(S.call('yxy_to', S.call('yxy_from', [Y, x, y], 3, [0]), 3, [0]))
    S.close('Y', o[0], S.val(Y))
    S.close('x', o[1], S.val(x), abs='2e-6')
    S.close('y', o[2], S.val(y), abs='2e-6')


def jobs(tier):
    out = [J('black', black), J('from.y=0', fromzero), J('roundtrip.XYZ', rt, symerr=True), J('roundtrip.Yxy', rt2, symerr=True)]
    for k in (0, 1, 2):
        out += [J('to.%d' % k, to(k, 1e4, '1e-3')), J('to.dark.%d' % k, to(k, 1e-2, '2e-8')),
                J('from.%d' % k, from_(k, 2e-8, 2), symerr=True), J('from.neg.%d' % k, from_(k, -2, -2e-8), symerr=True)]
    return out
