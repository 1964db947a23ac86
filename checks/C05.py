"""xy <-> uv (CIE 1960 UCS) and XYZ <-> Yuv."""
from .common import *
HARNESS = 'color.cpp'
BOUNDS = ('x in [0,0.8], y in [-0.1,1] for xy->uv; u in [0,0.7], v in [0,0.45] for uv->xy; X,Z in [0,100], Y in [1e-3,100] for XYZ->Yuv and the round trip; '
          'round trips over x+y <= 1, y >= 0.01')
OUTSIDE = 'chromaticities near the alychne where the projective denominators vanish'
BUDGET = {'quick': 240, 'thorough': 900}


def to(S):
    Y, x, y = S.inp('Y', 0, 1e4), S.inp('x', 0, 0.8), S.inp('y', -0.1, 1)
    o = S.vals(S.call('yxy_yuv', [Y, x, y], 3))
    Y, x, y = S.vals([Y, x, y])
    d = 3 - 2 * x + 12 * y
    S.close('Y', o[0], Y)
    S.close('u', o[1], 4 * x / d, abs='4e-5')
    S.close('v', o[2], 6 * y / d, abs='4e-5')


def tofine(S):
    Y, x, y = S.inp('Y', 0, 1e4), S.inp('x', 0, 0.8), S.inp('y', 0.05, 1)
    o = S.vals(S.call('yxy_yuv', [Y, x, y], 3))
    Y, x, y = S.vals([Y, x, y])
    d = 3 - 2 * x + 12 * y
    S.close('u', o[1], 4 * x / d, abs='2.5e-6')
    S.close('v', o[2], 6 * y / d, abs='2.5e-6')


def from_(S):
    Y, u, v = S.inp('Y', 0, 1e4), S.inp('u', 0, 0.7), S.inp('v', 0, 0.45)
    o = S.vals(S.call('yuv_yxy', [Y, u, v], 3))
    Y, u, v = S.vals([Y, u, v])
    d = 2 * u - 8 * v + 4
    S.close('Y', o[0], Y)
    S.close('x', o[1], 3 * u / d, abs='2e-5')
    S.close('y', o[2], 2 * v / d, abs='2e-5')


def rt_xy(S):
    Y, x, y = S.inp('Y', 0, 100), S.inp('x', 0, 0.8), S.inp('y', 0.01, 0.9)
    S.assume('le', S.val(x) + S.val(y), 1)
    o = S.vals(S.call('yuv_yxy', S.call('yxy_yuv', [Y, x, y], 3), 3))
    S.close('x', o[1], S.val(x), abs='1e-5')
    S.close('y', o[2], S.val(y), abs='1e-5')


def rt_uv(S):
    Y, u, v = S.inp('Y', 0, 100), S.inp('u', 0, 0.6), S.inp('v', 0.01, 0.4)
    o = S.vals(S.call('yxy_yuv', S.call('yuv_yxy', [Y, u, v], 3), 3))
    S.close('u', o[1], S.val(u), abs='1e-5')
    S.close('v', o[2], S.val(v), abs='1e-5')


def xyz(k):
    def body(S):
        X, Y, Z = S.inp('X', 0, 100), S.inp('Y', 1e-3, 100), S.inp('Z', 0, 100)
        o = S.vals(S.call('yuv_to', [X, Y, Z], 3, [k]))
        X, Y, Z = S.vals([X, Y, Z])
        d = X + 15 * Y + 3 * Z
        S.close('Y', o[0], Y)
        S.close('u', o[1], 4 * X / d, abs='1.5e-5')
        S.close('v', o[2], 6 * Y / d, abs='1.5e-5')
    return body


def xyzfrom(k):
    def body(S):
        Y, u, v = S.inp('Y', 0, 100), S.inp('u', 0, 0.6), S.inp('v', 0.01, 0.4)
        o = S.vals(S.call('yuv_from', [Y, u, v], 3, [k]))
        Y, u, v = S.vals([Y, u, v])
        # X = 3u Y/(2v), Z = Y (4 - u - 10 v)/(2v)
        S.close('Y', o[1], Y)
        S.close('X', o[0] * v, 3 * u * Y / 2, abs='1e-6', rel='1e-5', scale=Y)
        S.close('Z', o[2] * v, (4 - u - 10 * v) * Y / 2, abs='1e-6', rel='1e-5', scale=Y)
    return body


def rt_xyz(S):
    X, Y, Z = S.inp('X', 0.05, 5), S.inp('Y', 0.05, 5), S.inp('Z', 0.05, 5)
    o = S.vals(S.call('yuv_from', S.call('yuv_to', [X, Y, Z], 3, [0]), 3, [0]))
    X, Y, Z = S.vals([X, Y, Z])
    s = X + Y + Z
    S.close('X', o[0], X, abs='1e-6', rel='1e-4', scale=s)
    S.close('Y', o[1], Y)
    S.close('Z', o[2], Z, abs='1e-6', rel='1e-4', scale=s)


def jobs(tier):
    out = [J('xy->uv', to), J('xy->uv.fine', tofine), J('uv->xy', from_), J('roundtrip.xy', rt_xy, symerr=True), J('roundtrip.uv', rt_uv, symerr=True), J('roundtrip.XYZ', rt_xyz)]
    for k in (0, 1, 2):
        out += [J('XYZ->Yuv.%d' % k, xyz(k), symerr=True), J('Yuv->XYZ.%d' % k, xyzfrom(k), symerr=True)]
    return out
