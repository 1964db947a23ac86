"""Gamut built from primaries and white, or from a matrix."""
from .common import *
from engine.expr import f32
HARNESS = 'color.cpp'
BOUNDS = 'two of the eight chromaticity coordinates at a time (each primary, the white, and three mixed pairs) within +-0.04 of five primary sets (Rec.709, Rec.2020, P3, S-Gamut, Adobe with white E), the others at the set; stimuli in [-1,2]; matrices: entries within +-0.1 of the sRGB matrix (all nine free for the inverse, two or three at a time for the primaries)'
OUTSIDE = 'more than two coordinates moving at once, primary sets far from the five families; degenerate (collinear) primaries'
BUDGET = {'quick': 240, 'thorough': 900}
SETS = {'709': (0.64, 0.33, 0.30, 0.60, 0.15, 0.06, 0.3127, 0.3290), '2020': (0.708, 0.292, 0.17, 0.797, 0.131, 0.046, 0.3127, 0.3290),
        'P3': (0.68, 0.32, 0.265, 0.69, 0.15, 0.06, 0.314, 0.351), 'SG': (0.73, 0.28, 0.14, 0.855, 0.10, -0.05, 0.3127, 0.3290),
        'Adobe': (0.64, 0.33, 0.21, 0.71, 0.15, 0.06, 0.3333, 0.3333)}
NAMES = ['xR', 'yR', 'xG', 'yG', 'xB', 'yB', 'xW', 'yW']


FREE = {'R': (0, 1), 'G': (2, 3), 'B': (4, 5), 'W': (6, 7), 'RG': (0, 3), 'GB': (2, 5), 'BW': (4, 7)}


def prims(S, s):
    s, fr = s.split('/')
    return [S.inp(n, v - 0.04, v + 0.04) if i in FREE[fr] else f32(v) for i, (n, v) in enumerate(zip(NAMES, SETS[s]))]


def white(S, s):
    """RGB = (1,1,1) gives the white with Y = 1; the row sums of the matrix are the white's XYZ."""
    p = prims(S, s)
    o = S.vals(S.call('g_prim', p, 18))
    P = S.vals(p)
    for i, w in enumerate([P[6] / P[7], S.lit(1), (1 - P[6] - P[7]) / P[7]]):
        S.close('white.' + 'XYZ'[i], o[3 * i] + o[3 * i + 1] + o[3 * i + 2], w, abs='4e-5')


def columns(S, s):
    """Column j has the chromaticity of primary j."""
    p = prims(S, s)
    o = S.vals(S.call('g_prim', p, 18))
    P = S.vals(p)
    for j in range(3):
        x, y = P[2 * j], P[2 * j + 1]
        X, Y, Z = o[j], o[3 + j], o[6 + j]
        t = X + Y + Z
        S.close('x%d' % j, X, x * t, abs='2e-5')
        S.close('y%d' % j, Y, y * t, abs='2e-5')
        S.nonneg('positive%d' % j, t)


def inverse(S, s):
    p = prims(S, s)
    o = S.vals(S.call('g_prim', p, 18))
    a, b = o[:9], o[9:]
    m = matmul(a, b)
    for i in range(9):
        S.close('inv%d' % i, m[i], 1 if i % 4 == 0 else 0, abs='3e-4')


def primaries(S, s):
    p = prims(S, s)
    o = S.vals(S.call('g_prim_primaries', p, 12))
    P = S.vals(p)
    for j, n in enumerate('RGB'):
        S.close(n + '.x', o[3 * j], P[2 * j], abs='1e-4')
        S.close(n + '.y', o[3 * j + 1], P[2 * j + 1], abs='1e-4')
        S.close(n + '.z', o[3 * j + 2], 1 - P[2 * j] - P[2 * j + 1], abs='1e-4')
    for i, w in enumerate([P[6] / P[7], S.lit(1), (1 - P[6] - P[7]) / P[7]]):
        S.close('W.' + 'XYZ'[i], o[9 + i], w, abs='1e-4')


SRGB = (3.2406, -1.5372, -0.4986, -0.9689, 1.8758, 0.0415, 0.0557, -0.2040, 1.0570)


def mat9(S, free=range(9)):
    return [S.inp('m%d' % i, v - 0.1, v + 0.1) if i in free else f32(v) for i, v in enumerate(SRGB)]


def frommat(S):
    m = mat9(S)
    o = S.vals(S.call('g_mat', m, 18))
    M = S.vals(m)
    for i in range(9):
        S.close('keeps%d' % i, o[9 + i], M[i], abs='0')
    q = matmul(o[:9], M)
    for i in range(9):
        S.close('inv%d' % i, q[i], 1 if i % 4 == 0 else 0, abs='4e-5')


def matprims(S, free):
    m = mat9(S, free)
    a = S.vals(S.call('g_mat', m, 18))[:9]
    o = S.vals(S.call('g_mat_primaries', m, 24))
    t = [a[j] + a[3 + j] + a[6 + j] for j in range(3)]
    for j in range(3):
        S.close('vector%d' % j, o[12 + j], t[j], abs='4e-5')
        for i in range(3):
            S.close('prim%d%d' % (j, i), o[3 * j + i] * t[j], a[3 * i + j], abs='4e-5')
            S.close('matrix%d%d' % (i, j), o[15 + 3 * i + j], o[3 * j + i], abs='4e-5')
            if not j:
                S.close('white%d' % i, o[9 + i], a[3 * i] + a[3 * i + 1] + a[3 * i + 2], abs='4e-5')


def apply(S, s):
    p = [f32(v) for v in SETS[s]]
    v = [S.inp(n, -1, 2) for n in 'rgb']
    o = S.vals(S.call('g_prim', p, 18))
    V = S.vals(v)
    for fn, m in (('g_prim_toxyz', o[:9]), ('g_prim_fromxyz', o[9:])):
        r = S.vals(S.call(fn, p + v, 3))
        e = matvec(m, V)
        for i in range(3):
            S.close('%s%d' % (fn[7:], i), r[i], e[i], abs='4e-6')


def jobs(tier):
    out = []
    for s in ['%s/%s' % (a, b) for a in SETS for b in FREE]:
        for n, f in [('white', white), ('inverse', inverse), ('primaries', primaries), ('columns', columns)]:
            out.append(J('%s.%s' % (n, s), lambda S, f=f, s=s: f(S, s)))
    out += [J('matrix', frommat)]
    for f in ((0, 4, 8), (1, 5, 6), (2, 3, 7), (0, 3), (1, 4), (2, 5)):
        out.append(J('matrix.primaries.%s' % ''.join(map(str, f)), lambda S, f=f: matprims(S, f)))
    for s in SETS:
        out.append(J('apply.' + s, lambda S, s=s: apply(S, s)))
    return out
