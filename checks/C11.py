"""Built-in gamuts: published primaries, conversions through XYZ."""
from .common import *
HARNESS = 'color.cpp'
BOUNDS = 'all ten built-in gamuts and all 100 ordered pairs; stimuli with every component in [-16,16]'
OUTSIDE = 'components beyond 16 in magnitude (results are linear in the stimulus, so relative accuracy carries over up to overflow)'
BUDGET = {'quick': 240, 'thorough': 600}
R = 16


def vec(S):
    return [S.inp(n, -R, R) for n in 'xyz']


def norm(m):
    return max(sum(abs(m[3 * i + j]) for j in range(3)) for i in range(3))


def tol(c, scale=1):
    return '%.3g' % (float(c) * R * 1e-6 * scale)


def toxyz(k):
    def body(S):
        v = vec(S)
        m = gamut_matrix(k)
        o = S.vals(S.call('g_toxyz', v, 3, [k]))
        for i, e in enumerate(matvec([S.lit(x) for x in m], S.vals(v))):
            S.close('XYZ'[i], o[i], e, abs=tol(norm(m) * 2))
    return body


def fromxyz(k):
    def body(S):
        v = vec(S)
        m = inv3(gamut_matrix(k))
        o = S.vals(S.call('g_fromxyz', v, 3, [k]))
        for i, e in enumerate(matvec([S.lit(x) for x in m], S.vals(v))):
            S.close('RGB'[i], o[i], e, abs=tol(norm(m) * 4))
    return body


def back(k):
    def body(S):
        v = vec(S)
        V = S.vals(v)
        m = gamut_matrix(k)
        c = norm(m) * norm(inv3(m))
        for n, a, b in (('rgb', 'g_toxyz', 'g_fromxyz'), ('xyz', 'g_fromxyz', 'g_toxyz')):
            o = S.vals(S.call(b, S.call(a, v, 3, [k]), 3, [k]))
            for i in range(3):
                S.close('%s%d' % (n, i), o[i], V[i], abs=tol(c * 2))
    return body


def prim(k):
    def body(S):
        p = [S.lit(x) for x in GAMUTS[k][1].split()]
        o = S.vals(S.call('g_primaries', [], 12, [k]))
        for j, n in enumerate('RGB'):
            for i, e in enumerate((p[2 * j], p[2 * j + 1], 1 - p[2 * j] - p[2 * j + 1])):
                S.close('%s.%s' % (n, 'xyz'[i]), o[3 * j + i], e, abs='4e-6')
        for i, e in enumerate((p[6] / p[7], S.lit(1), (1 - p[6] - p[7]) / p[7])):
            S.close('white.' + 'XYZ'[i], o[9 + i], e, abs='4e-6')
        w = S.vals(S.call('g_toxyz', [1.0, 1.0, 1.0], 3, [k]))
        for i, e in enumerate((p[6] / p[7], S.lit(1), (1 - p[6] - p[7]) / p[7])):
            S.close('ones.' + 'XYZ'[i], w[i], e, abs='4e-6')
    return body


def conv(a, b):
    def body(S):
        v = vec(S)
        V = S.vals(v)
        ma, mb = gamut_matrix(a), inv3(gamut_matrix(b))
        c = norm(ma) * norm(mb)
        e = matvec([S.lit(x) for x in matmul(mb, ma)], V)
        o = S.call('g_convert_apply', v, 3, [a, b])
        two = S.vals(S.call('g_fromxyz', S.call('g_toxyz', v, 3, [a]), 3, [b]))
        back = S.vals(S.call('g_convert_apply', o, 3, [b, a]))
        c2 = c * norm(gamut_matrix(b)) * norm(inv3(gamut_matrix(a)))
        m = S.vals(S.call('g_convert', [], 9, [a, b]))
        for i, x in enumerate(matmul(mb, ma)):
            S.close('entry%d' % i, m[i], S.lit(x), abs='%.3g' % (float(c) * 2e-6))
        for i in range(3):
            S.close('direct%d' % i, S.val(o[i]), e[i], abs=tol(c * 2))
            S.close('viaXYZ%d' % i, two[i], S.val(o[i]), abs=tol(c * 4))
            S.close('back%d' % i, back[i], V[i], abs=tol(c2 * 4))
    return body


def jobs(tier):
    out = []
    for k, (n, p) in enumerate(GAMUTS):
        out += [J('toXYZ.' + n, toxyz(k)), J('fromXYZ.' + n, fromxyz(k)), J('back.' + n, back(k))]
        if p:
            out.append(J('primaries.' + n, prim(k)))
    for a in range(10):
        for b in range(10):
            out.append(J('convert.%s.%s' % (GAMUTS[a][0], GAMUTS[b][0]), conv(a, b)))
    return out
