"""Spectrum arithmetic: sample by sample, and the three sums."""
from .common import *
HARNESS = 'spectrum.cpp'
BOUNDS = 'products, sums and scalings: all 400 samples of both operands free in [-8,8]; sum: all 400 samples free; dot and dot3: all samples of one operand free with the others fixed to irregular values, and twelve-sample windows with every operand free; planar cases cover both the static and the member form'
OUTSIDE = 'sample values beyond the stated magnitude'
BUDGET = {'quick': 240, 'thorough': 600}
R = 400


def vec(S, n, lo=-8, hi=8):
    return [S.inp('%s%d' % (n, i), lo, hi) for i in range(R)]


def fixed(k):
    """irregular exactly representable values, different at every index"""
    return [((i * (37 + 2 * k) + 11 * k) % 257 - 128) / 64.0 for i in range(R)]


def each(fn, k):
    def body(S):
        """every sample of the result depends on exactly the samples at its own index"""
        a, b = vec(S, 'a'), vec(S, 'b')
        o = S.vals(S.call(fn, a + b, R, [k]))
        A, B = S.vals(a), S.vals(b)
        for i in range(R):
            S.close('s%d' % i, o[i], A[i] * B[i] if fn == 's_mul' else A[i] + B[i], abs='1e-5')
    return body


def scale(k):
    def body(S):
        """every sample is multiplied by the number"""
        a, f = vec(S, 'a'), S.inp('f', -8, 8)
        o = S.vals(S.call('s_scale', a + [f], R, [k]))
        A, F = S.vals(a), S.val(f)
        for i in range(R):
            S.close('s%d' % i, o[i], A[i] * F, abs='1e-5')
    return body


def flat(k):
    def body(S):
        """the equal-energy spectrum holds its level everywhere (1 by default)"""
        e = S.inp('e', -1000, 1000)
        o = S.vals(S.call('s_flat', [e], R, [k]))
        for i in range(R):
            S.close('s%d' % i, o[i], S.lit(1) if k else S.val(e), abs='1e-6')
    return body


def total(l):
    while len(l) > 1:
        l = [l[i] + l[i + 1] if i + 1 < len(l) else l[i] for i in range(0, len(l), 2)]
    return l[0]


def ssum(k):
    def body(S):
        """the sum counts each of the 400 samples once"""
        a = vec(S, 'a', 0, 8)
        o = S.val(S.call('s_sum', a, 1, [k])[0])
        S.close('sum', o, total(S.vals(a)), abs='0.2')
    return body


def dot(k, w):
    def body(S):
        """the dot product is the sum over all indices of the products"""
        a = vec(S, 'a', -2, 2)
        b = fixed(1)
        if w:
            a = fixed(2)
            for i in range(w[0], w[1]):
                a[i], b[i] = S.inp('a%d' % i, -2, 2), S.inp('b%d' % i, -2, 2)
        o = S.val(S.call('s_dot', a + b, 1, [k])[0])
        A, B = S.vals(a), S.vals(b)
        S.close('dot', o, total([x * y for x, y in zip(A, B)]), abs='0.2')
    return body


def dot3(j, w):
    def body(S):
        """the triple product is the sum over all indices of the products of all three"""
        v = [fixed(i) for i in range(3)]
        if w:
            for q in range(3):
                for i in range(w[0], w[1]):
                    v[q][i] = S.inp('abc'[q] + str(i), -2, 2)
        else:
            v[j] = vec(S, 'a', -2, 2)
        o = S.val(S.call('s_dot3', v[0] + v[1] + v[2], 1)[0])
        V = [S.vals(x) for x in v]
        S.close('dot3', o, total([x * y * z for x, y, z in zip(*V)]), abs='0.3')
    return body


def jobs(tier):
    win = [(i, min(R, i + 12)) for i in (range(0, R, 12) if tier == 'thorough' else (0, 120, 260, 388))]
    out = []
    for k in (0, 1):
        out += [J('mul.%d' % k, each('s_mul', k)), J('add.%d' % k, each('s_add', k)), J('scale.%d' % k, scale(k)), J('flat.%d' % k, flat(k)),
                J('sum.%d' % k, ssum(k), max_terms=2000), J('dot.%d' % k, dot(k, None), max_terms=2000)]
        out += [J('dot.%d.%d' % (k, w[0]), dot(k, w)) for w in win]
    out += [J('dot3.%d' % j, dot3(j, None), max_terms=2000) for j in range(3)] + [J('dot3w.%d' % w[0], dot3(0, w)) for w in win]
    return out
