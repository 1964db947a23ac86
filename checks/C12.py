"""Bradford chromatic adaptation."""
from .common import *
from engine.expr import f32
HARNESS = 'color.cpp'
BOUNDS = 'white points with X in [0.8,1.2], Y in [0.8,1.2], Z in [0.3,1.3] with one of the two whites free and the other one of D65, D50, A, C; greys up to 1.5 between ten pairs of the built-in illuminants'
OUTSIDE = 'white points outside that region (a white with a cone response of zero has no adaptation)'
BUDGET = {'quick': 240, 'thorough': 600}
BOX = ((0.8, 1.2), (0.8, 1.2), (0.3, 1.3))


ILL = {'D65': (0.95047, 1.0, 1.08883), 'A': (1.09850, 1.0, 0.35585), 'C': (0.98074, 1.0, 1.18232), 'D50': (0.96422, 1.0, 0.82521)}


def white(S, p):
    return [S.inp('%s%s' % (p, n), *b) for n, b in zip('XYZ', BOX)]


def pair(S, c):
    a, b = c.split('>')
    return [white(S, p) if n == '*' else [f32(x) for x in ILL[n]] for p, n in (('s', a), ('d', b))]


CASES = ['*>' + k for k in ILL] + [k + '>*' for k in ILL]


def cone(S, v):
    return matvec([S.lit(x) for x in BRADFORD], v)


def maps(S, c):
    a, b = pair(S, c)
    m = S.vals(S.call('bradford', a + b, 9))
    A, B = S.vals(a), S.vals(b)
    o = matvec(m, A)
    for i in range(3):
        S.close('white.' + 'XYZ'[i], o[i], B[i], abs='2e-5')


def cones(i):
    def body(S, c):
        """In cone space the matrix is diagonal with the quotients of the cone responses."""
        a, b = pair(S, c)
        m = S.vals(S.call('bradford', a + b, 9))
        la, lb = cone(S, S.vals(a)), cone(S, S.vals(b))
        left = matvec([S.lit(x) for x in inv3(BRADFORD)], [S.lit(1) if j == i else S.lit(0) for j in range(3)])
        # M applied to the cone's basis vector scales it
        o = matvec(m, left)
        for j in range(3):
            S.close('axis%d.%s' % (i, 'XYZ'[j]), o[j] * la[i], left[j] * lb[i], abs='2e-5')
    return body


def same(S):
    a = white(S, 's')
    m = S.vals(S.call('bradford', a + a, 9))
    for i in range(9):
        S.close('identity%d' % i, m[i], 1 if i % 4 == 0 else 0, abs='4e-6')


def back(S, c):
    a, b = pair(S, c)
    x = S.vals(S.call('bradford', a + b, 9))
    y = S.vals(S.call('bradford', b + a, 9))
    m = matmul(x, y)
    for i in range(9):
        S.close('inverse%d' % i, m[i], 1 if i % 4 == 0 else 0, abs='1e-4')


PAIRS = [(6, 3), (3, 6), (6, 0), (0, 6), (5, 6), (6, 8), (2, 3), (7, 4), (9, 10), (11, 6)]


def grey(p):
    def body(S):
        """Every grey of the source white becomes the same grey of the destination white, for the built-in illuminants."""
        a, b = S.call('illuminant', [], 3, [p[0]]), S.call('illuminant', [], 3, [p[1]])
        m = S.call('bradford', a + b, 9)
        k = S.inp('k', 0, 1.5)
        g = S.call('t_scale', a + [k], 3)
        o = S.vals(S.call('t_apply', g + m, 3))
        K = S.val(k)
        for i in range(3):
            S.close('grey%d' % i, o[i], S.val(b[i]) * K, abs='1e-5')
    return body


def jobs(tier):
    out = [J('same', same)]
    for c in CASES:
        for n, f in [('maps', maps), ('back', back)] + [('cone%d' % i, cones(i)) for i in range(3)]:
            out.append(J('%s.%s' % (n, c), lambda S, f=f, c=c: f(S, c)))
    return out + \
        [J('grey.%d.%d' % p, grey(p)) for p in PAIRS]
