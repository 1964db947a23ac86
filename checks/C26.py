"""SOLVER::solve: least-squares solution of smallest norm, for every right-hand side."""
import numpy
from .common import *
HARNESS = 'solver.cpp'
BOUNDS = 'fixed matrices of 1 to 6 rows more than 0 and 1 to 4 columns plus two 9-column ones (full rank, rank-deficient, zero, with zero or equal columns or rows, negative, badly scaled by up to 1e3, and whole matrices scaled by 2^-20 and 2^20), every right-hand side in [-8,8]^m; free one-column systems of 1 and 2 (thorough: 3) rows; free diagonal and exchanged-diagonal 2x2 and free scaling of a 2x2 by a power of two; free cut-off on matrices of known singular values; wide systems'
OUTSIDE = 'free entries of a matrix with two or more coupled columns (the QR sweeps depend on them; not within reach of the solver), singular values within a factor 10 of the cut-off'
BUDGET = {'quick': 240, 'thorough': 900}


def rref(a):
    a = [list(r) for r in a]
    m, n, piv, r = len(a), len(a[0]), [], 0
    for c in range(n):
        k = next((i for i in range(r, m) if a[i][c] != 0), None)
        if k is None:
            continue
        a[r], a[k] = a[k], a[r]
        a[r] = [x / a[r][c] for x in a[r]]
        for i in range(m):
            if i != r and a[i][c] != 0:
                f = a[i][c]
                a[i] = [x - f * y for x, y in zip(a[i], a[r])]
        piv.append(c)
        r += 1
    return a[:r], piv


def mm(a, b):
    return [[sum((x * y for x, y in zip(r, c)), Fraction(0)) for c in zip(*b)] for r in a]


def tr(a):
    return [list(r) for r in zip(*a)]


def inv(a):
    n = len(a)
    r, _ = rref([list(x) + [Fraction(int(i == j)) for j in range(n)] for i, x in enumerate(a)])
    return [x[n:] for x in r]


def pinv(a):
    """exact Moore-Penrose inverse"""
    a = [[Fraction(x) for x in r] for r in a]
    F, piv = rref(a)
    if not piv:
        return [[Fraction(0)] * len(a) for _ in a[0]]
    C = [[r[c] for c in piv] for r in a]
    Ft, Ct = tr(F), tr(C)
    return mm(mm(Ft, inv(mm(F, Ft))), mm(inv(mm(Ct, C)), Ct))


def cond(a):
    s = numpy.linalg.svd(numpy.array(a, dtype=float), compute_uv=False)
    s = s[s > 1e-9 * max(s.max(), 1e-30)]
    return float(s.max() / s.min()) if len(s) else 1.0


def fixed(a, tol=None, P=None):
    def body(S):
        """the result is the least-squares solution of smallest norm; the arguments are left alone"""
        m, n = len(a), len(a[0])
        Q = P or pinv(a)
        b = [S.inp('b%d' % i, -8, 8) for i in range(m)]
        flat = [float(x) for r in a for x in r]
        o = S.vals(S.call('sv_solve' if tol is None else 'sv_solvet', flat + b + ([] if tol is None else [tol]), 1 + n + m * n + m, [m, n]))
        S.close('status', o[0], S.lit(0), abs='0.25')
        B = S.vals(b)
        t = Fraction(cond(a)) * Fraction(4, 10 ** 5) / 10
        for j in range(n):
            e = S.lit(0)
            for k in range(m):
                e = e + S.lit(Q[j][k]) * B[k]
            big = max(sum(abs(x) for x in r) for r in Q) * 8
            S.close('x%d' % j, o[1 + j], e, abs=str(float(t * big + Fraction(1, 10 ** 6))))
        for k in range(m * n):
            S.close('A%d' % k, o[1 + n + k], S.lit(Fraction(flat[k])), abs='0')
        for k in range(m):
            S.close('b%d' % k, o[1 + n + m * n + k], B[k], abs='0')
    return body


def column(signs, unit=None):
    def body(S):
        """one unknown: x = (a.b)/(a.a)"""
        m = len(signs)
        a = [x if isinstance(x, float) else S.inp('a%d' % i, *((0.25, 4) if x > 0 else (-4, -0.25))) for i, x in enumerate(signs)]
        b = [S.inp('b%d' % i, -8, 8) for i in range(m)] if unit is None else [float(i == unit) for i in range(m)]
        o = S.vals(S.call('sv_solve', a + b, 2 + 2 * m, [m, 1]))
        S.close('status', o[0], S.lit(0), abs='0.25')
        A = [S.lit(Fraction(x)) if isinstance(x, float) else S.val(x) for x in a]
        B = S.vals(b) if unit is None else [S.lit(int(i == unit)) for i in range(m)]
        num, den = S.lit(0), S.lit(0)
        for x, y in zip(A, B):
            num, den = num + x * y, den + x * x
        S.close('x', o[1] * den, num, abs='1e-4')
    return body


def diagonal(sg, swap, n=2):
    def body(S):
        """independent equations are solved independently, in any order"""
        d = [S.inp('d%d' % i, *((0.25, 4) if sg[i] > 0 else (-4, -0.25))) for i in range(n)]
        b = [S.inp('b%d' % i, -8, 8) for i in range(n)]
        perm = swap
        A = [d[i] if perm[i] == j else 0.0 for i in range(n) for j in range(n)]
        o = S.vals(S.call('sv_solve', A + b, 1 + n + n * n + n, [n, n]))
        S.close('status', o[0], S.lit(0), abs='0.25')
        for i in range(n):
            S.close('x%d' % perm[i], o[1 + perm[i]] * S.val(d[i]), S.val(b[i]), abs='2e-4')
    return body


def wide(m, n):
    def body(S):
        """fewer equations than unknowns: a negative status"""
        v = [S.inp('v%d' % i, -8, 8) for i in range(m * n + m)]
        o = S.vals(S.call('sv_solve', v, 1 + n + m * n + m, [m, n]))
        S.claim_le('status', o[0], S.lit(-1))
    return body


def cut(a, keep, P, lo, hi):
    def body(S):
        """singular values below the cut-off times the largest one are left out, the others are not"""
        m, n = len(a), len(a[0])
        b = [S.inp('b%d' % i, -8, 8) for i in range(m)]
        t = S.inp('tol', lo, hi)
        o = S.vals(S.call('sv_solvet', [float(x) for r in a for x in r] + b + [t], 1 + n + m * n + m, [m, n]))
        B = S.vals(b)
        for j in range(n):
            e = S.lit(0)
            for k in range(m):
                e = e + S.lit(P[j][k]) * B[k]
            S.close('x%d' % j, o[1 + j], e, abs='1e-3')
    return body


def hyp(S):
    """PYTHAG(a,b)^2 = a^2 + b^2, and it is not negative"""
    a, b = S.inp('a', -16, 16), S.inp('b', -16, 16)
    o = S.val(S.call('sv_pythag', [a, b], 1)[0])
    A, B = S.val(a), S.val(b)
    S.close('square', o * o, A * A + B * B, abs='1e-3')
    S.nonneg('sign', o)


def lcg(seed):
    x = seed * 2654435761 % 2 ** 32
    while True:
        x = (1664525 * x + 1013904223) % 2 ** 32
        yield x >> 8


def matrices(count):
    out = []
    g = lcg(5)
    r = lambda k: next(g) % k
    fixed_ = [('zero2', [[0, 0], [0, 0]]), ('zero1', [[0], [0]]), ('one', [[3]]), ('neg', [[-3]]), ('eye3', [[1, 0, 0], [0, 1, 0], [0, 0, 1]]), ('perm3', [[0, 0, 2], [-1, 0, 0], [0, 4, 0]]),
              ('zerocol', [[0, 0, 1], [0, 1, 0], [0, 1, 1]]), ('zerocol4', [[0, 1, 1, 0], [0, 1, 0, 1], [0, 0, -1, 0], [0, -1, -1, 0]]), ('equal', [[1, 1], [2, 2], [-3, -3]]),
              ('scale', [[1000, 1], [3, 2], [-500, 5]]), ('scale2', [[Fraction(1, 1024), 0], [0, 1], [Fraction(1, 512), 3]]), ('big', [[2000, 3000], [1000, -4000]]), ('small', [[Fraction(1, 4096), Fraction(1, 2048)], [Fraction(-3, 4096), Fraction(1, 1024)]]),
              ('upper', [[2, 1, -1], [0, 3, 1], [0, 0, 1]]), ('lower', [[2, 0, 0], [1, 3, 0], [-1, 1, 1]]), ('rank1', [[1, 2, 3], [2, 4, 6], [3, 6, 9], [-1, -2, -3]])]
    out += fixed_
    for nm, a in fixed_[3:]:
        out += [(nm + '.tiny', [[Fraction(x) / 2 ** 20 for x in r] for r in a]), (nm + '.huge', [[Fraction(x) * 2 ** 20 for x in r] for r in a])]
    n9 = [[((i * 7 + j * 5 + i * j * 3) % 11) - 5 + (4 if i == j else 0) for j in range(9)] for i in range(12)]
    out += [('nine', n9), ('nine0', [[0 if j in (2, 5) else x for j, x in enumerate(row)] for row in n9])]
    k = 0
    while len(out) < count:
        k += 1
        n = 1 + r(4)
        m = n + r(3)
        kind = r(5)
        a = [[(r(3) - 1) if kind == 0 else (r(9) - 4) if kind == 1 else Fraction(r(129) - 64, 16) for _ in range(n)] for _ in range(m)]
        if kind == 3 and n > 1:
            c, d = r(n), r(n)
            for row in a:
                row[d] = row[c]
        if kind == 4:
            c = r(n)
            for row in a:
                row[c] = Fraction(0)
        if cond(a) > 200:
            continue
        out.append(('m%d' % k, a))
    return out


def jobs(tier):
    th = tier == 'thorough'
    out = [J('lsq.%s' % n, fixed(a)) for n, a in matrices(740 if th else 200)]
    out += [J('column.%s' % n, column(s)) for n, s in (('p', (1,)), ('n', (-1,)), ('0p', (0.0, 1)), ('n0', (-1, 0.0)), ('00p', (0.0, 0.0, 1)))]
    for c in (0.5, -3.0) + ((1.0, -1.0, 6.0, 1 / 16.0) if th else ()):
        for sg in (1, -1):
            for s in ((sg, c), (c, sg)):
                out += [J('column.%s.%s.%d' % (s + (i,)), column(s, i)) for i in range(2)]
    for s in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
        for p in ((0, 1), (1, 0)):
            out.append(J('diag.%s.%d' % (''.join('n0p'[x + 1] for x in s), p[0]), diagonal(s, p)))
    out += [J('wide.%d.%d' % s, wide(*s)) for s in ((1, 2), (1, 3), (2, 3), (3, 4), (2, 9))]
    # [[3,-4],[4,3]]/5 is a rotation: singular values 5s and 5t
    for s, t in ((8, 1), (16, 2), (64, 1)):
        a = [[3 * s, -4 * t], [4 * s, 3 * t]]
        full = pinv(a)
        one = [[Fraction(3, 25 * s), Fraction(4, 25 * s)], [Fraction(0)] * 2]
        q = t / s
        out.append(J('cut.%d.%d.keep' % (s, t), cut(a, 2, full, 0.0, q * 0.75)))
        out.append(J('cut.%d.%d.drop' % (s, t), cut(a, 1, one, q * 1.5, 0.9)))
    out.append(J('pythag', hyp))
    return out
