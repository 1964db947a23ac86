"""Corrector: the 3x3 matrix that maps measured patches to their targets in the least-squares sense, and the gamut made from it."""
from .common import *
from .C26 import pinv, cond
from engine.expr import f32
HARNESS = 'solver.cpp'
BOUNDS = 'patch sets of 3 to 24 fixed patches (well spread, among them the chart itself under D65); targets: any matrix with entries in [-4,4] applied to the patches, and free targets in [-2,2]; lights: every mix of two lights, with each observer'
OUTSIDE = 'patch sets that do not span the three channels (the matrix is then not determined); free patch values (the decomposition depends on them)'
BUDGET = {'quick': 240, 'thorough': 900}
SETS = {'unit3': [(1, 0, 0), (0, 1, 0), (0, 0, 1)], 'turn3': [(0, 0, .5), (.25, 0, 0), (0, 2, 0)], 'skew3': [(.75, .25, .125), (.125, .5, .25), (0, .25, 1)],
        'four': [(.75, .25, .125), (.125, .5, .25), (0, .25, 1), (1, 1, 1)], 'six': [(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 1, 1), (1, 0, 1), (1, 1, 0)],
        'neg': [(-1, .5, 0), (.25, -.5, 1), (.5, .5, -.25), (1, 1, 1), (0, 0, 0)]}
SETS['twelve'] = [(((i * 5) % 13) / 16 + .0625, ((i * 7 + 3) % 11) / 16, ((i * 3 + 5) % 9) / 8) for i in range(12)]
SETS['chart'] = [(((i * 5) % 23) / 32 + .0625, ((i * 11 + 3) % 24) / 32, ((i * 7 + 5) % 19) / 16) for i in range(24)]


def flat(p):
    return [float(x) for t in p for x in t]


def fit(p):
    """rows r of the fitted matrix: r = sum_i t_i * Q[i] (exact)"""
    P = [[Fraction(x) for x in t] for t in p]
    return pinv(P), cond(p)            # 3 x n


def recover(name, lo=-4, hi=4):
    def body(S):
        """targets that are a matrix applied to the patches: the matrix comes back"""
        p = SETS[name]
        n = len(p)
        Q, c = fit(p)
        t = [S.inp('t%d' % i, -2, 2) for i in range(3 * n)]
        o = S.vals(S.call('co_solve', flat(p) + t, 9, [n]))
        T = S.vals(t)
        tol = str(float(4e-6 * c * float(max(sum(abs(x) for x in r) for r in Q)) * 2 + 1e-6))
        for r in range(3):
            for k in range(3):
                e = S.lit(0)
                for i in range(n):
                    e = e + S.lit(Q[k][i]) * T[3 * i + r]
                S.close('m%d%d' % (r, k), o[3 * r + k], e, abs=tol)
    return body


def scaled(S):
    """three patches of free intensity on the three channels"""
    d = [S.inp(x, 0.25, 2) for x in 'rgb']
    t = [S.inp('t%d' % i, -2, 2) for i in range(9)]
    p = [d[0], 0.0, 0.0, 0.0, d[1], 0.0, 0.0, 0.0, d[2]]
    o = S.vals(S.call('co_solve', p + t, 9, [3]))
    D, T = S.vals(d), S.vals(t)
    for r in range(3):
        for k in range(3):
            S.close('m%d%d' % (r, k), o[3 * r + k] * D[k], T[3 * k + r], abs='1e-4')


CAMERA = (1.5, -0.5, -0.25, -0.75, 1.75, 0.125, 0.125, -0.25, 0.875)


def camera(S):
    """what a camera of that matrix sees of the chart under D65 (fixed numbers)"""
    c = [float(x) for x in S.call('co_chart', [], 72, [-1])]
    return [tuple(f32(sum(CAMERA[3 * r + k] * c[3 * i + k] for k in range(3))) for r in range(3)) for i in range(24)]


def light(k, what, win=175):
    def body(S):
        """the targets are the XYZ of the chart under the light that was passed, D65 and the 1931 observer when none is"""
        p = camera(S)
        Q, c = fit(p)
        l = []
        if k >= 0:
            l = [f32(1 + i / 256.0) for i in range(400)]
            l[win] = S.inp('a', 0, 8)
        L = S.vals(S.call('co_chart', l, 72, [k]))
        o = S.vals(S.call('co_light', flat(p) + l, 9, [k]) if what == 'solve' else S.call('co_gamut', flat(p) + l, 19, [k]))
        M = []
        for r in range(3):
            for q in range(3):
                e = S.lit(0)
                for i in range(24):
                    e = e + S.lit(Q[q][i]) * L[3 * i + r]
                M.append(e)
        for i in range(9):
            S.close('to%d' % i, o[i], M[i], abs='1e-3' if what == 'solve' else '2e-2')
        if what != 'solve':
            I = matmul(o[9:18], M)
            for i in range(9):
                S.close('from%d' % i, I[i], S.lit(int(i % 4 == 0)), abs='1e-2')
            S.close('name', o[18], S.lit(1), abs='0')
    return body


def jobs(tier):
    out = [J('fit.%s' % n, recover(n), max_terms=3000) for n in SETS]
    out.append(J('scaled', scaled))
    out += [J('%s.%d' % (w, k), light(k, w), max_terms=3000, max_instr=40_000_000) for w in ('solve', 'gamut') for k in (-1, 9, 0, 1, 2)]
    return out
