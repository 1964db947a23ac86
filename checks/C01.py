"""Matrix inverse and determinant."""
from .common import *
HARNESS = 'color.cpp'
BOUNDS = 'all binary32 matrices with entries in [-s,s], s in {1, 1e-3, 1e-8, 64, 1e6}, and |det| >= 0.1*s^3 (inverse, error <= 2e-3; with |det| >= 0.6 s^3 error <= 1.2e-4); entries in [-2,2] (determinant); crosstalk ratio in [-1, 0.3]'
OUTSIDE = 'ill-conditioned matrices (|det| below the bound), overflow and subnormal ranges'
BUDGET = {'quick': 240, 'thorough': 1500}


def det_body(k, s):
    def body(S):
        a = mat(S, 'a', -s, s)
        o = S.val(S.call('m_det', a, 1, [k])[0])
        S.close('det', o, dets(S.vals(a)), abs=12 * s ** 3 * 2e-7)
    return body


def inv_body(k, s, sign, left, d=0.1, tol=2e-3):
    def body(S):
        a = mat(S, 'a', -s, s)
        r = S.vals(a)
        if sign > 0:
            S.assume('ge', dets(r), S.lit(repr(d * s ** 3)))
        else:
            S.assume('le', dets(r), S.lit(repr(-d * s ** 3)))
        o = S.vals(S.call('m_inv', a, 9, [k]))
        p = matmul(o, r) if left else matmul(r, o)
        for i in range(3):
            for j in range(3):
                S.close('%s[%d][%d]' % ('inv*m' if left else 'm*inv', i, j), p[3 * i + j], 1 if i == j else 0, abs=tol)
    return body


def ct_body(S):
    r = S.inp('r', -1, 0.3)
    m = S.vals(S.call('m_crosstalk', [r], 9))
    i = S.vals(S.call('m_crosstalk_inv', [r], 9))
    rr = S.val(r)
    for k in range(9):
        S.close('crosstalk[%d]' % k, m[k], (1 - 2 * rr) if k % 4 == 0 else rr, abs=1e-6)
    p = matmul(m, i)
    for k in range(9):
        S.close('m*inv[%d]' % k, p[k], 1 if k % 4 == 0 else 0, abs=3e-5)


def jobs(tier):
    out = [J('crosstalk', ct_body)]
    for k in (0, 1):
        out.append(J('det.%d' % k, det_body(k, 2)))
    for s in (1, 1e-3, 1e-8, 64, 1e6):
        for sign in (1, -1):
            for left in (0, 1):
                if tier == 'quick' and s != 1 and left:
                    continue
                out.append(J('inverse.%s.%s.%s' % (s, 'pos' if sign > 0 else 'neg', 'left' if left else 'right'),
                             inv_body(0, s, sign, left)))
                if s == 1:
                    out.append(J('inverse.well.%s.%s' % ('pos' if sign > 0 else 'neg', 'left' if left else 'right'),
                                 inv_body(0, s, sign, left, 0.6, 1.2e-4)))
    out.append(J('inverse.static', inv_body(1, 1, 1, 0)))
    return out
