"""Matrix algebra: layout, products, application, sums, transpose, and the laws between them."""
from .common import *
HARNESS = 'color.cpp'
BOUNDS = 'all binary32 matrices and vectors with entries in [-4,4]; scale factors in [-8,8], divisors with magnitude in [1/16,16]'
OUTSIDE = 'overflow, NaN and infinity operands; magnitudes beyond the bounds (the formulas are polynomial, but errors scale)'
BUDGET = {'quick': 240, 'thorough': 900}
P = 4


def layout(S):
    a = mat(S, 'a', -P, P)
    r = S.vals(a)
    for nm, o in (('ctor', S.vals(S.call('m_ctor', a, 9))), ('fromArray', S.vals(S.call('m_from_array', a, 9))),
                  ('iteration', S.vals(S.call('m_iter', a, 10)))):
        for i in range(9):
            S.close('%s[%d]' % (nm, i), o[i], r[i])
    S.close('size', o[9], 9)
    o = S.vals(S.call('m_identity', [], 9))
    for i in range(9):
        S.close('identity[%d]' % i, o[i], 1 if i % 4 == 0 else 0)
    for k in range(3):
        o = S.vals(S.call('m_row', a, 3, [k]))
        c = S.vals(S.call('m_col', a, 3, [k]))
        for i in range(3):
            S.close('row%d[%d]' % (k, i), o[i], r[3 * k + i])
            S.close('col%d[%d]' % (k, i), c[i], r[3 * i + k])
    for k in (0, 1):
        o = S.vals(S.call('m_transpose', a, 9, [k]))
        for i in range(3):
            for j in range(3):
                S.close('transpose%d[%d][%d]' % (k, i, j), o[3 * i + j], r[3 * j + i])
    v = a[:3]
    o = S.vals(S.call('m_diag', v, 9))
    for i in range(9):
        S.close('diag[%d]' % i, o[i], r[i // 4] if i % 4 == 0 else 0)


def product(k):
    def body(S):
        a, b = mat(S, 'a', -P, P), mat(S, 'b', -P, P)
        o = S.vals(S.call('m_mul', a + b, 9, [k]))
        w = matmul(S.vals(a), S.vals(b))
        for i in range(9):
            S.close('product[%d]' % i, o[i], w[i], abs=3e-5)
    return body


def apply_(k):
    def body(S):
        a, v = mat(S, 'a', -P, P), mat(S, 'v', -P, P, 3)
        o = S.vals(S.call('m_apply', a + v, 3, [k]))
        w = matvec(S.vals(a), S.vals(v))
        for i in range(3):
            S.close('apply[%d]' % i, o[i], w[i], abs=3e-5)
    return body


def linear(k):
    def body(S):
        a, b = mat(S, 'a', -P, P), mat(S, 'b', -P, P)
        s = S.inp('s', -8, 8)
        A, B, s_ = S.vals(a), S.vals(b), S.val(s)
        o = S.vals(S.call('m_add', a + b, 9, [k]))
        c = S.vals(S.call('m_scale', a + [s], 9, [k]))
        for i in range(9):
            S.close('add[%d]' % i, o[i], A[i] + B[i], abs=2e-6)
            S.close('scale[%d]' % i, c[i], A[i] * s_, abs=8e-6)
    return body


def divide(k, neg):
    def body(S):
        a = mat(S, 'a', -P, P)
        s = S.inp('s', -16, -0.0625) if neg else S.inp('s', 0.0625, 16)
        o = S.vals(S.call('m_div', a + [s], 9, [k]))
        for i in range(9):
            S.close('div[%d]' % i, o[i], S.val(a[i]) / S.val(s), abs=3e-5)
    return body


def compose(S):
    """(A B) v = A (B v)"""
    a, b, v = mat(S, 'a', -2, 2), mat(S, 'b', -2, 2), mat(S, 'v', -2, 2, 3)
    l = S.vals(S.call('m_apply', S.call('m_mul', a + b, 9, [0]) + v, 3, [0]))
    r = S.vals(S.call('m_apply', a + S.call('m_apply', b + v, 3, [0]), 3, [0]))
    for i in range(3):
        S.close('(ab)v=a(bv)[%d]' % i, l[i], r[i], abs=8e-5)


def transprod(S):
    """(A B)^T = B^T A^T, and scaling and division undo each other"""
    a, b = mat(S, 'a', -2, 2), mat(S, 'b', -2, 2)
    l = S.vals(S.call('m_transpose', S.call('m_mul', a + b, 9, [0]), 9, [0]))
    r = S.vals(S.call('m_mul', S.call('m_transpose', b, 9, [0]) + S.call('m_transpose', a, 9, [0]), 9, [0]))
    for i in range(9):
        S.close('(ab)t=btat[%d]' % i, l[i], r[i], abs=1.5e-5)


def identity(S):
    a, v = mat(S, 'a', -P, P), mat(S, 'v', -P, P, 3)
    e = S.call('m_identity', [], 9)
    l = S.vals(S.call('m_mul', e + a, 9, [0]))
    r = S.vals(S.call('m_mul', a + e, 9, [0]))
    w = S.vals(S.call('m_apply', e + v, 3, [0]))
    A = S.vals(a)
    for i in range(9):
        S.close('ia=a[%d]' % i, l[i], A[i], abs=2e-6)
        S.close('ai=a[%d]' % i, r[i], A[i], abs=2e-6)
    for i in range(3):
        S.close('iv=v[%d]' % i, w[i], S.val(v[i]), abs=2e-6)


def jobs(tier):
    out = [J('layout', layout), J('compose', compose), J('transpose.product', transprod), J('identity', identity)]
    for k in (0, 1):
        out += [J('product.%d' % k, product(k)), J('apply.%d' % k, apply_(k)), J('linear.%d' % k, linear(k)),
                J('div.pos.%d' % k, divide(k, 0)), J('div.neg.%d' % k, divide(k, 1))]
    return out
