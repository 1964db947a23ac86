"""Vector3 / Tristimulus elementwise operations."""
from .common import *
HARNESS = 'color.cpp'
BOUNDS = ('min/max/min3/max3/clip/positive/hasNegative/accessors: every non-NaN binary32 pattern, bit-exact; '
          'scale/add/mul/dot/apply: all binary32 values in [-64,64]; division by magnitudes in [1/16,16]')
OUTSIDE = 'NaN operands of the ordering operations; overflow in the arithmetic ones'
BUDGET = {'quick': 240, 'thorough': 900}


def words(S, pre, n):
    w = [S.u32('%s%d' % (pre, i)) for i in range(n)]
    for x in w:
        S.assume(S.lnot(S.isnan(x)))
    return w


def mn(S, a, b):
    return S.ite(S.fcmp('olt', a, b), a, b)


def mx(S, a, b):
    return S.ite(S.fcmp('ogt', a, b), a, b)


def minmax(fn, k, f):
    def body(S):
        a, b = words(S, 'a', 3), words(S, 'b', 3)
        o = S.call(fn, a + b, 3, [k], fl=True)
        for i in range(3):
            S.claim('%s[%d]' % (fn, i), S.fcmp('oeq', o[i], f(S, a[i], b[i])))
    return body


def m3(fn, f):
    def body(S):
        a = words(S, 'a', 3)
        o = S.call(fn, a, 1, [], fl=True)
        S.claim(fn, S.fcmp('oeq', o[0], f(S, f(S, a[0], a[1]), a[2])))
    return body


def clip(k):
    def body(S):
        a, l, h = words(S, 'a', 3), words(S, 'l', 1)[0], words(S, 'h', 1)[0]
        S.assume(S.fcmp('ole', l, h))
        o = S.call('t_clip', a + [l, h], 3, [k], fl=True)
        for i in range(3):
            S.claim('clip[%d].in' % i, S.land(S.fcmp('ole', l, o[i]), S.fcmp('ole', o[i], h)))
            S.claim('clip[%d].id' % i, S.implies(S.land(S.fcmp('ole', l, a[i]), S.fcmp('ole', a[i], h)), S.fcmp('oeq', o[i], a[i])))
            S.claim('clip[%d].lo' % i, S.implies(S.fcmp('olt', a[i], l), S.fcmp('oeq', o[i], l)))
            S.claim('clip[%d].hi' % i, S.implies(S.fcmp('ogt', a[i], h), S.fcmp('oeq', o[i], h)))
    return body


def positive(k):
    def body(S):
        a = words(S, 'a', 3)
        o = S.call('t_positive', a, 3, [k], fl=True)
        n = S.call('t_hasneg', a, 1, [k], fl=True)
        m = S.call('t_hasneg', o, 1, [k], fl=True)
        for i in range(3):
            S.claim('positive[%d]' % i, S.fcmp('oeq', o[i], S.ite(S.fcmp('ogt', a[i], 0.0), a[i], 0)))
        neg = S.lor(*[S.fcmp('olt', x, 0.0) for x in a])
        S.claim('hasNegative', S.fcmp('oeq', n[0], S.ite(neg, S.asw(1.0), 0)))
        S.claim('positive.hasNegative', S.fcmp('oeq', m[0], 0.0))
    return body


def access(S):
    a = words(S, 'a', 3)
    for fn in ('v_get', 't_get'):
        o = S.call(fn, a, 10, [], fl=True)
        for i in range(9):
            S.claim('%s[%d]' % (fn, i), S.eq(o[i], a[i % 3]))
        S.claim(fn + '.size', S.fcmp('oeq', o[9], 3.0))
    o = S.call('t_ctor', a, 9, [], fl=True)
    for i in range(9):
        S.claim('t_ctor[%d]' % i, S.eq(o[i], a[0] if i < 3 else a[i - 3] if i < 6 else 0))


def arith(k):
    def body(S):
        a, b, s = mat(S, 'a', -64, 64, 3), mat(S, 'b', -64, 64, 3), S.inp('s', -64, 64)
        A, B, s_ = S.vals(a), S.vals(b), S.val(s)
        o = S.vals(S.call('t_scale', a + [s], 3, [k]))
        p = S.vals(S.call('t_add', a + b, 3, [k]))
        m = S.vals(S.call('t_mul', a + b, 3, [k]))
        for i in range(3):
            S.close('scale[%d]' % i, o[i], A[i] * s_, abs=1e-3)
            S.close('add[%d]' % i, p[i], A[i] + B[i], abs=2e-5)
            S.close('mul[%d]' % i, m[i], A[i] * B[i], abs=1e-3)
        if k < 2:
            d = sum3([A[i] * B[i] for i in range(3)])
            S.close('Tristimulus.dot', S.val(S.call('t_dot', a + b, 1, [k])[0]), d, abs=6e-3)
            S.close('Vector3.dot', S.val(S.call('v_dot', a + b, 1, [k])[0]), d, abs=6e-3)
    return body


def exact(k):
    """Single-rounding operations, every bit pattern."""
    def body(S):
        a, b, s = words(S, 'a', 3), words(S, 'b', 3), words(S, 's', 1)[0]
        o = S.call('t_scale', a + [s], 3, [k], fl=True)
        p = S.call('t_add', a + b, 3, [k], fl=True)
        m = S.call('t_mul', a + b, 3, [k], fl=True)
        for i in range(3):
            S.claim('scale[%d]' % i, S.feq(o[i], S.fop('fmul', a[i], s)))
            S.claim('add[%d]' % i, S.feq(p[i], S.fop('fadd', a[i], b[i])))
            S.claim('mul[%d]' % i, S.feq(m[i], S.fop('fmul', a[i], b[i])))
    return body


def apply_(k):
    def body(S):
        a, m = mat(S, 'a', -64, 64, 3), mat(S, 'm', -4, 4)
        o = S.vals(S.call('t_apply', a + m, 3, [k]))
        w = matvec(S.vals(m), S.vals(a))
        for i in range(3):
            S.close('apply[%d]' % i, o[i], w[i], abs=5e-4)
    return body


def divide(neg):
    def body(S):
        a = mat(S, 'a', -64, 64, 3)
        s = S.inp('s', -16, -0.0625) if neg else S.inp('s', 0.0625, 16)
        o = S.vals(S.call('t_div', a + [s], 3))
        for i in range(3):
            S.close('div[%d]' % i, o[i], S.val(a[i]) / S.val(s), abs=4e-4)
    return body


def jobs(tier):
    out = [BJob('access', access), BJob('min3', m3('t_min3', mn)), BJob('max3', m3('t_max3', mx)),
           J('div.pos', divide(0)), J('div.neg', divide(1))]
    for k in (0, 1):
        out += [BJob('min.%d' % k, minmax('t_min', k, mn)), BJob('max.%d' % k, minmax('t_max', k, mx)), BJob('clip.%d' % k, clip(k)),
                BJob('positive.%d' % k, positive(k)), J('apply.%d' % k, apply_(k))]
    for k in (0, 1, 2):
        out += [J('arith.%d' % k, arith(k)), BJob('exact.%d' % k, exact(k))]
    return out
