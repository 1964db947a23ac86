"""Compile-time square root."""
from .common import *
HARNESS = 'color.cpp'
BOUNDS = 'every x in [2^-120,2^120], zero, and every negative x; iterations that stop within 14 steps plus one for each factor of 4 by which x differs from 1'
OUTSIDE = 'that the iteration stops: a rounding cycle of the last two values cannot be excluded by the relaxation (a longer path is not judged); a relative deviation of the square below 1e-6'
BUDGET = {'quick': 240, 'thorough': 900}


def root(lo, hi):
    def body(S):
        x = S.inp('x', lo, hi)
        o = S.fixpoint(S.val(S.call('u_sqrt', [x], 1)[0]))
        x = S.val(x)
        S.close('square', o * o, x, rel='1e-6', scale=x)
        S.nonneg('positive', o)
    return body


def zero(S):
    S.close('zero', S.val(S.call('u_sqrt', [0.0], 1)[0]), 0)


def negative(S):
    S.close('nan', S.val(S.call('u_sqrtnan', [S.inp('x', -1e30, -1e-30)], 1)[0]), 1)


def jobs(tier):
    out = [J('zero', zero), J('negative', negative)]
    a, b = -60, 60
    for k in range(a, b):
        out.append(J('root.4^%d' % k, root(4.0 ** k, 4.0 ** (k + 1)), unroll=abs(k) + 14))
    return out
