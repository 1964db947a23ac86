"""ICtCp: published definition in both directions, grey axis."""
from .common import *
HARNESS = 'color.cpp'
BOUNDS = 'X,Y,Z in [0,100] (1 = 100 cd/m2) with cone responses in [max/200,99.99] for max 100, 1 and 0.01, and clipped responses below 0 or above 100; I in [0.01,0.99], Ct,Cp in [-0.5,0.5] with PQ signals in [0.01,0.99]'
OUTSIDE = 'cone responses in (0,0.001), PQ signals below 0.01 or above 0.99'
BUDGET = {'quick': 240, 'thorough': 900}
LMS = ['0.3592', '0.6976', '-0.0358', '-0.1922', '1.1004', '0.0755', '0.0070', '0.0749', '0.8434']
M1, M2, C1, C2, C3 = '0.1593017578125', '78.84375', '0.8359375', '18.8515625', '18.6875'
INV = [(1, '0.00860904', '0.11103'), (1, '-0.00860904', '-0.11103'), (1, '0.560031', '-0.320627')]


def F(S, x):
    return S.f(float(x))


def pq(S, y):
    """SMPTE ST 2084 inverse EOTF, y in units of 100 cd/m2."""
    m = S.pow(y / 100, F(S, M1))
    return S.pow((F(S, C1) + F(S, C2) * m) / (1 + F(S, C3) * m), F(S, M2))


def eotf(S, n):
    p = S.pow(n, 1 / F(S, M2))
    l = (p - F(S, C1))
    return 100 * S.pow(l / (F(S, C2) - F(S, C3) * p), 1 / F(S, M1))


def out(S, v):
    q = [S.lit(x) for x in ('6610', '-13613', '7003', '17933', '-17390', '-543')]
    return [(v[0] + v[1]) / 2, (q[0] * v[0] + q[1] * v[1] + q[2] * v[2]) / 4096, (q[3] * v[0] + q[4] * v[1] + q[5] * v[2]) / 4096]


def to(i, sat=None, top=100):
    def body(S):
        t = [S.inp(n, 0, top) for n in 'XYZ'] if sat is None else [S.inp(n, -200, 200) for n in 'XYZ']
        T = S.vals(t)
        lms = matvec([F(S, x) for x in LMS], T)
        p = []
        for j, v in enumerate(lms):
            if sat is not None and sat[j] == '0':
                S.assume('le', v, S.lit('-1e-3'))
                p.append(S.lit('0'))
            elif sat is not None and sat[j] == '1':
                S.assume('ge', v, S.lit('100.001'))
                p.append(S.lit('1'))
            else:
                S.assume('ge', v, S.lit(Fraction(top) / 200 if sat is None else 2))
                S.assume('le', v, S.lit('99.99'))
                p.append(pq(S, v))
        o = S.vals(S.call('ictcp_to', t, 3))
        S.close(['I', 'Ct', 'Cp'][i], o[i], out(S, p)[i], abs=['2e-4', '1e-3', '1.5e-3'][i])
    return body


def frm(i):
    def body(S):
        c = [S.inp('I', 0.01, 0.99), S.inp('Ct', -0.5, 0.5), S.inp('Cp', -0.5, 0.5)]
        C = S.vals(c)
        n = [C[0] + F(S, r[1]) * C[1] + F(S, r[2]) * C[2] for r in INV]
        for v in n:
            S.assume('ge', v, S.lit('0.01'))
            S.assume('le', v, S.lit('0.99'))
        o = S.vals(S.call('ictcp_from', c, 3))
        l = [eotf(S, v) for v in n]
        w = matvec([S.lit(x) for x in inv3(LMS)], l)
        m = 0
        for v in l:
            m = m + v
        S.close('XYZ'[i], o[i], w[i], rel='2e-3', scale=m, abs='1e-5')
    return body


def jobs(tier):
    r = []
    for i in range(3):
        r += [J('XYZ->ICtCp.%d.%s' % (i, m), to(i, top=m)) for m in (100, 1, 0.01)]
        r += [J('ICtCp->XYZ.%d' % i, frm(i))]
    for s in ('000', '111', '01x', 'x10', '0x1'):
        for i in range(3):
            r.append(J('clip.%s.%d' % (s, i), to(i, s)))
    return r
