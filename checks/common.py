"""Shared pieces of the checks."""
from fractions import Fraction
from engine.run import Job
from engine.bits import BJob


def mat(S, pre, lo, hi, n=9):
    return [S.inp('%s%d' % (pre, i), lo, hi) for i in range(n)]


def dets(a):
    return a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6])


def matmul(a, b):
    return [sum3([a[3 * i + k] * b[3 * k + j] for k in range(3)]) for i in range(3) for j in range(3)]


def matvec(m, v):
    return [sum3([m[3 * i + k] * v[k] for k in range(3)]) for i in range(3)]


def sum3(l):
    r = l[0]
    for x in l[1:]:
        r = r + x
    return r


def J(name, body, **k):
    return Job(name, body, **k)


def inv3(a):
    """Exact inverse of a 3x3 matrix of decimal strings, as fractions."""
    a = [Fraction(x) for x in a]
    d = dets(a)
    c = lambda i, j, k, l: (a[i] * a[j] - a[k] * a[l]) / d
    return [c(4, 8, 5, 7), c(2, 7, 1, 8), c(1, 5, 2, 4), c(5, 6, 3, 8), c(0, 8, 2, 6), c(2, 3, 0, 5), c(3, 7, 4, 6), c(1, 6, 0, 7), c(0, 4, 1, 3)]


def primary_matrix(p):
    """Exact RGB->XYZ matrix of primaries and white given as decimal strings xR yR xG yG xB yB xW yW."""
    p = [Fraction(x) for x in p]
    m = [p[0], p[2], p[4], p[1], p[3], p[5]] + [1 - p[0] - p[1], 1 - p[2] - p[3], 1 - p[4] - p[5]]
    s = matvec(inv3(m), [p[6] / p[7], Fraction(1), (1 - p[6] - p[7]) / p[7]])
    return [m[3 * i + j] * s[j] for i in range(3) for j in range(3)]


GAMUTS = [('AdobeRGB', '0.64 0.33 0.21 0.71 0.15 0.06 0.3127 0.3290'), ('Rec709', '0.64 0.33 0.30 0.60 0.15 0.06 0.3127 0.3290'),
          ('Rec2020', '0.708 0.292 0.17 0.797 0.131 0.046 0.3127 0.3290'), ('DCI_P3', '0.68 0.32 0.265 0.69 0.15 0.06 0.314 0.351'),
          ('S_Gamut', '0.73 0.28 0.14 0.855 0.10 -0.05 0.3127 0.3290'), ('S_Gamut3_Cine', '0.766 0.275 0.225 0.800 0.089 -0.087 0.3127 0.3290'),
          ('ACEScg', '0.713 0.293 0.165 0.830 0.128 0.044 0.32168 0.33767'), ('ACES2065', '0.73470 0.26530 0 1 0.0001 -0.077 0.32168 0.33767'),
          ('LMS', None), ('XYZ', None)]
BRADFORD = ['0.8951', '0.2664', '-0.1614', '-0.7502', '1.7135', '0.0367', '0.0389', '-0.0685', '1.0296']


def gamut_matrix(k):
    """Exact toXYZ matrix of built-in gamut k, from the published numbers."""
    n, p = GAMUTS[k]
    if p:
        return primary_matrix(p.split())
    return inv3(BRADFORD) if n == 'LMS' else [Fraction(int(i % 4 == 0)) for i in range(9)]
