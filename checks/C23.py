"""CIEDE2000."""
from .common import *
HARNESS = 'color.cpp'
BOUNDS = ('definition: pairs of colours of lightness [10,40] and [60,90] with |a|,|b| in [12,32] (thorough [8,48]) for each of the 16 pairs of quadrants of the (a,b) plane, weights 1 '
          '(and free weights in [1,2] for some pairs of quadrants), within 0.02; equal colours and colours that differ in lightness only: L in [0,100], 1 <= |a|,|b| <= 100 (lightness only: b < 0), and greys')
OUTSIDE = 'pairs of colours closer together, or with smaller or larger chroma, than stated; hues that differ by 180 degrees within 0.01; deviations below 0.02'
BUDGET = {'quick': 240, 'thorough': 900}
PI = 3.14159265358979323846


def hue(S, b, a):
    """degrees in [0,360)"""
    t = S.fn('atan2', b, a) * 180 / S.f(PI)
    return t + 360 if S.lt(b, 0) else t


def cosd(S, x):
    return S.fn('cos', S.f(PI) * x / 180)


def spec(S, p, q, K=(1, 1, 1)):
    """Sharma, Wu, Dalal: The CIEDE2000 color-difference formula (2005); returns the square."""
    (L1, a1, b1), (L2, a2, b2) = p, q
    C1, C2 = S.sqrt(a1 * a1 + b1 * b1), S.sqrt(a2 * a2 + b2 * b2)
    C7 = S.pow((C1 + C2) / 2, S.lit(7))
    n7 = S.f(6103515625.0)
    G = (1 - S.sqrt(C7 / (C7 + n7))) / 2
    A1, A2 = a1 * (1 + G), a2 * (1 + G)
    D1, D2 = S.sqrt(A1 * A1 + b1 * b1), S.sqrt(A2 * A2 + b2 * b2)
    h1, h2 = hue(S, b1, A1), hue(S, b2, A2)
    dh, hb = h2 - h1, (h1 + h2)
    if S.lt(dh, -180):
        S.assume('le', dh, S.lit('-180.01'))
        dh, hb = dh + 360, hb + 360
    elif S.lt(180, dh):
        S.assume('ge', dh, S.lit('180.01'))
        dh, hb = dh - 360, hb + 360
    else:
        S.assume('ge', dh, S.lit('-179.99'))
        S.assume('le', dh, S.lit('179.99'))
    hb = hb / 2
    dL, dC = L2 - L1, D2 - D1
    dH = 2 * S.sqrt(D1 * D2) * S.fn('sin', S.f(PI) * dh / 360)
    Lb, Cb = (L1 + L2) / 2, (D1 + D2) / 2
    T = 1 - S.f(0.17) * cosd(S, hb - 30) + S.f(0.24) * cosd(S, 2 * hb) + S.f(0.32) * cosd(S, 3 * hb + 6) - S.f(0.20) * cosd(S, 4 * hb - 63)
    l2 = (Lb - 50) * (Lb - 50)
    SL = 1 + S.f(0.015) * l2 / S.sqrt(20 + l2)
    SC = 1 + S.f(0.045) * Cb
    SH = 1 + S.f(0.015) * Cb * T
    th = 30 * S.exp(-((hb - 275) * (hb - 275) / 625))
    c7 = S.pow(Cb, S.lit(7))
    RC = 2 * S.sqrt(c7 / (c7 + n7))
    RT = -(RC * S.fn('sin', 2 * th * S.f(PI) / 180))
    x, y, z = dL / (K[0] * SL), dC / (K[1] * SC), dH / (K[2] * SH)
    return x * x + y * y + z * z + RT * y * z


def defn(L, rng, K=None, **k):
    def body(S):
        t = [S.inp(n, *r) for n, r in zip(('L1', 'a1', 'b1', 'L2', 'a2', 'b2'), rng)]
        if K:
            w = [S.inp(n, *r) for n, r in zip(('Kl', 'Kc', 'Kh'), K)]
            o = S.val(S.call('d_e00k', t + w, 1)[0])
        else:
            w = None
            o = S.val(S.call('d_e00', t, 1)[0])
        V = S.vals(t)
        S.close('E', o, S.sqrt(spec(S, V[:3], V[3:], S.vals(w) if K else (1, 1, 1))), abs='2e-2')
    return J(L, body, cuts=('direct',), **k)


def SL(S, L1, L2):
    l2 = ((L1 + L2) / 2 - 50) * ((L1 + L2) / 2 - 50)
    return 1 + S.f(0.015) * l2 / S.sqrt(20 + l2)


def same(alo, ahi, blo, bhi):
    def body(S):
        """a colour differs from itself by nothing"""
        t = [S.inp('L', 0, 100), S.inp('a', alo, ahi), S.inp('b', blo, bhi)]
        S.close('zero', S.val(S.call('d_e00', t + t, 1)[0]), 0, abs='1e-6')
    return body


def light(alo, ahi, blo, bhi, k=False):
    def body(S):
        """equal a and b: only lightness counts"""
        L1, L2, a, b = S.inp('L1', 0, 100), S.inp('L2', 0, 100), S.inp('a', alo, ahi), S.inp('b', blo, bhi)
        if k:
            K = [S.inp('K%d' % i, 0.5, 2) for i in range(3)]
            o = S.val(S.call('d_e00k', [L1, a, b, L2, a, b] + K, 1)[0])
        else:
            o = S.val(S.call('d_e00', [L1, a, b, L2, a, b], 1)[0])
        L1, L2 = S.vals([L1, L2])
        d = (L2 - L1) / (S.val(K[0]) * SL(S, L1, L2) if k else SL(S, L1, L2))
        e = S.sqrt(d * d)
        S.close('dL/SL', o, e, abs='4e-3')
    return body


def gray(S):
    L1, L2 = S.inp('L1', 0, 100), S.inp('L2', 0, 100)
    o = S.val(S.call('d_e00', [L1, 0.0, 0.0, L2, 0.0, 0.0], 1)[0])
    L1, L2 = S.vals([L1, L2])
    d = (L2 - L1) / SL(S, L1, L2)
    e = S.sqrt(d * d)
    S.close('dL/SL', o, e, abs='4e-3')


Q = {'1': (1, 1), '2': (-1, 1), '3': (-1, -1), '4': (1, -1)}


def sg(s, r):
    return r if s > 0 else (-r[1], -r[0])


def windows(A, B, La, Lb):
    """colour pairs of clearly different lightness, one per pair of quadrants"""
    W = {}
    for p, (pa, pb) in Q.items():
        for q, (qa, qb) in Q.items():
            W['%s-%s' % (p, q)] = (La, sg(pa, A), sg(pb, B), Lb, sg(qa, A), sg(qb, B))
    return W


def jobs(tier):
    Qs = [(1, 100, 1, 100), (-100, -1, 1, 100), (-100, -1, -100, -1), (1, 100, -100, -1)]
    out = [J('gray', gray)]
    for i, q in enumerate(Qs):
        out += [J('same.%d' % i, same(*q))]
        if i > 1:
            out += [J('light.%d' % i, light(*q)), J('light.K.%d' % i, light(*q, k=True))]
    r = (12, 32) if tier == 'quick' else (8, 48)
    W = windows(r, r, (10, 40), (60, 90))
    out += [defn('def.' + k, w) for k, w in W.items()]
    K3 = ((1, 2), (1, 2), (1, 2))
    out += [defn('def.K.' + k, W[k], K3) for k in (('1-1', '4-1') if tier == 'quick' else ('1-1', '2-1', '3-4', '4-1', '1-4', '2-3'))]
    return out
