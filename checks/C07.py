"""HSV: definition, inverse, ranges, periodicity in the hue."""
from .common import *
HARNESS = 'color.cpp'
BOUNDS = 'R,G,B in [0,1] with max-min >= 1e-3 where the hue is claimed (1e-2 in the round trip, 5e-2 for the arctangent variant); H in [-720,1080] (definition, hence periodicity) and [-1e30,1e30] (range, termination), S in [0,1], V in [0,1]; greys up to 100'
OUTSIDE = 'negative components, infinite or NaN hue; hue of stimuli with max-min < 1e-3'
BUDGET = {'quick': 240, 'thorough': 900}
HI = 1
ORD = {'rgb': (0, 1, 2), 'rbg': (0, 2, 1), 'grb': (1, 0, 2), 'gbr': (1, 2, 0), 'brg': (2, 0, 1), 'bgr': (2, 1, 0)}


def rgb(S, o, d='1e-3', hi=HI):
    """Three components with a given descending order and spread."""
    t = [S.inp(n, 0, hi) for n in 'RGB']
    T = S.vals(t)
    a, b, c = ORD[o]
    S.assume('gt', T[a], T[b])
    S.assume('gt', T[b], T[c])
    if d:
        S.assume('ge', T[a] - T[c], S.lit(d))
        S.assume('ge', T[a], S.lit(d))
        # implied by the order (hints for the linear relaxation)
        for x, y in ((a, b), (b, c)):
            S.assume('ge', (T[x] - T[y]) / (T[a] - T[c]), 0)
            S.assume('le', (T[x] - T[y]) / (T[a] - T[c]), 1)
    return t, T, (T[a], T[b], T[c])


def hue(T, mx, mn, o):
    d = mx - mn
    h = {0: 60 * (T[1] - T[2]) / d, 1: 60 * (T[2] - T[0]) / d + 120, 2: 60 * (T[0] - T[1]) / d + 240}[ORD[o][0]]
    return h + 360 if o == 'rbg' else h


def to(o, k):
    def body(S):
        t, T, (mx, _, mn) = rgb(S, o)
        r = S.vals(S.call('hsv_to', t, 3, [k]))
        S.close('V', r[2], mx)
        S.close('S', r[1], (mx - mn) / mx, abs='4e-7')
        h = hue(T, mx, mn, o)
        S.close('H', r[0], h, abs='2e-4')
    return body


TIE = {(0,): 0, (0, 1): 60, (1,): 120, (1, 2): 180, (2,): 240, (0, 2): 300}


def tie(top, hi2, k):
    """Two equal components: top = indices holding the maximum."""
    def body(S):
        a, b = S.inp('a', 0, HI), S.inp('b', 0, HI)
        A, B = S.vals([a, b])
        S.assume('ge', A - B, S.lit('1e-3'))
        r = S.vals(S.call('hsv_to', [a if i in top else b for i in range(3)], 3, [k]))
        S.close('V', r[2], A)
        S.close('S', r[1], (A - B) / A, abs='4e-7')
        S.close('H', r[0], hi2, abs='2e-4')
    return body


def sv(o, k):
    def body(S):
        t, T, (mx, _, mn) = rgb(S, o, None)
        r = S.vals(S.call('hsv_to', t, 3, [k]))
        S.close('V', r[2], mx)
    return body


def gray(k):
    def body(S):
        v = S.inp('v', 1e-30, 100)
        z = S.vals(S.call('hsv_to', [0.0, 0.0, 0.0], 3, [k]))
        for i in range(3):
            S.close('zero.' + 'HSV'[i], z[i], 0, abs='1e-30')
        r = S.vals(S.call('hsv_to', [v, v, v], 3, [k]))
        S.close('H', r[0], 0, abs='1e-30', rel='1e-6')
        S.close('S', r[1], 0, abs='1e-30', rel='1e-6')
        S.close('V', r[2], S.val(v), abs='1e-30', rel='1e-6')
        h = S.inp('h', 0, 360)
        r = S.vals(S.call('hsv_from', [h, 0.0, v], 3, [k]))
        for i in range(3):
            S.close('RGB'[i], r[i], S.val(v), abs='1e-30', rel='1e-6')
        s = S.inp('s', 0, 1)
        r = S.vals(S.call('hsv_from', [h, s, 0.0], 3, [k]))
        for i in range(3):
            S.close('black.' + 'RGB'[i], r[i], 0, abs='1e-30', rel='1e-6')
    return body


def sector(S, H, W=360):
    """Reduce the hue to [0,360] along the path, then its sector and fraction."""
    while S.lt(H, 0):
        H = H + 360
    while S.lt(360, H):
        H = H - 360
    for i in range(6):
        if S.lt(H, 60 * (i + 1)):
            return i, H / 60 - i
    return 5, H / 60 - 5


def spec(i, r, s, v):
    m, n, p = v * (1 - s), v * (1 - s * r), v * (1 - s * (1 - r))
    return [(v, p, m), (n, v, m), (m, v, p), (m, n, v), (p, m, v), (v, m, n)][i]


def from_(lo, hi, k):
    def body(S):
        h, s, v = S.inp('h', lo, hi), S.inp('s', 0, 1), S.inp('v', 0, HI)
        r = S.vals(S.call('hsv_from', [h, s, v], 3, [k]))
        H, s, v = S.vals([h, s, v])
        i, f = sector(S, H)
        for n, a, b in zip('RGB', r, spec(i, f, s, v)):
            S.close(n, a, b, abs='4e-5')
    return body


def rng(lo, hi, k):
    def body(S):
        h, s, v = S.inp('h', lo, hi), S.inp('s', 0, 1), S.inp('v', 0, HI)
        r = S.vals(S.call('hsv_from', [h, s, v], 3, [k]))
        s, v = S.vals([s, v])
        for n, x in zip('RGB', r):
            S.within(n, x, v * (1 - s) - S.lit('4e-6'), v + S.lit('4e-6'))
    return body


def rt_rgb(o):
    def body(S):
        t, T, _ = rgb(S, o, '0.01')
        r = S.vals(S.call('hsv_from', S.call('hsv_to', t, 3, [0]), 3, [0]))
        for n, a, b in zip('RGB', r, T):
            S.close(n, a, b, abs='4e-5')
    return body


def rt_hsv(i):
    def body(S):
        h, s, v = S.inp('h', 60 * i, 60 * i + 60), S.inp('s', 0.02, 1), S.inp('v', 0.02, HI)
        S.assume('ge', S.val(h), 60 * i + S.lit('1e-2'))
        S.assume('le', S.val(h), 60 * i + 60 - S.lit('1e-2'))
        r = S.vals(S.call('hsv_to', S.call('hsv_from', [h, s, v], 3, [0]), 3, [0]))
        H, s, v = S.vals([h, s, v])
        S.close('H', r[0], H, abs='4e-3')
        S.close('S', r[1], s, abs='1e-6')
        S.close('V', r[2], v, abs='2e-6')
    return body


def atan(o, k):
    def body(S):
        t, T, (mx, _, mn) = rgb(S, o, '0.05', 1)
        y, x = S.f(1.7320508) * (T[1] - T[2]), 2 * T[0] - T[1] - T[2]
        if S.lt(x, S.lit('0.01')):
            if S.lt(y, 0):
                S.assume('le', y, -S.lit('0.01'))
            else:
                S.assume('ge', y, S.lit('0.01'))
        if ORD[o][0] == 0:
            # away from the 0/360 seam
            S.assume('ge', T[ORD[o][1]] - T[ORD[o][2]], S.lit('1e-4'))
        r = S.vals(S.call('hsv_to_atan', t, 3, [k]))
        S.close('V', r[2], mx)
        S.close('S', r[1], (mx - mn) / mx, abs='4e-7')
        S.within('Hrange', r[0], -S.lit('1e-4'), 360 + S.lit('1e-4'))
        a = 180 * S.fn('atan2', y, x) / S.lit('3.14159265358979323846')
        if S.lt(T[1], T[2]):
            a = a + 360
        elif S.le(T[1], T[2]):
            return
        S.close('H', r[0], a, abs='3e-4')
    return body


def jobs(tier):
    out = []
    for k in (0, 1):
        for o in ORD:
            out.append(J('RGB->HSV.%s.%d' % (o, k), to(o, k)))
            out.append(J('RGB->HSV.V.%s.%d' % (o, k), sv(o, k)))
            out.append(J('RGB->HSV.atan.%s.%d' % (o, k), atan(o, k), symerr=True))
        out.append(J('gray.%d' % k, gray(k)))
        for t, h in TIE.items():
            out.append(J('ties.%d.%d' % (h, k), tie(t, h, k), symerr=True))
        for lo, hi in ((-720, 0), (0, 360), (360, 1080)):
            out.append(J('HSV->RGB.%d.%d' % (lo, k), from_(lo, hi, k), whole=True))
        for lo, hi in ((-360, 720), (-1e30, -720), (1080, 1e30)):
            out.append(J('range.%g.%d' % (lo, k), rng(lo, hi, k)))
    for o in ORD:
        out.append(J('roundtrip.RGB.' + o, rt_rgb(o)))
    for i in range(6):
        out.append(J('roundtrip.HSV.%d' % i, rt_hsv(i), symerr=True))
    return out
