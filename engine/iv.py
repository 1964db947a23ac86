"""Interval arithmetic (outward, on doubles) and function data used by the numeric back end.

An interval is a pair (lo, hi) of floats, lo <= hi, or TOP (the value may be NaN or anything)."""
import math
from .expr import f32

TOP = None
INF = math.inf
FULL = (-INF, INF)
na = math.nextafter


def dn(x):
    return na(x, -INF) if x == x else -INF


def up(x):
    return na(x, INF) if x == x else INF


def r32(lo, hi):
    return (f32(lo), f32(hi))


def fix(lo, hi, ty):
    """Round endpoints the way the operation itself rounds (f32/f64) or outward (real)."""
    if lo != lo or hi != hi:
        return TOP
    if ty == 'f32':
        return (f32(lo), f32(hi))
    if ty == 'f64':
        return (lo, hi)
    return (na(lo, -INF), na(hi, INF))


def add(a, b, ty):
    if a is TOP or b is TOP:
        return TOP
    if ty == 'real' and a[0] >= 0 and b[0] >= 0 and a[1] < INF and b[1] < INF:
        return (max(0.0, dn(a[0] + b[0])), up(a[1] + b[1]))
    return fix(a[0] + b[0], a[1] + b[1], ty) if not (abs(a[0]) == INF or abs(a[1]) == INF or abs(b[0]) == INF or abs(b[1]) == INF) else addinf(a, b, ty)


def addinf(a, b, ty):
    # inf + -inf possible?
    if (a[1] == INF and b[0] == -INF) or (a[0] == -INF and b[1] == INF):
        return TOP
    return fix(a[0] + b[0], a[1] + b[1], ty)


def neg(a):
    return TOP if a is TOP else (-a[1], -a[0])


def sub(a, b, ty):
    return add(a, neg(b), ty)


def mul(a, b, ty):
    if a is TOP or b is TOP:
        return TOP
    p = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
    if any(x != x for x in p):
        if ty == 'real':
            p = [0.0 if x != x else x for x in p]
        else:
            return TOP
    if ty == 'real':
        lo, hi = na(min(p), -INF), na(max(p), INF)
        if (a[0] >= 0 and b[0] >= 0) or (a[1] <= 0 and b[1] <= 0):
            lo = max(lo, 0.0)
        elif (a[0] >= 0 and b[1] <= 0) or (a[1] <= 0 and b[0] >= 0):
            hi = min(hi, 0.0)
        return (lo, hi)
    return fix(min(p), max(p), ty)


def div(a, b, ty):
    if a is TOP or b is TOP:
        return TOP
    if b[0] <= 0 <= b[1]:
        return TOP
    p = (a[0] / b[0], a[0] / b[1], a[1] / b[0], a[1] / b[1])
    if any(x != x for x in p):
        return TOP
    return fix(min(p), max(p), ty)


def inter(a, b):
    """Intersection; returns False when empty."""
    if a is TOP:
        return b
    if b is TOP:
        return a
    lo = max(a[0], b[0])
    hi = min(a[1], b[1])
    if lo > hi:
        return False
    return (lo, hi)


def mag(a):
    return max(abs(a[0]), abs(a[1]))


def mig(a):
    return 0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1]))


def powi(a, n):
    """a^n for integer n >= 1, outward."""
    if a is TOP:
        return TOP
    try:
        if n % 2 == 0 and a[0] <= 0 <= a[1]:
            return (0.0, up(up(mag(a) ** n)))
        p, q = a[0] ** n, a[1] ** n
    except OverflowError:
        return FULL
    if p > q:
        p, q = q, p
    r = (p - abs(p) * 1e-15, q + abs(q) * 1e-15)
    return (dn(r[0]), up(r[1]))


PAD = 4e-7      # > 3 ulp of binary32, relative


def pad(lo, hi, ty):
    if lo != lo or hi != hi:
        return TOP
    p = 6e-7 if ty == 'f32' else 1e-14
    t = 1e-44 if ty == 'f32' else 1e-320
    lo = lo - abs(lo) * p - t if abs(lo) != INF else lo
    hi = hi + abs(hi) * p + t if abs(hi) != INF else hi
    return (lo, hi)


# ------------------------------------------------------------------ functions of one real argument
# family: name -> (f, f', curvature on interval (+1 convex, -1 concave, 0 unknown), domain lo)
def _spow(x, c):
    """max(x,0)^c, the extension used for the ideal value."""
    if x <= 0:
        if c > 0:
            return 0.0
        return INF
    try:
        return x ** c
    except OverflowError:
        return INF


def _cbrt(x):
    return math.cbrt(x) if hasattr(math, 'cbrt') else math.copysign(abs(x) ** (1 / 3.), x)


def _exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def feval(fn, p, x):
    if fn == 'pow':
        return _spow(x, p)
    if fn == 'expb':        # p^x, p > 0
        try:
            return p ** x
        except OverflowError:
            return INF
    if fn == 'exp':
        return _exp(x)
    if fn == 'log':         # logarithm to base p
        return math.log(x) / math.log(p) if x > 0 else -INF
    if fn == 'cbrt':
        return _cbrt(x)
    if fn == 'sin':
        return math.sin(x)
    if fn == 'cos':
        return math.cos(x)
    if fn == 'atan':
        return math.atan(x)
    if fn == 'abs':
        return abs(x)
    raise KeyError(fn)


def fder(fn, p, x):
    if fn == 'pow':
        if x <= 0:
            return 0.0 if p > 1 else INF
        return p * _spow(x, p - 1)
    if fn == 'expb':
        return math.log(p) * feval(fn, p, x)
    if fn == 'exp':
        return _exp(x)
    if fn == 'log':
        return 1 / (x * math.log(p)) if x > 0 else INF
    if fn == 'cbrt':
        return INF if x == 0 else 1 / (3 * _cbrt(x) ** 2)
    if fn == 'sin':
        return math.cos(x)
    if fn == 'cos':
        return -math.sin(x)
    if fn == 'atan':
        return 1 / (1 + x * x)
    if fn == 'abs':
        return 1.0 if x >= 0 else -1.0
    raise KeyError(fn)


def curv(fn, p, a):
    """+1 convex, -1 concave on the interval, 0 unknown."""
    if fn == 'pow':
        if a[0] < 0:
            return 1 if p >= 1 else 0
        return 1 if (p >= 1 or p < 0) else -1
    if fn in ('exp', 'expb', 'abs'):
        return 1
    if fn == 'log':
        return -1
    if fn == 'cbrt':
        return -1 if a[0] >= 0 else 1 if a[1] <= 0 else 0
    if fn == 'sin':
        s = fiv('sin', None, a)
        return -1 if s[0] >= 0 else 1 if s[1] <= 0 else 0
    if fn == 'cos':
        s = fiv('cos', None, a)
        return -1 if s[0] >= 0 else 1 if s[1] <= 0 else 0
    if fn == 'atan':
        return -1 if a[0] >= 0 else 1 if a[1] <= 0 else 0
    return 0


def fiv(fn, p, a):
    """Outward interval image of the real function over interval a (domain-extended where noted)."""
    lo, hi = a
    if fn in ('sin', 'cos'):
        if hi - lo >= 6.28 or abs(lo) > 1e6 or abs(hi) > 1e6:
            return (-1.0, 1.0)
        f = math.sin if fn == 'sin' else math.cos
        v = [f(lo), f(hi)]
        # extrema at pi/2 + k pi (sin), k pi (cos)
        off = math.pi / 2 if fn == 'sin' else 0.0
        k = math.ceil((lo - off) / math.pi - 1e-9)
        while off + k * math.pi <= hi + 1e-9:
            v.append(1.0 if k % 2 == 0 else -1.0)
            k += 1
        return (max(-1.0, min(v) - 1e-12), min(1.0, max(v) + 1e-12))
    if fn == 'abs':
        return (mig(a), mag(a))
    if fn == 'pow' and p < 0:
        if lo <= 0:
            return (feval(fn, p, hi) * (1 - 1e-13), INF) if hi > 0 else FULL
        x, y = feval(fn, p, hi), feval(fn, p, lo)
    elif fn == 'expb' and p < 1:
        x, y = feval(fn, p, hi), feval(fn, p, lo)
    else:
        x, y = feval(fn, p, lo), feval(fn, p, hi)
    e = 1e-13
    x = x - abs(x) * e if abs(x) != INF else x
    y = y + abs(y) * e if abs(y) != INF else y
    if fn in ('pow', 'exp', 'expb'):
        x = max(x, 0.0)
    return (x, y)


def dsup(fn, p, a):
    """Upper bound of |f'| over the interval."""
    if fn in ('sin', 'cos', 'atan', 'abs'):
        return 1.0
    if fn == 'log':
        return INF if a[0] <= 0 else (1 / (a[0] * math.log(p))) * (1 + 1e-12)
    if fn == 'cbrt' and a[0] <= 0 <= a[1]:
        return INF
    if fn == 'pow' and a[0] <= 0 and p < 1:
        return INF
    return max(abs(fder(fn, p, a[0])), abs(fder(fn, p, a[1]))) * (1 + 1e-12)
