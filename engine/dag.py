"""Interval and rounding-error evaluation of expression nodes.

Every float node n has a computed value v(n) (what the machine produces) and an ideal value r(n) (the same operations in
exact real arithmetic).  For a box of inputs we compute an interval containing v and (rho, eta) with
|v - r| <= rho*|r| + eta."""
import math
from fractions import Fraction
from . import iv as I
from .iv import TOP, INF
from .expr import Node, f32, sgn

U = {'f32': 2.0 ** -24, 'f64': 2.0 ** -53, 'real': 0.0}
TINY = {'f32': 2.0 ** -149, 'f64': 2.0 ** -1074, 'real': 0.0}
ULPS = {'f32': 2.0 * 2.0 ** -23, 'f64': 2.0 * 2.0 ** -52, 'real': 0.0}     # libm contract: at most 2 ulp
G = 1 + 1e-9

FAM = {'sqrt': ('pow', Fraction(1, 2)), 'exp': ('exp', None), 'log': ('log', None), 'log10': ('log', 10), 'log2': ('log', 2),
       'exp2': ('expb', Fraction(2)), 'exp10': ('expb', Fraction(10)), 'cbrt': ('cbrt', None), 'sin': ('sin', None), 'cos': ('cos', None),
       'atan': ('atan', None)}


def civ(c, ty=None):
    """Interval of a constant argument."""
    if isinstance(c, Fraction):
        x = float(c)
        return (x, x) if Fraction(x) == c else (I.dn(x), I.up(x))
    if isinstance(c, float):
        return TOP if c != c else (c, c)
    return (float(c), float(c))


def family(node):
    """(family, param, argument) of a 'fn' node of one variable, or None."""
    fn = node.args[0]
    a = node.args[1:]
    if fn in FAM:
        f, p = FAM[fn]
        if f == 'log':
            p = math.e if p is None else float(p)
        return f, p, a[0]
    if fn == 'pow':
        if not isinstance(a[1], Node):
            return 'pow', Fraction(a[1]), a[0]
        if not isinstance(a[0], Node) and a[0] > 0:
            return 'expb', Fraction(a[0]), a[1]
    return None


def snap(p):
    """The simple fraction a rounded exponent stands for (1/3, 12/5, 9/20 ...); the difference is charged to the error bound."""
    if p.denominator <= 64:
        return p
    q = p.limit_denominator(48)
    if q != 0 and abs(p - q) <= abs(p) / 2 ** 22:
        return q
    if p.denominator >= 2 ** 12:
        d = abs(p) / 2 ** 24
        q = simplest(abs(p) - d, abs(p) + d)
        if q.denominator < 8192:
            return q if p > 0 else -q
    return p


def simplest(a, b):
    """The fraction of smallest denominator in [a, b], 0 < a < b."""
    f = a.numerator // a.denominator
    if f == a:
        return Fraction(f)
    if f + 1 <= b:
        return Fraction(f + 1)
    return f + 1 / simplest(1 / (b - f), 1 / (a - f))


def powpar(x, c):
    """sup of |x^c ln x| over the interval (c > 0, x >= 0)."""
    hi = x[1]
    lo = max(x[0], 0.0)
    r = 0.0
    for z in (lo, hi):
        if z > 0:
            r = max(r, abs(z ** c * math.log(z)))
    z = math.exp(-1 / c) if c > 0 else 0
    if lo <= z <= hi:
        r = max(r, 1 / (math.e * c))
    return r * (1 + 1e-9)


def pf(p):
    return float(p) if isinstance(p, Fraction) else p


def forward(n, get):
    """Natural interval of node n's computed value; get(child) -> interval."""
    op = n.op
    ty = n.ty
    if op in ('fadd', 'radd'):
        return I.add(get(n.args[0]), get(n.args[1]), ty)
    if op in ('fsub', 'rsub'):
        if n.args[0] is n.args[1]:
            x = get(n.args[0])
            return (0.0, 0.0) if x is not TOP and I.mag(x) != INF else TOP
        return I.sub(get(n.args[0]), get(n.args[1]), ty)
    if op in ('fmul', 'rmul'):
        a = get(n.args[0])
        if n.args[0] is n.args[1]:
            if a is TOP:
                return TOP
            lo, hi = I.mig(a), I.mag(a)
            return I.fix(lo * lo, hi * hi, ty) if ty != 'real' else (max(0.0, I.dn(lo * lo)), I.up(hi * hi))
        return I.mul(a, get(n.args[1]), ty)
    if op in ('fdiv', 'rdiv'):
        if n.args[0] is n.args[1]:
            x = get(n.args[0])
            return (1.0, 1.0) if x is not TOP and I.mag(x) != INF and I.mig(x) > 0 else TOP
        return I.div(get(n.args[0]), get(n.args[1]), ty)
    if op in ('fneg', 'rneg'):
        return I.neg(get(n.args[0]))
    if op in ('fabs', 'rabs'):
        a = get(n.args[0])
        return TOP if a is TOP else (I.mig(a), I.mag(a))
    if op == 'fpext':
        return get(n.args[0])
    if op == 'fptrunc':
        a = get(n.args[0])
        return TOP if a is TOP else (f32(a[0]), f32(a[1]))
    if op in ('sitofp', 'uitofp'):
        a = get(n.args[0])
        if a is TOP:
            return TOP
        return (f32(a[0]), f32(a[1])) if ty == 'f32' else (float(a[0]), float(a[1]))
    if op == 'fptosi' or op == 'fptoui':
        a = get(n.args[0])
        if a is TOP or I.mag(a) == INF:
            return TOP
        lim = 2.0 ** (ty[1] - 1)
        if op == 'fptoui':
            if a[0] <= -1 or a[1] >= 2 * lim:
                return TOP
        elif a[0] < -lim or a[1] >= lim:
            return TOP
        return (math.trunc(a[0]), math.trunc(a[1]))
    if op == 'fn':
        return fnforward(n, get)
    if isinstance(ty, tuple):
        return intforward(n, get)
    return TOP


def fnforward(n, get):
    fn = n.args[0]
    ty = n.ty
    fam = family(n)
    if fam:
        f, p, arg = fam
        a = get(arg)
        if a is TOP:
            return TOP
        p = pf(p)
        if f == 'pow':
            if p == 0:
                return (1.0, 1.0)
            if a[0] < 0:
                if p == int(p) and fn == 'pow' and p > 0:
                    r = I.powi(a, int(p))
                    return I.pad(r[0], r[1], ty)
                return TOP
            if a[0] == 0 and p < 0:
                return TOP
        if f == 'log' and a[0] <= 0:
            return TOP
        r = I.fiv(f, p, a)
        r = I.pad(r[0], r[1], ty) if ty != 'real' else r
        if f in ('pow', 'exp', 'expb') and r is not TOP:
            r = (max(r[0], 0.0), r[1])
        if f in ('sin', 'cos') and r is not TOP:
            r = (max(r[0], -1.0), min(r[1], 1.0))
        if r is not TOP and I.mag(r) == INF:
            return TOP
        if r is not TOP and ty == 'f32' and I.mag(r) > 3.4028234e38:
            return TOP
        return r
    if fn == 'pow':
        b, e = get(n.args[1]), get(n.args[2])
        if b is TOP or e is TOP or b[0] < 0 or (b[0] == 0 and e[0] <= 0):
            return TOP
        vals = [I.feval('pow', y, x) for x in b for y in e]
        return I.pad(max(min(vals), 0.0), max(vals), ty)
    if fn == 'atan2':
        y, x = get(n.args[1]), get(n.args[2])
        if y is TOP or x is TOP:
            return TOP
        if x[0] > 0 or y[0] > 0 or y[1] < 0:
            c = [math.atan2(yy, xx) for yy in y for xx in x]
            r = I.pad(min(c), max(c), ty)
            return r
        return (-3.1415930, 3.1415930)
    if fn == 'fmod':
        a, b = get(n.args[1]), get(n.args[2])
        if a is TOP or b is TOP or b[0] <= 0 <= b[1]:
            return TOP
        m = min(I.mag(b), I.mag(a))
        return (-m if a[0] < 0 else 0.0, m if a[1] > 0 else 0.0)
    if fn in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
        a = get(n.args[1])
        if a is TOP or I.mag(a) == INF:
            return TOP
        f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}.get(fn)
        if f is None:
            return (math.floor(a[0]), math.ceil(a[1]))
        return (float(f(a[0])), float(f(a[1])))
    if fn in ('fmin', 'fmax'):
        a, b = get(n.args[1]), get(n.args[2])
        if a is TOP or b is TOP:
            return TOP
        f = min if fn == 'fmin' else max
        return (f(a[0], b[0]), f(a[1], b[1]))
    return TOP


def intforward(n, get):
    """Signed mathematical interval of an integer node, TOP when wrap-around cannot be excluded."""
    op = n.op
    w = n.ty[1]
    if op in ('add', 'sub', 'mul', 'shl'):
        a, b = get(n.args[0]), get(n.args[1])
        if a is TOP or b is TOP:
            return TOP
        if op == 'add':
            r = (a[0] + b[0], a[1] + b[1])
        elif op == 'sub':
            r = (a[0] - b[1], a[1] - b[0])
        else:
            if op == 'shl':
                if b[0] != b[1]:
                    return TOP
                b = (1 << int(b[0]),) * 2
            p = [x * y for x in a for y in b]
            r = (min(p), max(p))
        if r[0] < -(1 << (w - 1)) or r[1] >= 1 << (w - 1):
            return TOP
        return r
    if op in ('sext', 'zext'):
        a = get(n.args[0])
        if a is TOP:
            return TOP
        if op == 'zext' and a[0] < 0:
            return TOP
        return a
    if op == 'trunc':
        a = get(n.args[0])
        if a is TOP or a[0] < -(1 << (w - 1)) or a[1] >= 1 << (w - 1):
            return TOP
        return a
    if op in ('icmp', 'fcmp', 'xor', 'and', 'or') and w == 1:
        return (0, 1)
    return TOP


def getint(v, w):
    return (sgn(v, w), sgn(v, w))


NEG = {'oeq': 'une', 'ogt': 'ule', 'oge': 'ult', 'olt': 'uge', 'ole': 'ugt', 'one': 'ueq',
       'ueq': 'one', 'ugt': 'ole', 'uge': 'olt', 'ult': 'oge', 'ule': 'ogt', 'une': 'oeq', 'ord': 'uno', 'uno': 'ord'}
INEG = {'eq': 'ne', 'ne': 'eq', 'ugt': 'ule', 'uge': 'ult', 'ult': 'uge', 'ule': 'ugt', 'sgt': 'sle', 'sge': 'slt', 'slt': 'sge', 'sle': 'sgt'}


def atoms_of(cond, pol):
    """Conjunction of (kind, pred, a, b) implied by cond == pol; None when it is not a conjunction we understand."""
    if cond.op in ('fcmp', 'rcmp'):
        p = cond.args[0]
        return [('f', p if pol else NEG[p], cond.args[1], cond.args[2])]
    if cond.op == 'icmp':
        p = cond.args[0]
        return [('i', p if pol else INEG[p], cond.args[1], cond.args[2])]
    if cond.op == 'xor' and cond.args[1] == 1:
        return atoms_of(cond.args[0], not pol)
    if (cond.op == 'and' and pol) or (cond.op == 'or' and not pol):
        r = []
        for a in cond.args:
            if isinstance(a, Node):
                x = atoms_of(a, pol)
                if x:
                    r += x
        return r
    return []


# ------------------------------------------------------------------ rounding error propagation
def absmax(iv, e):
    """Upper bound of |r| given interval of v and (rho, eta)."""
    return (I.mag(iv) + e[1]) / (1 - e[0]) * G


def toabs(iv, e):
    return (e[0] * absmax(iv, e) + e[1]) * G


def error(n, iv, get, err):
    """(rho, eta) of node n, or None when no bound is available.  iv: interval of n's computed value (not TOP)."""
    op = n.op
    ty = n.ty
    if op == 'var':
        return (0.0, 0.0)
    if isinstance(ty, tuple):
        return (0.0, 0.0)
    u = U[ty]
    tiny = TINY[ty]
    A = n.args
    if op in ('fadd', 'radd', 'fsub', 'rsub'):
        a, b = get(A[0]), get(A[1])
        ea, eb = err(A[0]), err(A[1])
        if ea is None or eb is None or a is TOP or b is TOP:
            return None
        if op in ('fsub', 'rsub'):
            b = I.neg(b)
        if ea == (0.0, 0.0) and eb == (0.0, 0.0):
            return (u / (1 - u) if u else 0.0, 0.0)
        rho = max(ea[0], eb[0])
        if rho < 0.25 and ((a[0] >= 0 and b[0] >= 0) or (a[1] <= 0 and b[1] <= 0)):
            # computed values of one sign: an ideal value of the other sign is at most eta/(1-rho) in magnitude, so
            # |ra| + |rb| <= |ra + rb| + 2 (eta_a + eta_b)/(1-rho)
            eta = (ea[1] + eb[1]) * (1 + 4 * rho) * G
        else:
            # keep what is relative only where it does not amplify
            rho, eta = 0.0, toabs(a, ea) + toabs(b, eb)
        if u:
            # v = s(1+d), |d| <= u, s = a_v + b_v, |s - r| <= rho|r| + eta ; subnormal sums are exact
            return ((rho + u + rho * u) * G, eta * (1 + u) * G)
        return (rho, eta)
    if op in ('fmul', 'rmul'):
        a, b = get(A[0]), get(A[1])
        ea, eb = err(A[0]), err(A[1])
        if ea is None or eb is None or a is TOP or b is TOP:
            return None
        rho = ea[0] + eb[0] + ea[0] * eb[0]
        eta = 0.0
        if ea[1] or eb[1]:
            eta = absmax(a, ea) * (1 + ea[0]) * eb[1] + absmax(b, eb) * (1 + eb[0]) * ea[1] + ea[1] * eb[1]
        if u and exactscale(A, ty):
            return (rho, eta * G + (tiny if exactscale(A, ty) == 'down' else 0.0))
        return (((1 + rho) * (1 + u) - 1) * G if u or rho else 0.0, (eta * (1 + u)) * G + tiny)
    if op in ('fdiv', 'rdiv'):
        a, b = get(A[0]), get(A[1])
        ea, eb = err(A[0]), err(A[1])
        if ea is None or eb is None or a is TOP or b is TOP:
            return None
        bm = I.mig(b)
        if bm <= 0:
            return None
        if eb[1] == 0.0:
            rb = eb[0]
        else:
            m = bm - toabs(b, eb)
            if m <= 0:
                return None
            rb = eb[0] + eb[1] / m
        if rb >= 0.5:
            return None
        rq = rb / (1 - rb)
        rho = (1 + ea[0]) * (1 + rq) - 1
        eta = ea[1] / bm * G
        return (((1 + rho) * (1 + u) - 1) * G if u or rho else 0.0, eta * (1 + u) * G + tiny)
    if op in ('fneg', 'rneg', 'fpext', 'fabs', 'rabs'):
        return err(A[0])
    if op == 'fptrunc':
        e = err(A[0])
        if e is None:
            return None
        return (((1 + e[0]) * (1 + u) - 1) * G, e[1] * (1 + u) * G + tiny)
    if op in ('sitofp', 'uitofp'):
        m = I.mag(iv)
        return (0.0, 0.0) if m < 2.0 ** 24 or ty == 'f64' else (u, 0.0)
    if op == 'fn':
        return fnerror(n, iv, get, err)
    return None


def exactscale(A, ty):
    """Multiplication by a power of two is exact (barring underflow when it shrinks)."""
    for x in A:
        if isinstance(x, float) and x != 0 and abs(x) != INF and x == x and math.frexp(x)[0] in (0.5, -0.5):
            return 'up' if abs(x) >= 1 else 'down'
    return None


def ideal_iv(a, e):
    """Interval of the ideal value."""
    d = toabs(a, e)
    return (I.dn(a[0] - d), I.up(a[1] + d)) if d else a


def fnerror(n, iv, get, err):
    ty = n.ty
    lu = ULPS[ty]
    if n.args[0] == 'sqrt' and ty != 'real':
        lu = U[ty]
    tiny = TINY[ty]
    fam = family(n)
    if fam is None:
        fn = n.args[0]
        if fn == 'atan2':
            y, x = get(n.args[1]), get(n.args[2])
            ey, ex = err(n.args[1]), err(n.args[2])
            if ey is None or ex is None or y is TOP or x is TOP:
                return None
            dy, dx = toabs(y, ey), toabs(x, ex)
            if dy == 0 and dx == 0:
                e = 0.0
            else:
                r = math.hypot(max(0.0, I.mig(y) - dy), max(0.0, I.mig(x) - dx))
                if r <= 0:
                    return None
                if not (x[0] - dx > 0 or y[0] - dy > 0 or y[1] + dy < 0):
                    return None     # branch cut
                e = (dy + dx) / r
            return (0.0, (e + lu * I.mag(iv)) * G + tiny)
        if fn in ('floor', 'ceil', 'trunc', 'fmod', 'round', 'rint', 'nearbyint', 'fmin', 'fmax', 'pow'):
            for x in n.args[1:]:
                if isinstance(x, Node):
                    e = err(x)
                    if e is None or e != (0.0, 0.0):
                        return None
            return (0.0, 0.0) if fn != 'pow' else (lu, tiny)
        return None
    f, p, arg = fam
    a = get(arg)
    e = err(arg)
    if a is TOP or e is None:
        return None
    xr = xe = 0.0
    if f == 'pow' and snap(p) != p:
        dp = abs(float(snap(p) - p)) * 1.001
        d = toabs(a, e)
        lo, hi = a[0] - d, a[1] + d
        if lo > 1e-9:
            xr = math.expm1(dp * max(abs(math.log(lo)), abs(math.log(hi)))) * G
        elif p > 0 and hi < 1e300:
            z = (max(lo, 0.0), hi)
            xe = max(powpar(z, float(p)), powpar(z, float(snap(p)))) * dp
        else:
            return None
    p = pf(p)
    rho = eta = 0.0
    if e != (0.0, 0.0):
        if f in ('pow', 'cbrt'):
            c = p if f == 'pow' else 1 / 3.
            m = I.mig(a)
            d = toabs(a, e)
            if m > 0 and m - d > 0 and (f == 'cbrt' or a[0] > 0):
                rt = e[0] + (e[1] / (m - d) if e[1] else 0.0)
                if rt >= 0.5:
                    return None
                rho = math.expm1(abs(c) * -math.log1p(-rt)) * G
            elif c >= 1 and f == 'pow':
                eta = I.dsup('pow', c, (max(a[0] - d, 0.0), max(I.mag(a) if a[0] < 0 else a[1], 0.0) + d)) * d
            elif 0 < c < 1:
                # (x(1+d) + h)^c: the factor stays relative, and |h|^c bounds the rest (powers below one are subadditive)
                if e[0] >= 0.5:
                    return None
                rho = math.expm1(c * -math.log1p(-e[0])) * G if e[0] else 0.0
                eta = 2.0 * e[1] ** c * G
            else:
                return None
        elif f in ('exp', 'expb'):
            d = toabs(a, e) * (abs(math.log(p)) if f == 'expb' else 1.0)
            if d > 0.5:
                return None
            rho = math.expm1(d) * G
        elif f == 'log':
            d = toabs(a, e)
            m = I.mig(a)
            if a[0] <= 0 or m - d <= 0:
                return None
            rt = e[0] + (e[1] / (m - d) if e[1] else 0.0)
            if rt >= 0.5:
                return None
            eta = -math.log1p(-rt) / math.log(p) * G
        else:
            eta = toabs(a, e)
    if xr or xe:
        # computed x'^p (1+d) against x^q: |x'^p - x^p| <= rho x^p + eta and |x^p - x^q| <= xr x^q + xe
        eta += (1 + rho) * xe
        rho = (1 + rho) * (1 + xr) - 1
    rho = ((1 + rho) * (1 + lu) - 1) * G if (lu or rho) else 0.0
    return (rho, eta * (1 + lu) * G + tiny)
