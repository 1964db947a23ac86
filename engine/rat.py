"""Exact rational functions over atoms, kept factored: coef * prod factor^exp.

Atoms are small integers: inputs, transcendental applications and definitional cuts.  Factors are normalised
polynomials (leading coefficient 1), hash-consed in the registry, so equal expressions get equal keys."""
from fractions import Fraction

ONE = Fraction(1)
ZERO = Fraction(0)


class TooBig(Exception):
    pass


# polynomials: dict monomial -> Fraction; monomial = tuple of (atom, exp), sorted by atom
def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        x = r.get(m)
        if x is None:
            r[m] = c
        else:
            x = x + c
            if x:
                r[m] = x
            else:
                del r[m]
    return r


def pmul(p, q, limit=None):
    if limit and len(p) * len(q) > limit * 8:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            x = r.get(m)
            if x is None:
                r[m] = c1 * c2
            else:
                x = x + c1 * c2
                if x:
                    r[m] = x
                else:
                    del r[m]
    if limit and len(r) > limit:
        raise TooBig()
    return r


def pscale(p, c):
    if c == 1:
        return p
    return {m: x * c for m, x in p.items()}


def mkey(m):
    return (sum(e for _, e in m), m)


def lead(p):
    return max(p, key=mkey)


def lexkey(m, nv=None):
    return tuple((-v, e) for v, e in m)


def mdiv(a, b):
    """a / b for monomials or None."""
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


def grlex(m):
    # a monomial order: total degree, then compare exponents of the smallest atom first
    return (sum(e for _, e in m), tuple(sorted(((-v, e) for v, e in m), reverse=True)))


def pdivexact(p, d, limit=4000):
    """p / d if exact, else None (graded order leading-term division)."""
    if len(d) == 0:
        return None
    ld = max(d, key=grlex)
    cd = d[ld]
    q = {}
    r = dict(p)
    n = 0
    while r:
        n += 1
        if n > limit:
            return None
        lm = max(r, key=grlex)
        m = mdiv(lm, ld)
        if m is None:
            return None
        c = r[lm] / cd
        q[m] = c
        for m2, c2 in d.items():
            k = mmul(m, m2)
            x = r.get(k, ZERO) - c * c2
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    return q


class Reg:
    def __init__(self):
        self.poly = []          # fid -> poly
        self.index = {}         # key -> fid
        self.atomfid = {}
        self.rules = {}         # atom -> (n, Rat): atom^n = Rat  (a polynomial without denominators)

    def fid(self, p):
        k = frozenset(p.items())
        i = self.index.get(k)
        if i is None:
            i = len(self.poly)
            self.index[k] = i
            self.poly.append(p)
        return i

    def afid(self, a):
        f = self.atomfid.get(a)
        if f is None:
            f = self.atomfid[a] = self.fid({((a, 1),): ONE})
        return f

    def isatom(self, fid):
        p = self.poly[fid]
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None


class Rat:
    __slots__ = ('c', 'f', '_k')

    def __init__(self, c, f=()):
        self.c = c
        self.f = f      # tuple of (fid, exp) sorted
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.c, self.f)
        return self._k


class Alg:
    LIMIT = 300

    def __init__(self, reg=None, cut=None):
        self.reg = reg or Reg()
        self.cut = cut          # function(Rat) -> atom number

    def const(self, c):
        return Rat(Fraction(c), ())

    def atom(self, a):
        return Rat(ONE, ((self.reg.afid(a), 1),))

    def simp(self, c, d):
        """coefficient and {fid:exp} -> Rat with atom power rules applied."""
        if c == 0:
            return Rat(ZERO, ())
        rules = self.reg.rules
        if rules:
            for fid in list(d):
                e = d[fid]
                if e in (0, 1, -1):
                    continue
                a = self.reg.isatom(fid)
                if a is not None and a in rules:
                    n, r = rules[a]
                    if abs(e) >= n:
                        k = (abs(e) // n) * (1 if e > 0 else -1)
                        rest = e - k * n
                        d = dict(d)
                        if rest:
                            d[fid] = rest
                        else:
                            del d[fid]
                        base = Rat(c, tuple(sorted((x, y) for x, y in d.items() if y)))
                        return self.mul(base, self.ipow(r, k))
        return Rat(c, tuple(sorted((x, y) for x, y in d.items() if y)))

    def mul(self, a, b):
        if a.c == 0 or b.c == 0:
            return Rat(ZERO, ())
        if not b.f:
            return Rat(a.c * b.c, a.f)
        if not a.f:
            return Rat(a.c * b.c, b.f)
        d = dict(a.f)
        for x, y in b.f:
            d[x] = d.get(x, 0) + y
        return self.simp(a.c * b.c, d)

    def inv(self, a):
        if a.c == 0:
            raise ZeroDivisionError
        return Rat(1 / a.c, tuple((x, -y) for x, y in a.f))

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    def ipow(self, a, n):
        if n == 0:
            return Rat(ONE, ())
        if a.c == 0:
            return a
        return self.simp(a.c ** n, {x: y * n for x, y in a.f})

    def neg(self, a):
        return Rat(-a.c, a.f)

    def expand(self, c, fs):
        """Polynomial of c*prod f^e (all e >= 0)."""
        p = {(): c}
        for fid, e in fs:
            q = self.reg.poly[fid]
            for _ in range(e):
                p = pmul(p, q, self.LIMIT)
        return self.reduce(p)

    def reduce(self, p):
        """Apply atom power rules inside an expanded polynomial."""
        rules = self.reg.rules
        if not rules:
            return p
        for _ in range(50):
            hit = None
            for m in p:
                for v, e in m:
                    if v in rules and e >= rules[v][0]:
                        hit = (m, v, e)
                        break
                if hit:
                    break
            if not hit:
                return p
            m, v, e = hit
            n, r = rules[v]
            k = e // n
            rest = tuple((x, y - k * n) if x == v else (x, y) for x, y in m)
            rest = tuple((x, y) for x, y in rest if y)
            if any(y < 0 for _, y in r.f):
                return p
            c = p[m]
            p = dict(p)
            del p[m]
            q = {rest: c}
            rp = {(): r.c}
            for fid, y in r.f:
                for _ in range(y):
                    rp = pmul(rp, self.reg.poly[fid], self.LIMIT)
            for _ in range(k):
                q = pmul(q, rp, self.LIMIT)
            p = padd(p, q)
        return p

    def add(self, a, b):
        if a.c == 0:
            return b
        if b.c == 0:
            return a
        if a.f == b.f:
            c = a.c + b.c
            return Rat(c, a.f if c else ())
        da = dict(a.f)
        db = dict(b.f)
        common = {}
        for x in set(da) | set(db):
            m = min(da.get(x, 0), db.get(x, 0))
            if m:
                common[x] = m
        ra = [(x, da.get(x, 0) - common.get(x, 0)) for x in set(da) | set(db)]
        rb = [(x, db.get(x, 0) - common.get(x, 0)) for x in set(da) | set(db)]
        try:
            pa = self.expand(a.c, [(x, y) for x, y in ra if y])
            pb = self.expand(b.c, [(x, y) for x, y in rb if y])
            p = padd(pa, pb)
            if len(p) > self.LIMIT * 4:
                raise TooBig()
        except TooBig:
            if self.cut is None:
                raise
            a2 = self.cutrat(a)
            b2 = self.cutrat(b)
            if a2 is a and b2 is b:
                raise
            return self.add(a2, b2)
        return self.frompoly(p, common)

    def cutrat(self, a):
        if not a.f:
            return a
        if len(a.f) == 1 and a.f[0][1] == 1 and len(self.reg.poly[a.f[0][0]]) <= 40:
            return a
        at = self.cut(Rat(ONE, a.f))
        return Rat(a.c, ((self.reg.afid(at), 1),))

    def frompoly(self, p, common):
        if not p:
            return Rat(ZERO, ())
        common = dict(common)
        # monomial content
        if len(p) == 1:
            (m, c), = p.items()
            for v, e in m:
                f = self.reg.afid(v)
                common[f] = common.get(f, 0) + e
            return self.simp(c, common)
        it = iter(p)
        g = dict(next(it))
        for m in it:
            if not g:
                break
            dm = dict(m)
            g = {v: min(e, dm[v]) for v, e in g.items() if v in dm}
        if g:
            gm = tuple(sorted(g.items()))
            p = {mdiv(m, gm): c for m, c in p.items()}
            for v, e in gm:
                f = self.reg.afid(v)
                common[f] = common.get(f, 0) + e
        # cancel against denominators
        for fid in list(common):
            while common.get(fid, 0) < 0 and self.reg.isatom(fid) is None:
                d = self.reg.poly[fid]
                if len(d) > len(p) * 4 + 4:
                    break
                q = pdivexact(p, d)
                if q is None:
                    break
                p = q
                common[fid] += 1
                if len(p) == 1:
                    return self.frompoly(p, {x: y for x, y in common.items() if y})
        lm = lead(p)
        c = p[lm]
        if c != 1:
            p = {m: x / c for m, x in p.items()}
        f = self.reg.fid(p)
        common[f] = common.get(f, 0) + 1
        return self.simp(c, {x: y for x, y in common.items() if y})

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def poly(self, r):
        """Expanded polynomial if r has no denominator, else None."""
        if any(e < 0 for _, e in r.f):
            return None
        return self.expand(r.c, r.f)

    def numden(self, r):
        n = [(x, y) for x, y in r.f if y > 0]
        d = [(x, -y) for x, y in r.f if y < 0]
        return n, d
