"""Deciding real-valued claims about one path: exact algebra for the ideal values, rounding-error bounds, and a linear
relaxation (per box of the inputs) discharged by z3; boxes that are not discharged are split."""
import math
import struct
import time
from fractions import Fraction
import z3
from . import dag as D
from . import iv as I
from . import rat
from .iv import TOP, INF
from .expr import Node, mk, f32
from .session import widen, nx32

SMALLP = Fraction(1, 2000)


class Atom:
    __slots__ = ('i', 'kind', 'fn', 'p', 'arg', 'node', 'deps', 'ty')


class Empty(Exception):
    pass


class Num:
    def __init__(self, path, max_terms=300, cuts=(), symerr=False):
        self.symerr = symerr
        self.path = path
        self.cuts = cuts
        self.reg = rat.Reg()
        self.alg = rat.Alg(self.reg, self.cutatom)
        self.alg.LIMIT = max_terms
        self.atoms = []
        self.akey = {}
        self.rats = {}
        self.nodes = []
        self.pos = {}
        self.inputs = path.inputs
        self.inpos = {n.id: i for i, (_, n, _, _) in enumerate(path.inputs)}
        self.queries = 0
        self.unsat = 0
        self.solver_s = 0.0
        self.claims = [(nm, e) for nm, e in path.claims]
        self.partc = {}
        self.rangec = None
        self.addc = {}
        self.condatoms = []
        for c, pol in path.conds:
            for k, pred, a, b in D.atoms_of(c, pol) or []:
                self.condatoms.append((k, pred, a, b))
                if k == 'i' and pred == 'eq' and isinstance(a, Node) and a.op == 'fptosi' and a.id in path.fixed:
                    v = path.fixed[a.id]
                    self.condatoms.append(('f', 'oge', a.args[0], float(v)) if v > 0 else ('f', 'ogt', a.args[0], float(v - 1)))
                    self.condatoms.append(('f', 'olt', a.args[0], float(v + 1)) if v >= 0 else ('f', 'ole', a.args[0], float(v)))
        roots = [e for _, e in self.claims if isinstance(e, Node)]
        for k, pred, a, b in self.condatoms:
            roots += [x for x in (a, b) if isinstance(x, Node)]
        for n in path.inputs:
            roots.append(n[1])
        self.topo(roots)
        self.mob = self.findmob()
        self.rat_node = {}
        for n in self.nodes:
            if n.ty in ('f32', 'f64', 'real'):
                r = self.rats[n.id] = self.ideal(n)
                if r is not None:
                    self.rat_node.setdefault(r.f, []).append((n, r.c))
        grp = {}
        for n in self.nodes:
            r = self.rats.get(n.id)
            if r is not None and r.f:
                grp.setdefault(r.f, []).append((self.pos[n.id], float(r.c), r.c))
        condn = {self.pos[x.id] for _, _, a, b in self.condatoms for x in (a, b) if isinstance(x, Node)}
        self.small = []
        for i, n in enumerate(self.nodes):
            r = self.rats.get(n.id)
            if r is not None and n.op != 'var' and sum(len(self.reg.poly[f]) for f, _ in r.f) <= 24:
                self.small.append(i)
        self.smallset = set(self.small)
        self.groups = []
        for f, l in grp.items():
            if len(l) > 1 and any(i in condn for i, _, _ in l):
                c0 = l[0][2]
                self.groups.append([(i, float(c / c0)) for i, _, c in l if Fraction(float(c / c0)) == c / c0])

    def topo(self, roots):
        seen = set()
        order = []
        stack = [(r, 0) for r in roots]
        while stack:
            n, st = stack.pop()
            if st:
                order.append(n)
                continue
            if n.id in seen:
                continue
            seen.add(n.id)
            stack.append((n, 1))
            if n.id in self.path.fixed:
                # keep the argument chain (its value is constrained by the path), but it is evaluated as a constant
                pass
            for a in n.args:
                if isinstance(a, Node) and a.id not in seen:
                    stack.append((a, 0))
        self.nodes = order
        self.pos = {n.id: i for i, n in enumerate(order)}

    # ------------------------------------------------------------ ideal values
    def atom(self, key, kind, fn=None, p=None, arg=None, node=None):
        a = self.akey.get(key)
        if a is None:
            a = Atom()
            a.i = len(self.atoms)
            a.kind, a.fn, a.p, a.arg, a.node = kind, fn, p, arg, node
            self.atoms.append(a)
            self.akey[key] = a
        return a

    def cutatom(self, r):
        a = self.akey.get(('def', r.key()))
        if a is None:
            a = self.atom(('def', r.key()), 'def', arg=r)
        return a.i

    def arat(self, a):
        return self.alg.atom(a.i)

    def R(self, x):
        if isinstance(x, Node):
            return self.rats.get(x.id)
        if isinstance(x, float) and (x != x or abs(x) == INF):
            return None
        return rat.Rat(Fraction(x), ())

    def ideal(self, n):
        A = self.alg
        op = n.op
        if n.id in self.path.fixed:
            return rat.Rat(Fraction(self.path.fixed[n.id]), ())
        if op == 'var':
            return self.arat(self.atom(('var', n.id), 'in', node=n))
        if n.id in self.path.cut:
            return self.arat(self.atom(('cut', n.id), 'cut', node=n))
        if op in ('fadd', 'radd', 'fsub', 'rsub', 'fmul', 'rmul', 'fdiv', 'rdiv'):
            a, b = self.R(n.args[0]), self.R(n.args[1])
            if a is None or b is None:
                return None
            o = op[1:]
            if o == 'add':
                return A.add(a, b)
            if o == 'sub':
                return A.sub(a, b)
            if o == 'mul':
                k = self.cube(n) if 'cube' in self.cuts else None
                if k is not None:
                    return self.fnrat('pow', Fraction(3), self.R(k))
                return A.mul(a, b)
            if b.c == 0:
                return None
            return A.div(a, b)
        if op in ('fneg', 'rneg'):
            a = self.R(n.args[0])
            return None if a is None else A.neg(a)
        if op in ('fpext', 'fptrunc'):
            return self.R(n.args[0])
        if op in ('fabs', 'rabs'):
            a = self.R(n.args[0])
            if a is None:
                return None
            if not a.f:
                return rat.Rat(abs(a.c), ())
            return self.fnrat('abs', None, a)
        if op in ('sitofp', 'uitofp'):
            x = n.args[0]
            if isinstance(x, Node) and x.id in self.path.fixed:
                return rat.Rat(Fraction(self.path.fixed[x.id]), ())
            return self.arat(self.atom(('int', x.id), 'opaque', node=n))
        if op == 'fmodn':
            a = self.R(n.args[0])
            if a is None:
                return None
            return A.sub(a, rat.Rat(Fraction(n.args[1]) * Fraction(n.args[2]), ()))
        if op == 'fn':
            fam = D.family(n)
            if fam is None:
                key = ('opq', n.args[0]) + tuple(self.R(x).key() if self.R(x) is not None else ('n', x.id) for x in n.args[1:])
                return self.arat(self.atom(key, 'opaque', node=n))
            f, p, arg = fam
            if f == 'pow':
                p = D.snap(p)
            a = self.R(arg)
            if a is None:
                return None
            if f in self.cuts and n.ty != 'real' and a.f:
                # the atom is the computed value itself; its relation to the argument carries the error
                return self.arat(self.atom(('cut', n.id), 'cut', f, p, a, n))
            return self.fnrat(f, p, a)
        return None

    def parts(self, ci):
        """The claim as an affine combination [(node, coefficient)], or None."""
        if ci in self.partc:
            return self.partc[ci]
        out = {}
        todo = [(self.claims[ci][1], Fraction(1))]
        ok = True
        n = 0
        while todo:
            e, k = todo.pop()
            n += 1
            if n > 400:
                ok = False
                break
            if not isinstance(e, Node):
                continue
            if e.op == 'radd':
                todo += [(e.args[0], k), (e.args[1], k)]
            elif e.op == 'rsub':
                todo += [(e.args[0], k), (e.args[1], -k)]
            elif e.op == 'rneg':
                todo.append((e.args[0], -k))
            elif e.op == 'rmul' and not isinstance(e.args[0], Node):
                todo.append((e.args[1], k * Fraction(e.args[0])))
            elif e.op == 'rmul' and not isinstance(e.args[1], Node):
                todo.append((e.args[0], k * Fraction(e.args[1])))
            elif e.op == 'rdiv' and not isinstance(e.args[1], Node) and e.args[1]:
                todo.append((e.args[0], k / Fraction(e.args[1])))
            else:
                out[e.id] = (e, out.get(e.id, (e, Fraction(0)))[1] + k)
        r = [x for x in out.values() if x[1] != 0] if ok else None
        if r is not None and any(self.rats.get(x.id) is None for x, _ in r):
            r = None
        self.partc[ci] = r
        return r

    def addk(self, r, x, k):
        key = (r.key(), x.key(), k)
        v = self.addc.get(key)
        if v is None:
            if len(self.addc) > 20000:
                self.addc.clear()
            v = self.addc[key] = self.alg.add(r, rat.Rat(x.c * k, x.f))
        return v

    def several(self, a):
        """A sum over more than one atom: kept as one definitional atom under a power."""
        for fid, _ in a.f:
            if self.reg.isatom(fid) is None and len({x for m in self.reg.poly[fid] for x, _ in m}) > 1:
                return True
        return False

    def cube(self, n):
        """The factor of x*x*x, or None: treated as the power it is."""
        for m, x in (n.args, n.args[::-1]):
            if isinstance(m, Node) and isinstance(x, Node) and m.op == n.op and m.args[0] is x and m.args[1] is x:
                return x
        return None

    def fnrat(self, f, p, a):
        A = self.alg
        if f == 'cbrt':
            f, p = 'pow', Fraction(1, 3)
        if f == 'pow':
            if p.denominator == 1 and abs(p) <= 16:
                if p < 0 and a.c == 0:
                    return None
                if p >= 2 and self.several(a):
                    a = rat.Rat(a.c, ((self.reg.afid(A.cut(rat.Rat(rat.ONE, a.f))), 1),))
                return A.ipow(a, int(p))
            if a.c == 1 and len(a.f) == 1 and a.f[0][1] == 1:
                at = self.reg.isatom(a.f[0][0])
                if at is not None:
                    at = self.atoms[at]
                    if at.kind == 'fn' and at.fn == 'pow' and at.p > 0 and p > 0:
                        return self.fnrat('pow', at.p * p, at.arg)
            if len(a.f) == 1 and a.f[0][1] > 1 and a.f[0][1] % 2 and p == Fraction(1, a.f[0][1]):
                # odd root of an odd power (an ideal argument below zero is covered by the odd extension, see dag.fnerror)
                c = iroot(a.c, a.f[0][1])
                if c is not None:
                    return rat.Rat(c, ((a.f[0][0], 1),))
            if not a.f:
                if a.c == 0:
                    return rat.Rat(Fraction(0), ()) if p > 0 else None
                if a.c == 1:
                    return a
        if f == 'abs' and a.c < 0:
            a = A.neg(a)
        # arguments with denominators or many terms become definitional atoms
        if any(e < 0 for _, e in a.f):
            a = A.cutrat(a)
        else:
            try:
                if len(A.expand(a.c, a.f)) > 60:
                    a = A.cutrat(rat.Rat(a.c, a.f))
            except rat.TooBig:
                a = A.cutrat(a)
        at = self.atom((f, p) + a.key(), 'fn', f, p, a)
        r = self.arat(at)
        if f == 'pow' and p.denominator in (2, 3, 4) and p.numerator == 1:
            self.reg.rules.setdefault(at.i, (p.denominator, a))
        return r

    # ------------------------------------------------------------ one box
    def affine(self, n):
        """n = a + b*m over a single sub-node m: (m, a, b, majorant of rounding steps)."""
        a, b, k, am = Fraction(0), Fraction(1), 0, Fraction(0)
        while isinstance(n, Node):
            x = n.args
            if n.op in ('fadd', 'radd', 'fsub', 'rsub', 'fmul', 'rmul') and isinstance(x[0], Node) != isinstance(x[1], Node):
                c = x[1] if isinstance(x[0], Node) else x[0]
                y = x[0] if isinstance(x[0], Node) else x[1]
                c = Fraction(c)
                op = n.op[1:]
                if op == 'mul':
                    b *= c
                elif op == 'add':
                    a += b * c
                    am += abs(b * c)
                elif y is x[0]:
                    a -= b * c
                    am += abs(b * c)
                else:
                    a += b * c
                    am += abs(b * c)
                    b = -b
                k += 1
                n = y
            elif n.op in ('fneg', 'rneg'):
                b = -b
                n = x[0]
            else:
                break
        return n, a, b, k, am

    def findmob(self):
        out = {}
        for i, n in enumerate(self.nodes):
            if n.op in ('fdiv', 'rdiv') and isinstance(n.args[0], Node) and isinstance(n.args[1], Node):
                try:
                    m, a, b, k, am = self.affine(n.args[0])
                    m2, c, d, k2, cm = self.affine(n.args[1])
                except (ValueError, OverflowError, TypeError):
                    continue
                if m is m2 and b and d and (a or c) and m.ty in ('f32', 'f64', 'real'):
                    ty = [x.ty for x in (n, n.args[0], n.args[1]) if x.ty != 'real']
                    u = max([D.U[t] for t in ty] or [0.0])
                    out[i] = (self.pos[m.id], float(a), float(b), float(c), float(d), u * (k + 2) * 1.01 + 1e-15, u * (k2 + 2) * 1.01 + 1e-15, u, float(am) * 1.0001, float(cm) * 1.0001)
        return out

    def mobius(self, i, ivs):
        """Range of (a+bm)/(c+dm): monotone in m where the denominator has no zero."""
        mp, a, b, c, d, e1, e2, u, am, cm = self.mob[i]
        x = ivs[mp]
        if x is TOP or I.mag(x) == INF:
            return None
        M = I.mag(x)
        D0 = (c + d * x[0], c + d * x[1])
        if D0[0] * D0[1] <= 0:
            return None
        A2 = (cm + abs(d) * M) * e2
        A1 = (am + abs(b) * M) * e1 + 1e-44
        mn = min(abs(D0[0]), abs(D0[1]))
        if A2 >= 0.25 * mn:
            return None
        lo, hi = INF, -INF
        for j in (0, 1):
            q = (a + b * x[j]) / D0[j]
            lo = min(lo, q)
            hi = max(hi, q)
        # |fl(n)/fl(d) - n/d| <= (A1 + |n/d| A2) / (|d| - A2)
        w = (A1 + max(abs(lo), abs(hi)) * A2) / (mn - A2) * 1.01 + max(abs(lo), abs(hi)) * (2 * u + 1e-15) + 1e-44
        return (lo - w, hi + w)

    def moberr(self, i, ivs, errs):
        """Absolute error of (a+bm)/(c+dm) through the derivative in m."""
        mp, a, b, c, d, e1, e2, u, am, cm = self.mob[i]
        x, e = ivs[mp], errs[mp]
        if x is TOP or e is None or I.mag(x) == INF:
            return None
        em = D.toabs(x, e)
        lo, hi = x[0] - em, x[1] + em
        d0, d1 = c + d * lo, c + d * hi
        if d0 * d1 <= 0:
            return None
        mn = min(abs(d0), abs(d1)) * (1 - 1e-12)
        M = max(abs(lo), abs(hi))
        A2 = (cm + abs(d) * M) * e2
        if A2 >= 0.25 * mn:
            return None
        A1 = (am + abs(b) * M) * e1 + 1e-44
        q = max(abs((a + b * lo) / d0), abs((a + b * hi) / d1)) * (1 + 1e-12)
        w = (A1 + q * A2) / (mn - A2) * 1.01 + q * (2 * u + 1e-15) + 1e-44
        return (abs(b * c - a * d) * (1 + 1e-12) + 1e-15 * (abs(b * c) + abs(a * d))) / (mn * mn) * em * 1.01 + w

    def error(self, i, v, get, err, ivs, errs):
        e = D.error(self.nodes[i], v, get, err)
        if i in self.mob:
            m = self.moberr(i, ivs, errs)
            if m is not None and (e is None or m < D.toabs(v, e)):
                return (0.0, m)
        return e

    def forward(self, box):
        """Intervals of all nodes for a box; HC4 with the path conditions.  Raises Empty."""
        ivs = [None] * len(self.nodes)
        ref = {}
        fixed = self.path.fixed
        pos = self.pos
        for i, (_, n, _, _) in enumerate(self.inputs):
            ref[pos[n.id]] = box[i]
        for k, v in self.path.static.items():
            if k in pos:
                ref[pos[k]] = v

        def get_for(n):
            def get(c):
                if isinstance(c, Node):
                    return ivs[pos[c.id]]
                if isinstance(c, int) and isinstance(n.ty, tuple):
                    w = n.ty[1]
                    if isinstance(n.args[0], Node) and isinstance(n.args[0].ty, tuple):
                        w = n.args[0].ty[1]
                    return D.getint(c, w)
                return D.civ(c)
            return get
        changed = True
        it = 0
        while changed and it < 4:
            it += 1
            for i, n in enumerate(self.nodes):
                if n.op == 'var':
                    ivs[i] = ref[i]
                    continue
                if n.id in fixed:
                    v = (fixed[n.id], fixed[n.id])
                    w = D.forward(n, get_for(n))
                    if w is not TOP and I.inter(v, w) is False:
                        raise Empty()
                    ivs[i] = v
                    continue
                if n.op == 'fmodn':
                    x = ivs[pos[n.args[0].id]]
                    k = n.args[1] * n.args[2]
                    v = TOP if x is TOP else I.fix(x[0] - k, x[1] - k, n.ty)
                else:
                    v = D.forward(n, get_for(n))
                    if i in self.mob:
                        r = self.mobius(i, ivs)
                        if r is not None:
                            v = r if v is TOP else I.inter(v, r) or v
                r = ref.get(i)
                if r is not None:
                    v = r if v is TOP else I.inter(v, r)
                    if v is False:
                        raise Empty()
                ivs[i] = v
            if not self.condatoms:
                break
            changed = self.contract(ivs, ref)
            if self.groups and self.alias(ivs, ref):
                changed = True
        return ivs

    def alias(self, ivs, ref):
        """Nodes with proportional ideal values share what is known about that value."""
        errs = self.errors(ivs)
        ch = False
        for g in self.groups:
            base = None
            for i, c in g:
                v = ref.get(i, ivs[i])
                if v is TOP or errs[i] is None or I.mag(v) == INF:
                    continue
                w = D.ideal_iv(v, errs[i])
                if c != 1.0:
                    w = I.div(w, (c, c), 'real')
                base = w if base is None else I.inter(base, w)
                if base is False:
                    raise Empty()
            if base is None:
                continue
            for i, c in g:
                v = ivs[i]
                if v is TOP or errs[i] is None:
                    continue
                w = I.mul(base, (c, c), 'real') if c != 1.0 else base
                d = (errs[i][0] * I.mag(w) + errs[i][1]) * D.G
                w = (I.dn(w[0] - d), I.up(w[1] + d))
                x = I.inter(v, w)
                if x is False:
                    raise Empty()
                o = ref.get(i)
                if o is not None:
                    x = I.inter(x, o)
                    if x is False:
                        raise Empty()
                w0 = v[1] - v[0]
                if x != v and (w0 == INF or x[1] - x[0] < 0.95 * w0 or (v[0] <= 0 <= v[1] and not x[0] <= 0 <= x[1])):
                    ref[i] = x
                    ch = True
        return ch

    def contract(self, ivs, ref):
        pos = self.pos
        ch = [False]
        upd = {}

        def cur(x):
            if isinstance(x, Node):
                i = pos[x.id]
                return upd.get(i, ivs[i])
            return D.civ(x)

        def narrow(x, r):
            if not isinstance(x, Node):
                c = D.civ(x)
                if c is not TOP and I.inter(c, r) is False:
                    raise Empty()
                return
            i = pos[x.id]
            o = upd.get(i, ivs[i])
            v = r if o is TOP else I.inter(o, r)
            if v is False:
                raise Empty()
            if v != o:
                upd[i] = v
        for k, v in self.path.fixed.items():
            if k in pos:
                upd[pos[k]] = (v, v)
        for kind, pred, a, b in self.condatoms:
            if kind == 'i':
                if isinstance(a, Node) and not isinstance(b, Node):
                    w = a.ty[1]
                    y = D.getint(b, w)[0]
                    x = cur(a)
                    if x is TOP:
                        continue
                    if pred in ('slt', 'sle'):
                        narrow(a, (-INF, y - (pred == 'slt')))
                    elif pred in ('sgt', 'sge'):
                        narrow(a, (y + (pred == 'sgt'), INF))
                    elif pred == 'eq':
                        narrow(a, (y, y))
                    elif pred == 'ne' and x[0] == x[1] == y:
                        raise Empty()
                    elif pred[0] == 'u' and x[0] >= 0 and y >= 0:
                        if pred in ('ult', 'ule'):
                            narrow(a, (-INF, y - (pred == 'ult')))
                        else:
                            narrow(a, (y + (pred == 'ugt'), INF))
                continue
            x, y = cur(a), cur(b)
            if x is TOP or y is TOP:
                continue
            p = pred[1:]
            if pred in ('uno',):
                raise Empty()
            if pred == 'ord':
                continue
            if p in ('lt', 'le', 'gt', 'ge'):
                if p in ('gt', 'ge'):
                    a, b, x, y = b, a, y, x
                strict = p in ('lt', 'gt')
                if strict and x[0] >= y[1]:
                    raise Empty()
                narrow(a, (-INF, below32(y[1]) if strict and isinstance(a, Node) and a.ty == 'f32' else y[1]))
                narrow(b, (above32(x[0]) if strict and isinstance(b, Node) and b.ty == 'f32' else x[0], INF))
            elif p == 'eq':
                narrow(a, y)
                narrow(b, x)
            elif p == 'ne' and x[0] == x[1] == y[0] == y[1]:
                raise Empty()
        if not upd:
            return False
        # backward
        for i in range(len(self.nodes) - 1, -1, -1):
            if i not in upd:
                continue
            n = self.nodes[i]
            new = upd[i]
            if new is TOP:
                continue
            op = n.op
            A = n.args
            if op in ('fneg', 'rneg'):
                narrow(A[0], I.neg(new))
            elif op == 'fpext':
                narrow(A[0], new)
            elif op == 'fptrunc':
                narrow(A[0], widen(new, 'f32'))
            elif op in ('fadd', 'fsub', 'radd', 'rsub', 'fmul', 'rmul', 'fdiv', 'rdiv', 'fmodn'):
                w = widen(new, n.ty)
                if op == 'fmodn':
                    k = n.args[1] * n.args[2]
                    narrow(A[0], (I.dn(w[0] + k), I.up(w[1] + k)))
                    continue
                a, b = cur(A[0]), cur(A[1])
                if a is TOP or b is TOP or I.mag(a) == INF or I.mag(b) == INF:
                    continue
                if op in ('fadd', 'radd'):
                    narrow(A[0], I.sub(w, b, 'real'))
                    narrow(A[1], I.sub(w, cur(A[0]), 'real'))
                elif op in ('fsub', 'rsub'):
                    narrow(A[0], I.add(w, b, 'real'))
                    narrow(A[1], I.sub(cur(A[0]), w, 'real'))
                elif op in ('fmul', 'rmul'):
                    if A[0] is A[1]:
                        continue
                    if I.mig(b) > 0:
                        t = I.div(w, b, 'real')
                        if t is not TOP:
                            narrow(A[0], t)
                    if I.mig(a) > 0:
                        t = I.div(w, a, 'real')
                        if t is not TOP:
                            narrow(A[1], t)
                elif I.mig(b) > 0:
                    narrow(A[0], I.mul(w, b, 'real'))
            elif op in ('fabs', 'rabs'):
                narrow(A[0], (-new[1], new[1]))
            elif op in ('fptosi', 'fptoui'):
                lo, hi = new
                if abs(lo) != INF and abs(hi) != INF:
                    narrow(A[0], (float(lo) if lo > 0 else I.up(float(lo - 1)), I.dn(float(hi + 1)) if hi >= 0 else float(hi)))
            elif op in ('sext', 'zext', 'trunc', 'sitofp'):
                narrow(A[0], new)
        ch = False
        for i, v in upd.items():
            o = ref.get(i, ivs[i])
            if o is TOP or v is TOP:
                if o is not v:
                    ref[i] = v
                    ch = True
                continue
            w0 = o[1] - o[0]
            ref[i] = v
            if o != v and (w0 == INF or (v[1] - v[0]) < 0.95 * w0):
                ch = True
        return ch

    def errors(self, ivs):
        errs = [None] * len(self.nodes)
        pos = self.pos

        def get(c):
            return ivs[pos[c.id]] if isinstance(c, Node) else D.civ(c)

        def err(c):
            if isinstance(c, Node):
                return errs[pos[c.id]]
            return (0.0, 0.0)
        for i, n in enumerate(self.nodes):
            v = ivs[i]
            if v is TOP:
                continue
            if n.id in self.path.fixed or ('cut', n.id) in self.akey:
                errs[i] = (0.0, 0.0)
            elif n.op == 'fmodn':
                e = errs[pos[n.args[0].id]]
                errs[i] = e     # the subtraction is exact for the computed value; ideal error carries over
            else:
                errs[i] = self.error(i, v, get, err, ivs, errs)
            e = errs[i]
            if e is not None and (not (e[0] < 0.4) or not (e[1] < 1e300)):
                errs[i] = None
        return errs

    def solve(self, box, claims, want_model=False):
        """claims: indices into self.claims.  Returns (empty, {idx: status}, models, score) with status True = discharged."""
        return Box(self, box).run(claims)


class Box:
    def __init__(self, num, box):
        self.N = num
        self.box = box
        self.cons = []
        self.vars = {}
        self.decl = []
        self.aiv = {}
        self.riv = {}

    def run(self, claims):
        N = self.N
        try:
            self.ivs = N.forward(self.box)
        except Empty:
            return True, {}, None, None
        try:
            self.sweep()
        except Empty:
            return True, {}, None, None
        self.box2 = [self.ivs[N.pos[n.id]] for (_, n, _, _) in N.inputs]
        res = {}
        todo = []
        for ci in claims:
            nm, e = N.claims[ci]
            if not isinstance(e, Node):
                res[ci] = e >= 0
                continue
            i = N.pos[e.id]
            if N.rats[e.id] is None or (not N.symerr and (self.ivs[i] is TOP or self.errs[i] is None)):
                res[ci] = False
                continue
            todo.append(ci)
        # path conditions
        self.condcons = []
        for kind, pred, a, b in N.condatoms:
            self.pathcond(kind, pred, a, b)
        exprs = {}
        for ci in todo:
            c = self.claimneg(ci)
            if c is None:
                res[ci] = False
            else:
                exprs[ci] = c
        models = {}
        infeasible = False
        if not claims:
            # pure feasibility of the path
            self.close_vars()
            r, m = self.check([])
            return (r == 'unsat'), {}, ({None: m} if m else None), None
        # first with the bounds of the monomials alone, then with the relaxation
        for ci in list(exprs):
            if self.quick(exprs[ci]):
                res[ci] = True
                del exprs[ci]
        if exprs and 'direct' in N.cuts:
            for ci in exprs:
                res[ci] = False
            return False, res, None, None
        if exprs:
            try:
                self.close_vars()
            except Empty:
                return True, {}, None, None
            s = self.base(exprs)
            for ci in exprs:
                r, m = self.query(s, ci)
                res[ci] = (r == 'unsat')
                if m:
                    models[ci] = m
        return False, res, models, None

    def sweep(self):
        """Intervals and error bounds together; the interval of a node's simplified ideal value narrows the computed one."""
        N = self.N
        pos, fixed = N.pos, N.path.fixed
        ivs = self.ivs
        errs = self.errs = [None] * len(N.nodes)

        def get(c):
            return ivs[pos[c.id]] if isinstance(c, Node) else D.civ(c)

        def err(c):
            return errs[pos[c.id]] if isinstance(c, Node) else (0.0, 0.0)
        ch = False
        for i, n in enumerate(N.nodes):
            if isinstance(n.ty, tuple):
                errs[i] = (0.0, 0.0)
                continue
            v = ivs[i]
            if ch and n.op in ('fadd', 'radd', 'fsub', 'rsub', 'fmul', 'rmul', 'fdiv', 'rdiv', 'fneg', 'rneg', 'fpext', 'fptrunc', 'fn') and n.id not in fixed:
                w = D.forward(n, get)
                if w is not TOP:
                    v = w if v is TOP else I.inter(v, w)
                    if v is False:
                        raise Empty()
                    ivs[i] = v
            if v is TOP:
                continue
            if n.id in fixed or ('cut', n.id) in N.akey:
                errs[i] = (0.0, 0.0)
            elif n.op == 'fmodn':
                errs[i] = errs[pos[n.args[0].id]]
            else:
                errs[i] = N.error(i, v, get, err, ivs, errs)
            e = errs[i]
            if e is not None and (not (e[0] < 0.4) or not (e[1] < 1e300)):
                e = errs[i] = None
            if e is None or i not in N.smallset or v[0] == v[1]:
                continue
            w = self.rat_iv(N.rats[n.id])
            if w is TOP or I.mag(w) == INF:
                continue
            d = (e[0] * I.mag(w) + e[1]) * D.G
            w = (I.dn(w[0] - d), I.up(w[1] + d))
            if w[1] - w[0] < 0.9 * (v[1] - v[0]) or (v[0] <= 0 <= v[1] and not w[0] <= 0 <= w[1]):
                x = I.inter(v, w)
                if x is False:
                    raise Empty()
                ivs[i] = x
                errs[i] = N.error(i, x, get, err, ivs, errs) or e
                ch = True
        self.aiv = {}
        self.riv = {}

    # ------------------------------------------------------------ intervals of atoms and rationals
    def atom_iv(self, i):
        v = self.aiv.get(i)
        if v is not None:
            return v
        a = self.N.atoms[i]
        if a.kind == 'in':
            v = self.ivs[self.N.pos[a.node.id]]
        elif a.kind == 'fn':
            x = self.rat_iv(a.arg)
            v = I.fiv(a.fn, D.pf(a.p), x) if x is not TOP else I.FULL
            if a.fn == 'abs' or (a.fn == 'pow' and a.p.denominator % 2 == 0):
                v = (max(v[0], 0.0), v[1])
        elif a.kind == 'def':
            v = self.rat_iv(a.arg)
        else:
            p = self.N.pos[a.node.id]
            x, e = self.ivs[p], self.errs[p]
            v = D.ideal_iv(x, e) if x is not TOP and e is not None else I.FULL
        if v is TOP or v[0] != v[0] or v[1] != v[1]:
            v = I.FULL
        # nodes whose ideal value is exactly this atom
        f = self.N.reg.atomfid.get(i)
        if f is not None:
            v = self.meet(v, rat.Rat(rat.ONE, ((f, 1),)))
        self.aiv[i] = v
        return v

    def meet(self, v, r):
        if not r.f:
            return v
        for n, c in self.N.rat_node.get(r.f, ()):
            p = self.N.pos[n.id]
            x, e = self.ivs[p], self.errs[p]
            if x is not TOP and e is not None:
                w = D.ideal_iv(x, e)
                if c != r.c:
                    if I.mag(w) == INF or not c:
                        continue
                    k = r.c / c
                    kf = float(k)
                    w = I.mul(w, (kf, kf) if Fraction(kf) == k else (I.dn(kf), I.up(kf)), 'real')
                w = I.inter(v, w)
                if w is not False:
                    v = w
        return v

    def poly_iv(self, p):
        lo = hi = 0.0
        for m, c in p.items():
            v = self.mono_iv(m)
            cf = float(c)
            x, y = cf * v[0], cf * v[1]
            if x != x:
                x = 0.0
            if y != y:
                y = 0.0
            if x > y:
                x, y = y, x
            lo += x - abs(x) * 4e-16
            hi += y + abs(y) * 4e-16
        s = 1e-15 * max(abs(lo), abs(hi)) if max(abs(lo), abs(hi)) != INF else 0.0
        return (lo - s - 1e-300, hi + s + 1e-300)

    def mono_iv(self, m):
        v = None
        for a, e in m:
            x = self.atom_iv(a)
            if e != 1:
                x = I.powi(x, e)
            v = x if v is None else I.mul(v, x, 'real')
        return (1.0, 1.0) if v is None else v

    def rat_iv(self, r):
        k = r.key()
        v = self.riv.get(k, 0)
        if v != 0:
            return v
        v = (1.0, 1.0)
        for fid, e in r.f:
            a = self.N.reg.isatom(fid)
            x = self.poly_iv(self.N.reg.poly[fid]) if a is None else self.atom_iv(a)
            if a is None:
                x = self.meet(x, rat.Rat(rat.ONE, ((fid, 1),)))
            if abs(e) != 1:
                x = I.powi(x, abs(e))
            if e > 0:
                v = I.mul(v, x, 'real')
            else:
                v = I.div(v, x, 'real')
            if v is TOP:
                v = I.FULL
                break
        c = float(r.c)
        v = I.mul(v, (I.dn(c), I.up(c)) if Fraction(c) != r.c else (c, c), 'real')
        v = self.meet(v, r)
        self.riv[k] = v
        return v

    # ------------------------------------------------------------ constraints:  sum c*m  <=  rhs
    def var(self, m):
        v = self.vars.get(m)
        if v is None:
            v = len(self.decl)
            self.vars[m] = v
            self.decl.append(m)
        return v

    def fromrat(self, r, extra=0.0, sense='le'):
        """Linear (over monomials) constraint for  r <= extra  : returns (terms, rhs) or None.
        Denominators must have a definite sign on the box."""
        N = self.N
        num = [(x, y) for x, y in r.f if y > 0]
        den = [(x, -y) for x, y in r.f if y < 0]
        sgn = 1
        dlo, dhi = 1.0, 1.0
        for fid, e in den:
            x = self.rat_iv(rat.Rat(rat.ONE, ((fid, 1),)))
            if x[0] > 0:
                pass
            elif x[1] < 0:
                if e % 2:
                    sgn = -sgn
            elif e % 2 == 0 and False:
                pass
            else:
                return None
        # drop numerator factors of definite sign when the comparison is with zero
        if extra == 0.0:
            keep = []
            for fid, e in num:
                x = self.rat_iv(rat.Rat(rat.ONE, ((fid, 1),)))
                if x[0] > 0 or (e % 2 == 0 and (x[0] > 0 or x[1] < 0)):
                    continue
                if x[1] < 0:
                    sgn = -sgn if e % 2 else sgn
                    continue
                keep.append((fid, e))
            num = keep
        try:
            p = N.alg.expand(r.c * sgn, num)
            if den and extra != 0.0:
                d = N.alg.expand(Fraction(sgn), den)
                q = rat.pscale(d, -Fraction(extra))
                p = rat.padd(p, q)
                return self.lin(p, 0.0)
        except rat.TooBig:
            # split off the largest numerator factors as definitional atoms
            try:
                rr = N.alg.cutrat(r)
                return self.lin(N.alg.expand(rr.c, rr.f), extra)
            except rat.TooBig:
                return None
        return self.lin(p, extra if not den else 0.0)

    def lin(self, p, rhs):
        """poly <= rhs  as (terms {var: coef}, rhs) with rounded coefficients and compensating slack."""
        mx = 0.0
        const = Fraction(0)
        items = []
        for m, c in p.items():
            if m == ():
                const = c
                continue
            v = self.mono_iv(m)
            mg = I.mag(v)
            if mg == INF:
                return None
            if v[0] == v[1] and False:
                pass
            items.append((m, c, v, mg))
            mx = max(mx, abs(float(c)) * mg)
        rhs = Fraction(rhs) - const
        slack = 0.0
        if mx < 1e-250:
            return ({}, rhs + (Fraction(mx) * 2 * len(items) if mx else 0))
        q = 2.0 ** (math.floor(math.log2(mx)) - 44)       # absolute resolution per term
        terms = {}
        for m, c, v, mg in items:
            if mg == 0.0:
                continue
            if mg * abs(float(c)) < q:
                slack += abs(float(c)) * mg
                continue
            step = 2.0 ** math.floor(math.log2(q / mg))
            k = round(c / Fraction(step))
            cc = Fraction(step) * k
            slack += abs(float(c - cc)) * mg * 1.0000001
            terms[self.var(m)] = cc
        if slack:
            slack = 2.0 ** math.ceil(math.log2(slack))
        r2 = rhs + Fraction(slack)
        rr = ceilq(r2, q / 16)
        return (terms, rr)

    def pathcond(self, kind, pred, a, b):
        N = self.N
        if kind == 'i':
            return
        p = pred[1:]
        if pred in ('ord', 'uno') or p == 'ne':
            return
        ra, rb = N.R(a), N.R(b)
        if ra is None or rb is None:
            return
        e = 0.0
        for x in (a, b):
            if isinstance(x, Node):
                i = N.pos[x.id]
                if self.ivs[i] is TOP:
                    if pred[0] == 'u':
                        return
                    return
                if self.errs[i] is None:
                    return
                e += D.toabs(self.ivs[i], self.errs[i])
        if e > 1e30:
            return
        try:
            d = N.alg.sub(ra, rb)
        except rat.TooBig:
            return
        if p in ('lt', 'le', 'eq'):
            c = self.fromrat(d, e)
            if c:
                self.cons.append(c)
        if p in ('gt', 'ge', 'eq'):
            c = self.fromrat(N.alg.neg(d), e)
            if c:
                self.cons.append(c)

    def claimneg(self, ci):
        """Negated claim  E < 0  as a linear constraint (ideal E < err)."""
        N = self.N
        nm, e = N.claims[ci]
        i = N.pos[e.id]
        if self.errs[i] is None:
            return self.symneg(N.parts(ci), N.rats[e.id]) if N.parts(ci) else None
        if self.ivs[i] is not TOP and self.ivs[i][0] >= 0:
            return ({}, Fraction(0), True)      # the computed value itself is bounded: v >= 0 and v < 0
        rho, eta = self.errs[i]
        # |v - r| <= rho|r| + eta.  v < 0  =>  r < eta/(1-rho) (r >= 0 and r(1-rho) - eta <= v < 0)
        bound = eta / (1 - rho) * 1.000001
        parts = N.parts(ci)
        if parts:
            # affine in a few computed values: keep their relative errors symbolic
            r = N.rats[e.id]
            b2 = 0.0
            if N.symerr:
                c = self.symneg(parts, r)
                if c is not None:
                    return c
            try:
                for L, k in parts:
                    j = N.pos[L.id]
                    rh, et = self.errs[j]
                    if rh == 0.0 and et == 0.0:
                        continue
                    kf = abs(float(k)) * D.G
                    v = self.rat_iv(N.rats[L.id])
                    if rh and (v[0] >= 0 or v[1] <= 0):
                        r = N.addk(r, N.rats[L.id], rnd_up(kf * rh) * (-1 if v[0] >= 0 else 1))
                        b2 += kf * et
                    else:
                        m = self.majorant(N.rats[L.id]) if rh else None
                        if m is not None:
                            r = N.addk(r, m, -rnd_up(kf * rh))
                            b2 += kf * et
                        else:
                            b2 += kf * min(D.toabs(self.ivs[j], self.errs[j]), (rh * I.mag(v) + et) * D.G)
                c = self.fromrat(r, b2 * D.G)
                if c is not None:
                    return (c[0], c[1], True)
            except rat.TooBig:
                pass
        c = self.fromrat(N.rats[e.id], bound)
        if c is None:
            return None
        return (c[0], c[1], True)

    # symbolic error bounds: |computed - ideal| <= sum of non-negative rational functions
    def symneg(self, parts, r):
        A = self.N.alg
        try:
            tot = {}
            for L, k in parts:
                E = self.serr(L)
                if E is None:
                    return None
                for f, c in E.items():
                    tot[f] = tot.get(f, 0) + c * abs(k)
            b = Fraction(0)
            for f, c in tot.items():
                c = rnd_up(float(c) * D.G)
                if f == ():
                    b += c
                else:
                    r = A.add(r, rat.Rat(-c, f))
            c = self.fromrat(r, float(b) * D.G if b else 0.0)
            return None if c is None else (c[0], c[1], True)
        except rat.TooBig:
            return None

    def maj(self, n):
        """(coefficient, factors) at least |ideal value of n| on the box."""
        r = self.N.R(n)
        if r is None:
            return None
        c = abs(r.c)
        keep = []
        for fid, e in r.f:
            x = self.rat_iv(rat.Rat(rat.ONE, ((fid, 1),)))
            if x is TOP:
                return None
            if x[0] >= 0:
                keep.append((fid, e))
            elif x[1] <= 0:
                keep.append((fid, e))
                c = -c if e % 2 else c
            elif e > 0 and I.mag(x) < 1e30:
                c *= rnd_up(I.mag(x)) ** e
            else:
                return None
        return c, tuple(keep)

    def semul(self, E, m):
        A = self.N.alg
        out = {}
        for f, c in E.items():
            r = A.mul(rat.Rat(c, f), rat.Rat(m[0], m[1]))
            out[r.f] = out.get(r.f, 0) + r.c
        return out

    def semag(self, E):
        """Constant bound of an error."""
        t = 0.0
        for f, c in E.items():
            v = self.rat_iv(rat.Rat(c, f))
            if v is TOP or I.mag(v) == INF:
                return INF
            t += I.mag(v)
        return t * D.G

    def serr(self, n):
        if not isinstance(n, Node):
            return {}
        memo = self.__dict__.setdefault('smemo', {})
        if n.id in memo:
            return memo[n.id]
        E = self.serr0(n)
        if E is not None and len(E) > 10:
            # collapse the smallest terms
            l = sorted(E.items(), key=lambda x: -I.mag(self.rat_iv(rat.Rat(x[1], x[0]))))
            E = dict(l[:8])
            k = self.semag(dict(l[8:]))
            E[()] = E.get((), 0) + rnd_up(k)
        memo[n.id] = E
        return E

    def serr0(self, n):
        N = self.N
        i = N.pos[n.id]
        e = self.errs[i]
        if e == (0.0, 0.0) or n.op == 'var':
            return {}
        u, tiny = D.U[n.ty], D.TINY[n.ty]
        op, A = n.op, n.args

        def fallback():
            if e is None:
                return None
            out = {(): rnd_up(e[1])} if e[1] else {}
            if e[0]:
                m = self.maj(n)
                if m is None:
                    return None
                out = addm(out, {m[1]: m[0] * rnd_up(e[0])})
            return out

        def addm(a, b, k=1):
            out = dict(a)
            for f, c in b.items():
                out[f] = out.get(f, 0) + c * k
            return {f: qup(c) for f, c in out.items() if c}

        def rounded(E):
            if not u:
                return E
            m = self.maj(n)
            if m is None:
                return None
            E = addm(E, E, Fraction(u) * 2)
            E = addm(E, {m[1]: m[0] * Fraction(u)})
            if tiny:
                E = addm(E, {(): rnd_up(tiny)})
            return E
        if n.id in N.path.fixed or ('cut', n.id) in N.akey:
            return {}
        if op in ('fneg', 'rneg', 'fpext', 'fabs', 'rabs'):
            return self.serr(A[0])
        if op == 'fptrunc':
            E = self.serr(A[0])
            return None if E is None else rounded(E)
        if op in ('fadd', 'radd', 'fsub', 'rsub'):
            a, b = self.serr(A[0]), self.serr(A[1])
            if a is None or b is None:
                return fallback()
            return rounded(addm(a, b))
        if op in ('fmul', 'rmul'):
            a, b = self.serr(A[0]), self.serr(A[1])
            ma, mb = self.maj(A[0]), self.maj(A[1])
            if a is None or b is None or ma is None or mb is None:
                return fallback()
            E = addm(self.semul(a, mb), self.semul(b, ma))
            if a and b:
                k = self.semag(a)
                if not k < 1e30:
                    return fallback()
                E = addm(E, b, rnd_up(k))
            return rounded(E)
        if op in ('fdiv', 'rdiv'):
            a, b = self.serr(A[0]), self.serr(A[1])
            ma, mb = self.maj(A[0]), self.maj(A[1])
            if a is None or b is None or ma is None or mb is None:
                return fallback()
            rb = N.R(A[1])
            v = self.rat_iv(rb)
            if v is TOP or I.mig(v) <= 0:
                return fallback()
            inv = N.alg.inv(rat.Rat(mb[0], mb[1]))
            k = Fraction(1)
            E = a
            if b:
                ratio = self.semul(b, (inv.c, inv.f))
                eps = self.semag(ratio)
                if not eps < 0.25:
                    return fallback()
                k = 1 + rnd_up(2 * eps)
                # |b'| >= |b| (1 - eps)
                E = addm(E, self.semul(ratio, ma))
            E = self.semul(E, (inv.c * k, inv.f))
            return rounded({f: qup(c) for f, c in E.items()})
        return fallback()

    def majorant(self, r):
        """A rational function at least |r| on the box, built from the factors of r that have a definite sign; None if there is none."""
        c = Fraction(abs(r.c))
        keep = []
        for fid, e in r.f:
            x = self.rat_iv(rat.Rat(rat.ONE, ((fid, 1),)))
            if x is TOP:
                return None
            if x[0] >= 0 or x[1] <= 0:
                if x[1] <= 0 and e % 2:
                    c = -c
                keep.append((fid, e))
            elif e > 0:
                m = I.mag(x)
                if not m < 1e30:
                    return None
                c *= rnd_up(m) ** e
            else:
                return None
        if not keep or len(keep) == len(r.f):
            return None
        return rat.Rat(c, tuple(keep))

    # ------------------------------------------------------------ relaxation of atoms and monomials
    def close_vars(self):
        i = 0
        done_fn = []
        while i < len(self.decl):
            m = self.decl[i]
            i += 1
            if len(m) == 1 and m[0][1] == 1:
                a = self.N.atoms[m[0][0]]
                if a.kind == 'fn':
                    self.envelope(a)
                    done_fn.append(a)
                elif a.kind == 'def':
                    self.defatom(a)
                elif a.kind == 'cut':
                    self.cutcon(a)
            else:
                self.mccormick(m)
        self.pairs(done_fn)
        # pairs may add monomials
        while i < len(self.decl):
            m = self.decl[i]
            i += 1
            if len(m) == 1 and m[0][1] == 1:
                a = self.N.atoms[m[0][0]]
                if a.kind == 'fn':
                    self.envelope(a)
                elif a.kind == 'def':
                    self.defatom(a)
                elif a.kind == 'cut':
                    self.cutcon(a)
            else:
                self.mccormick(m)
        self.ranges()

    def ranges(self):
        """Sums of monomials that appear as a value of the computation and whose interval is known better than term by term
        (a sum of squares, say)."""
        N = self.N
        if N.rangec is None:
            N.rangec = []
            seen = set()
            for i in N.small:
                r = N.rats[N.nodes[i].id]
                if r.f in seen or any(e < 0 for _, e in r.f):
                    continue
                seen.add(r.f)
                try:
                    p = N.alg.expand(Fraction(1), r.f)
                except rat.TooBig:
                    continue
                if 1 < len(p) <= 24 and any(sum(e for _, e in m) > 1 for m in p):
                    N.rangec.append((rat.Rat(rat.ONE, r.f), p))
        for r, p in N.rangec:
            if not all(m in self.vars for m in p if m):
                continue
            v, w = self.rat_iv(r), self.poly_iv(p)
            if v is TOP:
                continue
            d = 0.01 * (w[1] - w[0]) if I.mag(w) < INF else 0.0
            if v[0] > w[0] + d:
                self.put(rat.pscale(p, Fraction(-1)), -v[0] + abs(v[0]) * 1e-14)
            if v[1] < w[1] - d:
                self.put(p, v[1] + abs(v[1]) * 1e-14)

    def cutcon(self, a):
        """t = cbrt(v)(1+d), v the computed argument:  |t^3 - r| <= ((1+rho)(1+d)^3 - 1)|r| + eta(1+d)^3."""
        if a.fn is None:
            return
        arg = D.family(a.node)[2]
        p = self.N.pos[arg.id]
        x, e = self.ivs[p], self.errs[p]
        if x is TOP or e is None or a.fn != 'cbrt':
            return
        lu = D.ULPS[a.node.ty]
        k = (1 + lu) ** 3
        rel = ((1 + e[0]) * k - 1) * D.G
        ab = e[1] * k * D.G + 1e-120
        try:
            n = self.N.alg.expand(a.arg.c, a.arg.f)
        except rat.TooBig:
            return
        ri = self.rat_iv(a.arg)
        t3 = {((a.i, 3),): Fraction(1)}
        if ri[0] >= 0 or ri[1] <= 0:
            s = 1 if ri[0] >= 0 else -1
            rl = rnd_up(rel)
            self.put(rat.padd(t3, rat.pscale(n, -1 - s * rl)), ab)
            self.put(rat.padd(rat.pscale(t3, Fraction(-1)), rat.pscale(n, 1 - s * rl)), ab)
        else:
            ab += rel * I.mag(ri) * D.G
            self.put(rat.padd(t3, rat.pscale(n, Fraction(-1))), ab)
            self.put(rat.padd(rat.pscale(t3, Fraction(-1)), n), ab)

    def put(self, p, rhs):
        c = self.lin(p, rhs)
        if c is not None and c[0]:
            self.cons.append(c)

    def defatom(self, a):
        r = a.arg
        num = [(x, y) for x, y in r.f if y > 0]
        den = [(x, -y) for x, y in r.f if y < 0]
        try:
            n = self.N.alg.expand(r.c, num)
            d = self.N.alg.expand(Fraction(1), den)
            d = rat.pmul({((a.i, 1),): Fraction(1)}, d)
            p = rat.padd(d, rat.pscale(n, Fraction(-1)))
        except rat.TooBig:
            return
        if len(p) > 200:
            return
        self.put(p, 0.0)
        self.put(rat.pscale(p, Fraction(-1)), 0.0)

    def envelope(self, a):
        x = self.rat_iv(a.arg)
        if x is TOP or I.mag(x) == INF:
            return
        try:
            arg = self.N.alg.expand(a.arg.c, a.arg.f)
        except rat.TooBig:
            return
        t = {((a.i, 1),): Fraction(1)}
        self.chord(t, a.fn, D.pf(a.p), arg, x)

    def chord(self, t, fn, p, arg, x):
        """Linear constraints for t = fn(arg) with arg in x, where fn has definite curvature."""
        lo, hi = x
        cv = I.curv(fn, p, x)
        if fn == 'abs':
            self.put(rat.padd(arg, rat.pscale(t, Fraction(-1))), 0.0)
            self.put(rat.padd(rat.pscale(arg, Fraction(-1)), rat.pscale(t, Fraction(-1))), 0.0)
        if cv == 0 or hi <= lo:
            return
        fl, fh = I.feval(fn, p, lo), I.feval(fn, p, hi)
        if abs(fl) == INF or abs(fh) == INF:
            return
        s = (fh - fl) / (hi - lo)
        s = rnds(s)
        slop = 8e-15 * (abs(fl) + abs(fh) + abs(s) * max(abs(lo), abs(hi)))
        sg = 1 if cv > 0 else -1
        # secant: convex f <= s*x + max(g(lo), g(hi))
        g0, g1 = fl - s * lo, fh - s * hi
        off = (max(g0, g1) if cv > 0 else min(g0, g1)) + sg * slop
        # sg*(t - s*arg) <= sg*off
        q = rat.padd(t, rat.pscale(arg, -Fraction(s)))
        self.put(rat.pscale(q, Fraction(sg)), sg * off)
        if fn == 'abs':
            return
        pts = [lo, 0.5 * (lo + hi), hi]
        if lo > 0 and hi / lo > 4:
            pts.append(math.sqrt(lo * hi))
        for m in pts:
            d = I.fder(fn, p, m)
            if abs(d) == INF or d != d:
                continue
            s = rnds(d)
            fm = I.feval(fn, p, m)
            slop = 8e-15 * (abs(fm) + abs(s) * max(abs(lo), abs(hi))) + abs(d - s) * (hi - lo) + abs(d) * 1e-14 * (hi - lo)
            off = fm - s * m - sg * slop
            q = rat.padd(t, rat.pscale(arg, -Fraction(s)))
            self.put(rat.pscale(q, Fraction(-sg)), -sg * off)

    def mccormick(self, m):
        if len(m) == 1:
            a, e = m[0]
            x = self.atom_iv(a)
            if I.mag(x) == INF:
                return
            arg = {((a, 1),): Fraction(1)}
            t = {m: Fraction(1)}
            if e == 2 or x[0] >= 0:
                if e == 2:
                    self.sq(t, arg, x)
                else:
                    self.chord(t, 'pow', float(e), arg, x)
                return
        if len(m) > 1:
            # a factor that is nearly constant is split off first
            k = min(range(len(m)), key=lambda i: relw(self.atom_iv(m[i][0])))
            if k and relw(self.atom_iv(m[k][0])) < 1e-3:
                self.mcc(((m[k][0], m[k][1]),), m[:k] + m[k + 1:], m)
                return
        a, e = m[0]
        one = ((a, 1),)
        rest = tuple(y for y in (((a, e - 1),) + m[1:]) if y[1])
        if len(m) > 1 and e > 1:
            one = ((a, e),)
            rest = m[1:]
        self.mcc(one, rest, m)
        if len(m) == 3 and len(self.decl) < 60:
            for k in (1, 2):
                self.mcc((m[k],), m[:k] + m[k + 1:], m)

    def mcc(self, one, rest, m):
        x, y = self.mono_iv(one), self.mono_iv(rest)
        if I.mag(x) == INF or I.mag(y) == INF:
            return
        X, Y, M = one, rest, m
        f = Fraction
        for (sx, xb, sy, yb) in ((1, x[0], 1, y[0]), (-1, x[1], -1, y[1]), (1, x[0], -1, y[1]), (-1, x[1], 1, y[0])):
            # sx*(X - xb) >= 0 and sy*(Y - yb) >= 0  =>  sx*sy*(M - yb X - xb Y + xb yb) >= 0
            s = sx * sy
            xb, yb = f(rnds(xb)) if False else f(xb), f(yb)
            p = {M: f(-s)}
            p = rat.padd(p, {X: s * yb} if yb else {})
            p = rat.padd(p, {Y: s * xb} if xb else {})
            self.put(p, s * xb * yb)

    def sq(self, t, arg, x):
        lo, hi = x
        f = Fraction
        # secant: t <= (lo+hi) x - lo*hi
        self.put(rat.padd(t, rat.pscale(arg, -(f(lo) + f(hi)))), -f(lo) * f(hi))
        for m in (lo, hi, 0.5 * (lo + hi)):
            # t >= 2 m x - m^2
            self.put(rat.padd(rat.pscale(t, f(-1)), rat.pscale(arg, 2 * f(m))), f(m) * f(m))

    def pairs(self, fns):
        """Mean-value constraints between applications of the same function to nearby arguments (or nearby exponents)."""
        N = self.N
        f = Fraction
        for i, a in enumerate(fns):
            if a.fn == 'pow' and abs(a.p - 1) <= SMALLP and a.p != 1:
                x = self.rat_iv(a.arg)
                if x is not TOP and x[0] >= 0 and x[1] != INF:
                    b = D.powpar(x, float(min(a.p, 1))) * abs(float(a.p - 1)) * (1 + 1e-6)
                    try:
                        arg = N.alg.expand(a.arg.c, a.arg.f)
                    except rat.TooBig:
                        continue
                    p = rat.padd({((a.i, 1),): f(1)}, rat.pscale(arg, f(-1)))
                    self.put(p, b)
                    self.put(rat.pscale(p, f(-1)), b)
            for b in fns[i + 1:]:
                if a.fn != b.fn or a.fn == 'abs':
                    continue
                dp = 0.0
                if a.p != b.p:
                    if a.fn not in ('pow', 'expb'):
                        continue
                    if abs(float(a.p - b.p)) > 1e-3 * abs(float(a.p)):
                        continue
                    dp = abs(float(a.p - b.p))
                xa, xb = self.rat_iv(a.arg), self.rat_iv(b.arg)
                if xa is TOP or xb is TOP or I.mag(xa) == INF or I.mag(xb) == INF:
                    continue
                hull = (min(xa[0], xb[0]), max(xa[1], xb[1]))
                if a.arg.key() == b.arg.key():
                    dl = dh = 0.0
                else:
                    try:
                        d = N.alg.sub(a.arg, b.arg)
                        dl, dh = self.rat_iv(d)
                    except rat.TooBig:
                        continue
                if max(abs(dl), abs(dh)) > 0.5 * (hull[1] - hull[0]):
                    continue
                L = I.dsup(a.fn, D.pf(a.p), hull)
                if L == INF:
                    if dl != 0 or dh != 0:
                        continue
                    L = 0.0
                # monotone functions: derivative in [Lmin, L] with a fixed sign
                lo, hi = -L * max(abs(dl), abs(dh)), L * max(abs(dl), abs(dh))
                if dp:
                    if a.fn == 'pow':
                        if hull[0] < 0:
                            continue
                        pp = min(float(a.p), float(b.p))
                        pen = max(D.powpar(hull, pp), D.powpar(hull, max(float(a.p), float(b.p)))) * dp * (1 + 1e-6)
                    else:
                        # d/dp p^x = x p^(x-1)
                        pm = [float(a.p), float(b.p)]
                        pen = max(abs(z) * q ** (z - 1) for z in hull for q in pm) * dp * 1.0001
                    lo -= pen
                    hi += pen
                p = {((a.i, 1),): f(1), ((b.i, 1),): f(-1)}
                self.put(p, hi * (1 + 1e-9))
                self.put(rat.pscale(p, f(-1)), -lo * (1 + 1e-9))

    # ------------------------------------------------------------ the solver
    def quick(self, c):
        terms, rhs, _ = c
        N = self.N
        t0 = time.time()
        N.queries += 1
        out = []
        for v in terms:
            lo, hi = self.mono_iv(self.decl[v])
            out.append('(declare-const v%d Real)' % v)
            if lo != -INF:
                out.append('(assert (>= v%d %s))' % (v, sq(Fraction(lo))))
            if hi != INF:
                out.append('(assert (<= v%d %s))' % (v, sq(Fraction(hi))))
        out.append('(assert (< %s %s))' % (lsum(terms) if terms else '0.0', sq(rhs)))
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', 2000)
        s.from_string('\n'.join(out))
        r = s.check() == z3.unsat
        if r:
            N.unsat += 1
        N.solver_s += time.time() - t0
        return r

    def base(self, exprs={}):
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', 20000)
        ctx = s.ctx
        out = []
        for i, m in enumerate(self.decl):
            out.append('(declare-const v%d Real)' % i)
        for i, m in enumerate(self.decl):
            lo, hi = self.mono_iv(m)
            if lo != -INF:
                out.append('(assert (>= v%d %s))' % (i, sq(Fraction(lo))))
            if hi != INF:
                out.append('(assert (<= v%d %s))' % (i, sq(Fraction(hi))))
        for terms, rhs in self.cons:
            if not terms:
                if rhs < 0:
                    out.append('(assert false)')
                continue
            out.append('(assert (<= %s %s))' % (lsum(terms), sq(rhs)))
        for ci, (terms, rhs, strict) in exprs.items():
            out.append('(declare-const p%d Bool)' % ci)
            if terms:
                out.append('(assert (=> p%d (< %s %s)))' % (ci, lsum(terms), sq(rhs)))
            elif not (0 < rhs):
                out.append('(assert (not p%d))' % ci)
        self.text = '\n'.join(out)
        s.from_string(self.text)
        return s

    def query(self, s, ci):
        N = self.N
        t0 = time.time()
        N.queries += 1
        r = str(s.check() if ci is None else s.check(z3.Bool('p%d' % ci)))
        model = None
        if r == 'sat':
            md = s.model()
            vals = {}
            for d in md.decls():
                try:
                    vals[d.name()] = md[d].as_fraction()
                except Exception:
                    pass
            model = []
            for i, (nm, n, _, _) in enumerate(N.inputs):
                a = N.akey.get(('var', n.id))
                v = None
                if a is not None:
                    k = self.vars.get(((a.i, 1),))
                    if k is not None:
                        v = vals.get('v%d' % k)
                lo, hi = self.box2[i]
                if v is None:
                    v = 0.5 * (lo + hi)
                model.append(min(max(float(v), lo), hi))
        elif r == 'unsat':
            N.unsat += 1
        N.solver_s += time.time() - t0
        return r, model

    def check(self, terms):
        return self.query(self.base(), None)

    # ------------------------------------------------------------ which input to split
    def score(self, claims):
        N = self.N
        sc = [0.0] * len(N.inputs)
        seen = {}

        def atomw(i, w, depth):
            if depth > 12 or w == 0.0:
                return
            a = N.atoms[i]
            if a.kind == 'in':
                k = N.inpos[a.node.id]
                sc[k] += w
                return
            if a.kind == 'opaque' or a.arg is None:
                for k in self.inputs_of(a.node):
                    sc[k] += w * relw(self.box2[k])
                return
            r = a.arg
            ps = [(N.reg.poly[f], e) for f, e in r.f]
            tot = 0.0
            parts = []
            for p, e in ps:
                for m, c in p.items():
                    for (x, ex) in m:
                        v = self.atom_iv(x)
                        wd = min(v[1] - v[0], 1e30)
                        z = min(abs(float(c)) * min(I.mag(self.mono_iv(m)), 1e30) * wd / max(I.mag(v), 1e-30), 1e60)
                        parts.append((x, z))
                        tot += z
            if tot > 0:
                for x, z in parts:
                    atomw(x, w * z / tot, depth + 1)

        for ci in claims:
            e = N.claims[ci][1]
            if not isinstance(e, Node):
                continue
            r = N.rats[e.id]
            i = N.pos[e.id]
            if r is None or self.ivs[i] is TOP or self.errs[i] is None:
                for k in self.inputs_of(e):
                    sc[k] += relw(self.box2[k])
                continue
            if not r.f:
                self.probe(ci, sc)
                continue
            for fid, ex in r.f:
                p = N.reg.poly[fid]
                for m, c in p.items():
                    mi = self.mono_iv(m)
                    g = min(abs(float(c)) * (mi[1] - mi[0]), 1e30)
                    nl = len(m) > 1 or (m and m[0][1] > 1) or (m and N.atoms[m[0][0]].kind != 'in')
                    if not nl and len(r.f) == 1:
                        continue
                    if len(m) == 1 and m[0][1] == 1:
                        a = N.atoms[m[0][0]]
                        if a.kind == 'fn':
                            g = abs(float(c)) * self.gap(a)
                    ws = [(x, min(self.atom_iv(x)[1] - self.atom_iv(x)[0], 1e30) / max(I.mag(self.atom_iv(x)), 1e-30)) for x, _ in m]
                    t = sum(w for _, w in ws)
                    if t > 0:
                        for x, w in ws:
                            atomw(x, g * w / t, 0)
        ci = claims[0]
        e = N.claims[ci][1]
        if isinstance(e, Node):
            ins = self.inputs_of(e)
            if 1 < len(ins) <= 12:
                W = max(relw(self.box2[x]) for x in ins)
                k = max(range(len(sc)), key=lambda k: sc[k])
                if relw(self.box2[k]) < W / 6 or (N.symerr and len(ins) <= 4):
                    sc = [0.0] * len(N.inputs)
                    self.probe(ci, sc)
        return sc

    def probe(self, ci, sc):
        """Which input, when halved, reduces the rounding-error bound of a claim most."""
        N = self.N
        e = N.claims[ci][1]
        i = N.pos[e.id]

        def size(B):
            if B.ivs[i] is TOP or B.errs[i] is None:
                return 1e30
            r = N.rats[e.id]
            w = B.ivs[i]
            if r is not None:
                w = B.rat_iv(r)
                if w is TOP:
                    return 1e30
            return min(B.errs[i][0] * I.mag(w) + B.errs[i][1] + w[1] - w[0], 1e30)
        base = size(self)
        for k in self.inputs_of(e):
            h = bisect(self.box2[k])
            if h is None:
                continue
            tot = 0.0
            for part in h:
                b = list(self.box2)
                b[k] = part
                B = Box(N, b)
                try:
                    B.ivs = N.forward(b)
                    B.sweep()
                    tot += size(B)
                except Empty:
                    pass
            sc[k] += max(base - 0.5 * tot, 0.0) / max(base, 1e-300) * min(1.0, 4 * relw(self.box2[k])) + 1e-6 * relw(self.box2[k])

    def gap(self, a):
        x = self.rat_iv(a.arg)
        v = self.atom_iv(a.i)
        if x is TOP or I.mag(x) == INF or I.mag(v) == INF:
            return 1e10
        p = D.pf(a.p)
        m = 0.5 * (x[0] + x[1])
        if I.curv(a.fn, p, x) == 0:
            return v[1] - v[0]
        return abs(I.feval(a.fn, p, m) - 0.5 * (I.feval(a.fn, p, x[0]) + I.feval(a.fn, p, x[1])))

    def inputs_of(self, node):
        seen = set()
        st = [node]
        r = set()
        while st:
            n = st.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            if n.op == 'var':
                r.add(self.N.inpos[n.id])
            for a in n.args:
                if isinstance(a, Node):
                    st.append(a)
        return r


def below32(x):
    """Largest binary32 number below x."""
    if not -3e38 < x < 3e38:
        return x
    y = struct.unpack('<f', struct.pack('<f', x))[0]
    if y < x:
        return y
    if y == 0.0:
        return -2.0 ** -149
    b = struct.unpack('<i', struct.pack('<f', y))[0]
    return struct.unpack('<f', struct.pack('<i', b - 1 if y > 0 else b + 1))[0]


def above32(x):
    return -below32(-x)


def relw(v):
    w = v[1] - v[0]
    if w == 0:
        return 0.0
    return w / max(I.mag(v), 1e-30)


def iroot(q, n):
    """Exact n-th root of a rational (n odd), or None."""
    out = []
    for v in (abs(q.numerator), q.denominator):
        r = int(round(math.exp(math.log(v) / n))) if v else 0
        for _ in range(40):
            d = r ** n - v
            if d == 0:
                break
            # Newton step, exact integers
            s = r - d // (n * max(r, 1) ** (n - 1))
            r = s if s != r else r - (1 if d > 0 else -1)
        if r ** n != v:
            return None
        out.append(r)
    return Fraction(out[0] if q > 0 else -out[0], out[1])


def rnd_up(x):
    """A short rational at least x (>= 0), within 1/16."""
    if x <= 0:
        return Fraction(0)
    m, e = math.frexp(x)
    return Fraction(math.ceil(m * 16), 16) * Fraction(2) ** e


def qup(c):
    """A short rational at least c (> 0)."""
    if c.denominator.bit_length() + c.numerator.bit_length() < 80:
        return c
    m, e = math.frexp(float(c) * (1 + 1e-15))
    return Fraction(math.ceil(m * 4096), 4096) * Fraction(2) ** e


def rnds(s):
    """Round a slope to 30 bits."""
    if s == 0:
        return 0.0
    e = math.floor(math.log2(abs(s))) - 30
    return math.ldexp(round(math.ldexp(s, -e)), e)


def ceilq(r, q):
    q = Fraction(2.0 ** math.floor(math.log2(q)))
    return q * math.ceil(r / q)


def sq(r):
    r = Fraction(r)
    n, d = r.numerator, r.denominator
    if d == 1:
        return str(n) + '.0' if n >= 0 else '(- %d.0)' % -n
    if n >= 0:
        return '(/ %d.0 %d.0)' % (n, d)
    return '(- (/ %d.0 %d.0))' % (-n, d)


def lsum(terms):
    t = ['(* %s v%d)' % (sq(c), v) for v, c in terms.items()]
    return t[0] if len(t) == 1 else '(+ %s)' % ' '.join(t)


def bisect(v):
    lo, hi = v
    if lo > 0 and hi / lo > 4:
        m = math.sqrt(lo) * math.sqrt(hi)
    elif hi < 0 and lo / hi > 4:
        m = -math.sqrt(-lo) * math.sqrt(-hi)
    elif lo == 0 and hi > 1e-30:
        m = hi / 16 if hi < 0.05 else hi / 4
    elif hi == 0 and lo < -1e-30:
        m = lo / 16 if lo > -0.05 else lo / 4
    elif lo < 0 < hi:
        m = 0.0
    else:
        m = 0.5 * (lo + hi)
    m = f32(m)
    if not lo < m < hi:
        return None
    m2 = nx32(m, 1)
    return (lo, m), (m2 if m2 <= hi else hi, hi)
