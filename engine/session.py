"""Path exploration in the numeric domain and the check-body interface.

A check body is written once, against a session S:
    x = S.inp('x', 0, 1)                    an arbitrary binary32 value of [0,1]
    y = S.call('h_fn', [x], 1)              run the real code
    S.close('claim', y[0], S.pow(x, 2.2), abs=1e-5, rel=1e-5)
Sym runs it on the executor for one path; Conc runs it on the natively compiled library with mpmath arithmetic."""
import math
import struct
from fractions import Fraction
import mpmath
from . import dag as D
from . import iv as I
from .iv import TOP, INF
from .expr import Node, Ptr, UNDEF, mk, f32, sgn, FCMP
from . import sx
from .sx import Machine, PathEnd

mpmath.mp.prec = 240


class Infeasible(Exception):
    pass


class Beyond(Infeasible):
    """More decisions than the unrolling bound of the job."""


class R:
    """Real-valued specification expression (symbolic)."""
    __slots__ = ('n', 'S')

    def __init__(self, n, S):
        self.n = n
        self.S = S

    def _b(self, op, o, rev=False):
        o = self.S.node(o)
        a, b = (o, self.n) if rev else (self.n, o)
        return R(rbin(op, a, b), self.S)

    def __add__(self, o):
        return self._b('radd', o)

    def __radd__(self, o):
        return self._b('radd', o, True)

    def __sub__(self, o):
        return self._b('rsub', o)

    def __rsub__(self, o):
        return self._b('rsub', o, True)

    def __mul__(self, o):
        return self._b('rmul', o)

    def __rmul__(self, o):
        return self._b('rmul', o, True)

    def __truediv__(self, o):
        return self._b('rdiv', o)

    def __rtruediv__(self, o):
        return self._b('rdiv', o, True)

    def __neg__(self):
        return R(rneg(self.n), self.S)


def rbin(op, a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        a, b = Fraction(a), Fraction(b)
        return {'radd': lambda: a + b, 'rsub': lambda: a - b, 'rmul': lambda: a * b, 'rdiv': lambda: a / b}[op]()
    if not isinstance(a, Node):
        a = Fraction(a)
    if not isinstance(b, Node):
        b = Fraction(b)
    return mk(op, 'real', a, b)


def rneg(a):
    return mk('rneg', 'real', a) if isinstance(a, Node) else -Fraction(a)


def q(x):
    if isinstance(x, str):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(repr(x))    # decimal literals in specifications mean the decimal number
    return Fraction(x)


class Path:
    def __init__(self):
        self.inputs = []
        self.conds = []
        self.fixed = {}
        self.static = {}
        self.claims = []
        self.end = None
        self.trace = []
        self.called = set()
        self.steps = 0
        self.effects = []
        self.ints = {}
        self.cut = set()
        self.queries = self.unsat = 0
        self.solver_s = 0.0


class Sym:
    """One symbolic run along a decision prefix."""

    def __init__(self, mod, prefix, max_instr=3_000_000, fork_limit=4000):
        self.mod = mod
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.alts = []
        self.ref = {}
        self.memo = {}
        self.known = {}
        self.ordg = {}
        self.path = Path()
        self.inputs = {}
        self.max_instr = max_instr
        self.unroll = None
        self.stubs = {}
        self.realzero = True    # zeros are one value in the numeric encoding
        self.uni = 0
        self.symbolic = True

    # ---------------------------------------------------------- intervals
    def iv(self, a):
        if not isinstance(a, Node):
            return D.civ(a)
        r = self.memo.get(a.id, 0)
        if r != 0:
            return r
        # iterative evaluation to avoid deep recursion
        stack = [a]
        memo = self.memo
        while stack:
            n = stack[-1]
            if n.id in memo:
                stack.pop()
                continue
            todo = [c for c in n.args if isinstance(c, Node) and c.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            memo[n.id] = self._one(n)
        return memo[a.id]

    def _one(self, n):
        if n.op == 'var':
            v = self.ref[n.id]
        else:
            def get(c):
                if isinstance(c, Node):
                    return self.memo[c.id]
                if isinstance(c, int) and isinstance(n.ty, tuple) and n.op not in ('fptosi', 'fptoui'):
                    return D.getint(c, n.args[0].ty[1] if isinstance(n.args[0], Node) and isinstance(n.args[0].ty, tuple) else n.ty[1])
                return D.civ(c)
            v = D.forward(n, get)
            if self.ordg and n.op in ('fsub', 'fdiv'):
                v0, v = v, self.orderclip(n, v)
                if v != v0:
                    self.path.static[n.id] = v
            r = self.ref.get(n.id)
            if r is not None:
                if v is TOP:
                    v = r
                else:
                    x = I.inter(v, r)
                    if x is False:
                        raise Infeasible()
                    v = x
        return v

    def orderclip(self, n, v):
        """Facts a known order of the operands gives about float differences and their quotients:
        rounding to nearest is monotone and (with gradual underflow) keeps the sign of a difference."""
        def diff(x):
            return x.op == 'fsub' and isinstance(x.args[0], Node) and isinstance(x.args[1], Node) if isinstance(x, Node) else False
        a, b = n.args[0], n.args[1]
        if n.op == 'fsub':
            if v is TOP or not diff(n):
                return v
            if self.reach(b.id, a.id) is not None:
                v = I.inter(v, (0.0, INF)) or (0.0, 0.0)
            elif self.reach(a.id, b.id) is not None:
                v = I.inter(v, (-INF, 0.0)) or (0.0, 0.0)
            return v
        c = 1.0
        if isinstance(a, Node) and a.op == 'fmul':
            if isinstance(a.args[0], float) and a.args[0] > 0:
                c, a = a.args[0], a.args[1]
            elif isinstance(a.args[1], float) and a.args[1] > 0:
                c, a = a.args[1], a.args[0]
        if diff(a) and diff(b):
            x, y = a.args
            p, q = b.args
            if self.reach(p.id, q.id) is not None:
                p, q = q, p
            le = lambda s, t: s is t or self.reach(s.id, t.id) is not None
            if self.reach(q.id, p.id) and le(q, x) and le(q, y) and le(x, p) and le(y, p):
                t = c * (1 + 2.0 ** -20)
                lo, hi = -t, t
                d = self.iv(b)
                nz = 2.0 ** -149 if a is not n.args[0] and d is not TOP and c >= I.mag(d) or d is not TOP and I.mag(d) <= 1 and c >= 1 else 0.0
                if le(y, x):
                    lo = nz if self.reach(y.id, x.id) else 0.0
                elif le(x, y):
                    hi = -nz if self.reach(x.id, y.id) else 0.0
                w = (lo, hi) if v is TOP else I.inter(v, (lo, hi))
                if w is not False:
                    v = w
        return v

    def refine(self, n, r, depth=6):
        """n's computed value is known to lie in r."""
        if not isinstance(n, Node):
            c = D.civ(n)
            if c is not TOP and I.inter(c, r) is False:
                raise Infeasible()
            return
        old = self.iv(n)
        new = I.inter(old, r)
        if new is False:
            raise Infeasible()
        if new == old:
            return
        self.ref[n.id] = new
        self.memo = {}
        if depth == 0:
            return
        op = n.op
        A = n.args
        if op in ('fneg', 'rneg'):
            self.refine(A[0], I.neg(new), depth - 1)
        elif op == 'fpext':
            self.refine(A[0], new, depth - 1)
        elif op in ('fadd', 'fsub', 'radd', 'rsub', 'fmul', 'rmul', 'fptrunc', 'fdiv', 'rdiv'):
            w = widen(new, n.ty)
            if op == 'fptrunc':
                self.refine(A[0], w, depth - 1)
                return
            a, b = self.iv(A[0]), self.iv(A[1])
            if a is TOP or b is TOP or I.mag(a) == INF or I.mag(b) == INF:
                return
            if op in ('fadd', 'radd'):
                self.refine(A[0], I.sub(w, b, 'real'), depth - 1)
                self.refine(A[1], I.sub(w, self.iv(A[0]), 'real'), depth - 1)
            elif op in ('fsub', 'rsub'):
                self.refine(A[0], I.add(w, b, 'real'), depth - 1)
                self.refine(A[1], I.sub(self.iv(A[0]), w, 'real'), depth - 1)
            elif op in ('fmul', 'rmul'):
                if A[0] is A[1]:
                    return
                if I.mig(b) > 0:
                    x = I.div(w, b, 'real')
                    if x is not TOP:
                        self.refine(A[0], x, depth - 1)
                if I.mig(a) > 0:
                    x = I.div(w, a, 'real')
                    if x is not TOP:
                        self.refine(A[1], x, depth - 1)
            else:
                if I.mig(b) > 0:
                    self.refine(A[0], I.mul(w, b, 'real'), depth - 1)
        elif op in ('fabs', 'rabs'):
            m = new[1]
            self.refine(A[0], (-m, m), depth - 1)
        elif op in ('fptosi', 'fptoui'):
            lo, hi = new
            self.refine(A[0], (float(lo) if lo > 0 else I.up(float(lo - 1)), I.dn(float(hi + 1)) if hi >= 0 else float(hi)), depth - 1)
        elif op in ('sitofp', 'uitofp'):
            w = widen(new, n.ty)
            lo = math.ceil(w[0]) if abs(w[0]) != INF else -(1 << 62)
            hi = math.floor(w[1]) if abs(w[1]) != INF else 1 << 62
            if lo > hi:
                raise Infeasible()
            self.refine(A[0], (lo, hi), depth - 1)
        elif op in ('sext', 'zext', 'trunc'):
            self.refine(A[0], new, depth - 1)
        elif op in ('add', 'mul', 'sub') and isinstance(A[1], int) and isinstance(A[0], Node):
            c = sgn(A[1], n.ty[1])
            if op == 'add':
                self.refine(A[0], (new[0] - c, new[1] - c), depth - 1)
            elif op == 'sub':
                self.refine(A[0], (new[0] + c, new[1] + c), depth - 1)
            elif c > 0:
                lo, hi = -((-new[0]) // c), new[1] // c
                if lo > hi:
                    raise Infeasible()
                self.refine(A[0], (lo, hi), depth - 1)

    def assert_cond(self, cond, pol):
        for kind, pred, a, b in D.atoms_of(cond, pol) or []:
            self.assert_atom(kind, pred, a, b)

    def assert_atom(self, kind, pred, a, b):
        if kind == 'f':
            if pred in ('ord', 'uno'):
                return
            x, y = self.iv(a), self.iv(b)
            p = pred[1:]
            if pred[0] == 'u' and (x is TOP or y is TOP):
                return
            if x is TOP:
                x = I.FULL
            if y is TOP:
                y = I.FULL
            nxt = stepper(a, b)
            if p in ('lt', 'le'):
                self.refine(a, (-INF, y[1] if p == 'le' else nxt(y[1], -1)))
                x = self.iv(a) or I.FULL
                self.refine(b, (x[0] if p == 'le' else nxt(x[0], 1), INF))
            elif p in ('gt', 'ge'):
                self.refine(a, (y[0] if p == 'ge' else nxt(y[0], 1), INF))
                x = self.iv(a) or I.FULL
                self.refine(b, (-INF, x[1] if p == 'ge' else nxt(x[1], -1)))
            elif p == 'eq':
                self.refine(a, y)
                self.refine(b, self.iv(a) or I.FULL)
            elif p == 'ne':
                if y[0] == y[1]:
                    if x[0] == y[0]:
                        self.refine(a, (nxt(x[0], 1), x[1]))
                    elif x[1] == y[0]:
                        self.refine(a, (x[0], nxt(x[1], -1)))
        else:
            w = (a if isinstance(a, Node) else b).ty[1]
            x = self.iv(a) if isinstance(a, Node) else D.getint(a, w)
            y = self.iv(b) if isinstance(b, Node) else D.getint(b, w)
            if x is TOP or y is TOP:
                return
            if pred[0] == 'u':
                if x[0] < 0 or y[0] < 0:
                    # unsigned view: only handle x <u c with c >= 0 and x possibly negative
                    if pred in ('ult', 'ule') and y[0] >= 0:
                        self.refine(a, (0, y[1] - (pred == 'ult')))
                    return
            p = pred[1:] if pred not in ('eq', 'ne') else pred
            if p in ('lt', 'le'):
                d = 1 if p == 'lt' else 0
                self.irefine(a, (-(1 << 63), y[1] - d))
                self.irefine(b, (x[0] + d, 1 << 63))
            elif p in ('gt', 'ge'):
                d = 1 if p == 'gt' else 0
                self.irefine(a, (y[0] + d, 1 << 63))
                self.irefine(b, (-(1 << 63), x[1] - d))
            elif p == 'eq':
                self.irefine(a, y)
                self.irefine(b, x)
            elif p == 'ne' and y[0] == y[1]:
                if x[0] == x[1] == y[0]:
                    raise Infeasible()
                if x[0] == y[0]:
                    self.irefine(a, (x[0] + 1, x[1]))
                elif x[1] == y[0]:
                    self.irefine(a, (x[0], x[1] - 1))

    def irefine(self, a, r):
        if isinstance(a, Node):
            self.refine(a, r)

    # ---------------------------------------------------------- executor interface
    def feasible(self, cond, pol):
        save = (dict(self.ref), self.memo)
        try:
            self.memo = dict(self.memo)
            self.assert_cond(cond, pol)
            ok = True
        except Infeasible:
            ok = False
        st = (self.ref, self.memo)
        self.ref, self.memo = save
        return (ok, st)

    def order(self, cond, r):
        """Record an ordering fact between two (non-NaN) operands."""
        if cond.op not in ('fcmp', 'rcmp'):
            return
        p, a, b = cond.args
        if not isinstance(a, Node) or not isinstance(b, Node) or self.iv(a) is TOP or self.iv(b) is TOP:
            return
        p = p[1:]
        if not r:
            p = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}.get(p)
        o = self.ordg
        if p in ('lt', 'le', 'eq'):
            o.setdefault(a.id, {})[b.id] = o.get(a.id, {}).get(b.id, False) or p == 'lt'
        if p in ('gt', 'ge', 'eq'):
            o.setdefault(b.id, {})[a.id] = o.get(b.id, {}).get(a.id, False) or p == 'gt'

    def reach(self, a, b):
        """None, False (a <= b known) or True (a < b known)."""
        best, st = {a: False}, [(a, False)]
        while st:
            x, s = st.pop()
            for y, t in self.ordg.get(x, {}).items():
                u = s or t
                if y not in best or (u and not best[y]):
                    best[y] = u
                    st.append((y, u))
        return best.get(b)

    def implied(self, cond):
        if not self.ordg or cond.op not in ('fcmp', 'rcmp'):
            return None
        p, a, b = cond.args
        if not isinstance(a, Node) or not isinstance(b, Node) or a.id not in self.ordg and b.id not in self.ordg:
            return None
        if self.iv(a) is TOP or self.iv(b) is TOP:
            return None
        p = p[1:]
        if p in ('gt', 'ge'):
            p, a, b = {'gt': 'lt', 'ge': 'le'}[p], b, a
        f, g = self.reach(a.id, b.id), self.reach(b.id, a.id)
        if p == 'lt':
            return True if f else False if g is not None else None
        if p == 'le':
            return True if f is not None else False if g else None
        if p in ('eq', 'ne'):
            r = False if f or g else True if f is not None and g is not None else None
            return r if p == 'eq' or r is None else not r
        return None

    def decide(self, cond):
        k = self.known.get(cond.id)
        if k is not None:
            return k
        k = self.implied(cond)
        if k is not None:
            return k
        if cond.op == 'xor' and cond.args[1] == 1:
            return not self.decide(cond.args[0])
        if cond.op in ('and', 'or') and cond.ty == ('i', 1):
            a = cond.args[0]
            b = cond.args[1]
            x = self.decide(a) if isinstance(a, Node) else bool(a)
            if x != (cond.op == 'and'):
                return x
            return self.decide(b) if isinstance(b, Node) else bool(b)
        if cond.op == 'fcmp' and cond.args[1] is cond.args[2] and self.iv(cond.args[1]) is not TOP:
            return cond.args[0] in ('oeq', 'ole', 'oge', 'ueq', 'ule', 'uge', 'ord')
        if cond.op == 'sel':
            return self.decide(cond.args[1] if self.decide(cond.args[0]) else cond.args[2])
        if self.pos < len(self.prefix):
            r = self.prefix[self.pos]
            self.pos += 1
            ok, st = self.feasible(cond, r)
            if not ok:
                raise Infeasible()
            self.ref, self.memo = st
        else:
            okt, stt = self.feasible(cond, True)
            okf, stf = self.feasible(cond, False)
            if not okt and not okf:
                raise Infeasible()
            if okt and okf:
                self.alts.append(list(self.trace) + [False])
                r = True
            else:
                r = okt
            self.ref, self.memo = stt if r else stf
        if self.unroll is not None and len(self.trace) >= self.unroll:
            raise Beyond()
        self.trace.append(r)
        self.known[cond.id] = r
        self.order(cond, r)
        self.path.conds.append((cond, r))
        return r

    def concretize(self, node, bits):
        f = self.path.fixed.get(node.id)
        if f is not None:
            return f & ((1 << bits) - 1)
        # choose a base node: the fptosi below, through affine operations
        base = node
        while base.op in ('sext', 'zext', 'add', 'mul', 'trunc', 'sub', 'shl') and isinstance(base.args[0], Node) and \
                not any(isinstance(x, Node) for x in base.args[1:]):
            base = base.args[0]
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
            self.pos += 1
        else:
            r = self.iv(base)
            if r is TOP:
                raise PathEnd('undef', 'address from a value that may be out of integer range')
            lo, hi = int(r[0]), int(r[1])
            if hi - lo > 5000:
                raise PathEnd('limit', 'address with %d possible values' % (hi - lo + 1))
            for v in range(hi, lo, -1):
                self.alts.append(list(self.trace) + [v])
            k = lo
        self.trace.append(k)
        self.refine(base, (k, k))
        self.path.fixed[base.id] = k
        c = mk('icmp', ('i', 1), 'eq', base, k & ((1 << base.ty[1]) - 1))
        self.known[c.id] = True
        self.path.conds.append((c, True))
        if base is node:
            return k & ((1 << bits) - 1)
        r = self.iv(node)
        if r is TOP or r[0] != r[1]:
            raise PathEnd('unsupported', 'cannot concretise an address')
        self.path.fixed[node.id] = int(r[0])
        return int(r[0]) & ((1 << bits) - 1)

    def smallint(self, node):
        """A float converted to an integer with few possible values: follow each value separately."""
        r = self.iv(node)
        if r is TOP or r[1] - r[0] > 16:
            return node
        return self.concretize(node, node.ty[1])

    def select(self, c, a, b, ty):
        return None

    def fabs_node(self, ty, a):
        r = self.iv(a)
        if r is TOP:
            return mk('fabs', ty, a)
        if self.decide(mk('fcmp', ('i', 1), 'olt', a, 0.0)):
            return a.args[0] if a.op == 'fneg' else mk('fneg', ty, a)
        return a

    def libm_node(self, name, ty, args):
        if name in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint') and isinstance(args[0], Node):
            return self.rounding(name, ty, args[0])
        if name in ('fmin', 'fmax'):
            c = mk('fcmp', ('i', 1), 'olt' if name == 'fmin' else 'ogt', args[0], args[1])
            return args[0] if self.decide(c) else args[1]
        if name == 'fmod' and isinstance(args[1], float):
            return self.fmodnode(ty, args[0], args[1])
        if name == 'hypot':
            a = mk('fadd', 'f64', mk('fmul', 'f64', mk('fpext', 'f64', args[0]), mk('fpext', 'f64', args[0])),
                   mk('fmul', 'f64', mk('fpext', 'f64', args[1]), mk('fpext', 'f64', args[1])))
            r = mk('fn', 'f64', 'sqrt', a)
            return mk('fptrunc', 'f32', r) if ty == 'f32' else r
        return mk('fn', ty, name, *args)

    def rounding(self, name, ty, a):
        """Integer part: fork over the possible integers."""
        r = self.iv(a)
        if r is TOP or I.mag(r) > 1e6 or r[1] - r[0] > 2000:
            raise PathEnd('limit', name + ' over a wide range')
        f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}.get(name)
        if f is None:
            raise PathEnd('unsupported', name)
        lo, hi = f(r[0]), f(r[1])
        k = lo
        while k < hi:
            # value <= k ?
            bound = {'floor': float(k + 1), 'ceil': float(k), 'trunc': float(k + 1) if k >= 0 else float(k)}[name]
            c = mk('fcmp', ('i', 1), 'olt' if name == 'floor' or (name == 'trunc' and k >= 0) else 'ole', a, bound)
            if self.decide(c):
                return float(k)
            k += 1
        return float(k)

    def fmodnode(self, ty, a, b):
        """fmod with a constant divisor: x - n*b is exact; fork over n = trunc(x/b)."""
        r = self.iv(a)
        if r is not TOP and b != 0 and I.mag(r) / abs(b) > 60:
            # C contract only: |result| < |b|, sign of x
            return mk('fn', ty, 'fmod', a, b)
        if r is TOP or b == 0:
            raise PathEnd('limit', 'fmod over a wide range')
        b = abs(b)
        n = math.trunc(r[0] / b)
        while True:
            hi = math.trunc(r[1] / b)
            if n >= hi:
                break
            bound = (n + 1) * b if n >= 0 else n * b
            c = mk('fcmp', ('i', 1), 'olt' if n >= 0 else 'ole', a, bound)
            if self.decide(c):
                break
            n += 1
        return a if n == 0 else mk('fmodn', ty, a, float(n), b)

    def stub(self, name, args):
        f = self.stubs.get(name)
        return f(self, args) if f else None

    # ---------------------------------------------------------- body interface
    def inp(self, name, lo, hi, ty='f32'):
        n = mk('var', ty, name)
        lo, hi = float(lo), float(hi)
        if ty == 'f32':
            l2 = f32(lo)
            if l2 < lo:
                l2 = nx32(l2, 1)
            h2 = f32(hi)
            if h2 > hi:
                h2 = nx32(h2, -1)
            lo, hi = l2, h2
        self.ref[n.id] = (lo, hi)
        self.path.inputs.append((name, n, lo, hi))
        return n

    def call(self, fn, ins, nout, pre=()):
        """Run extern "C" void fn(const float *in, float *out, pre...) on symbolic inputs."""
        m = Machine(self.mod, self, self.max_instr)
        try:
            a = m.alloc('in', max(4, 4 * len(ins)), 'stack')
            b = m.alloc('out', max(4, 4 * nout), 'stack')
            for i, v in enumerate(ins):
                if isinstance(v, R):
                    v = v.n
                if not isinstance(v, Node):
                    v = f32(float(v))
                m.store(Ptr(a, 4 * i), 'float', v)
            m.run('@' + fn, [Ptr(a, 0), Ptr(b, 0)] + [p for p in pre])
            out = []
            for i in range(nout):
                v = m.load(Ptr(b, 4 * i), 'float')
                if v is UNDEF:
                    raise PathEnd('undef', 'output %d of %s not written' % (i, fn))
                out.append(v)
            return out
        finally:
            self.path.called |= m.called
            self.path.steps += m.steps
            self.path.effects += m.effects

    def euf(self, pairs):
        """Are the pairs equal for every input and every meaning of the operations? One query with uninterpreted functions."""
        import time
        import z3
        t0 = time.time()
        V = z3.DeclareSort('V')
        memo = {}

        def leaf(a):
            return z3.Const('c:%r' % (a.hex() if isinstance(a, float) else a,), V)

        def term(a):
            if not isinstance(a, Node):
                return leaf(a)
            st = [a]
            while st:
                n = st[-1]
                todo = [c for c in n.args if isinstance(c, Node) and c.id not in memo]
                if todo and n.id not in memo:
                    st += todo
                    continue
                st.pop()
                if n.id in memo:
                    continue
                cs = [memo[c.id] if isinstance(c, Node) else leaf(c) for c in n.args]
                nm = '%s:%s:%d' % (n.op, n.ty, len(cs))
                memo[n.id] = z3.Function(nm, *([V] * (len(cs) + 1)))(*cs) if cs else z3.Const(nm, V)
            return memo[a.id]
        s = z3.SimpleSolver()
        s.add(z3.Or([term(u) != term(v) for u, v in pairs]))
        ok = s.check() == z3.unsat
        self.path.queries += 1
        self.path.unsat += int(ok)
        self.path.solver_s += time.time() - t0
        return ok

    def pure(self, fn, A, B, nout, pre=()):
        """fn(A), fn(B), fn(A) in one process, fn(B) in a fresh one: nothing printed, equal arguments give equal results."""
        def put(m, ins):
            a = m.alloc('in', max(4, 4 * len(ins)), 'stack')
            b = m.alloc('out', max(4, 4 * nout), 'stack')
            for i, v in enumerate(ins):
                v = v.n if isinstance(v, R) else v
                m.store(Ptr(a, 4 * i), 'float', v if isinstance(v, Node) else f32(float(v)))
            m.run('@' + fn, [Ptr(a, 0), Ptr(b, 0)] + [p for p in pre])
            return [m.load(Ptr(b, 4 * i), 'float') for i in range(nout)]
        ms = [Machine(self.mod, self, self.max_instr) for _ in range(2)]
        try:
            r = [put(ms[0], A), put(ms[0], B), put(ms[0], A), put(ms[1], B)]
        finally:
            for m in ms:
                self.path.called |= m.called
                self.path.steps += m.steps
                self.path.effects += m.effects
        if ms[0].effects or ms[1].effects:
            self.fail('silent')
        if any(u is UNDEF for x in r for u in x):
            raise PathEnd('undef', 'output of %s not written' % fn)
        pairs = [(x[i], y[i]) for x, y in ((r[0], r[2]), (r[3], r[1])) for i in range(nout)]
        same = [p for p in pairs if p[0] is p[1] or not isinstance(p[0], Node)]
        same = {(id(u), id(v)) for u, v in same} if same and self.euf(same) else {(id(u), id(v)) for u, v in pairs if self.euf([(u, v)])}
        for n, x, y in (('again', r[0], r[2]), ('history', r[3], r[1])):
            for i in range(nout):
                u, v = x[i], y[i]
                if (id(u), id(v)) in same:
                    # equal whatever the operations compute
                    self.close('%s%d' % (n, i), self.lit(0), self.lit(0), abs='1e-30')
                else:
                    self.close('%s%d' % (n, i), self.val(u), self.val(v), abs='1e-30')
        return r[0]

    def node(self, x):
        if isinstance(x, R):
            return x.n
        if isinstance(x, Node):
            return x
        if isinstance(x, float):
            return q(x)
        return Fraction(x)

    def val(self, x):
        """A float result as a real number."""
        if isinstance(x, R):
            return x
        if isinstance(x, float):
            if x != x or abs(x) == INF:
                raise PathEnd('claim', 'result is %r' % x)
            return R(Fraction(x), self)
        return R(x, self)

    def vals(self, xs):
        return [self.val(x) for x in xs]

    def lit(self, x):
        return R(q(x), self)

    def f(self, x):
        """A binary32 constant as the exact real number it denotes."""
        return R(Fraction(f32(x)), self)

    def cond(self, pred, a, b):
        """Decide a relation between real expressions (path split); pred in lt le gt ge eq ne."""
        a, b = self.node(a), self.node(b)
        if not isinstance(a, Node) and not isinstance(b, Node):
            return FCMP['o' + pred](a, b)
        return self.decide(mk('rcmp', ('i', 1), 'o' + pred, a, b))

    def lt(self, a, b):
        return self.cond('lt', a, b)

    def le(self, a, b):
        return self.cond('le', a, b)

    def fixpoint(self, v):
        """If the path has found v equal to the value it was computed from, that value, as an unknown.
        The values of earlier rounds become unknowns too and their being different is forgotten (both only weaken what is known)."""
        x = v.n if isinstance(v, R) else v
        eq = [(c, pol == (c.args[0] in ('oeq', 'ueq'))) for c, pol in self.path.conds if c.op == 'fcmp' and c.args[0] in ('oeq', 'ueq', 'one', 'une')]
        for c, same in reversed(eq):
            for a, b in (c.args[1:], c.args[:0:-1]):
                if same and a is x and isinstance(b, Node) and b.op != 'var':
                    for d, s in eq:
                        for y in d.args[1:]:
                            if isinstance(y, Node) and y.op != 'var' and y is not x:
                                self.path.cut.add(y.id)
                    drop = {d.id for d, s in eq if not s}
                    self.path.conds = [q for q in self.path.conds if q[0].id not in drop]
                    return R(b, self)
        return v

    def cut(self, vs):
        """From here on these computed values stand for themselves: claims are decided for whatever they are in their range."""
        for v in vs:
            if isinstance(v, Node):
                self.path.cut.add(v.id)
        return vs

    def assume(self, pred, a, b):
        a, b = self.node(a), self.node(b)
        if not isinstance(a, Node) and not isinstance(b, Node):
            if not FCMP['o' + pred](a, b):
                raise Infeasible()
            return
        c = mk('rcmp', ('i', 1), 'o' + pred, a, b)
        self.known[c.id] = True
        self.assert_cond(c, True)
        self.order(c, True)
        self.path.conds.append((c, True))

    def fn(self, name, *a):
        a = [self.node(x) for x in a]
        if not any(isinstance(x, Node) for x in a):
            # constant folding at high precision (exact rational of the 240-bit value; error below 2^-200)
            return R(mpq(mpfn(name, *[mpmath.mpf(x.numerator) / x.denominator for x in map(Fraction, a)])), self)
        return R(mk('fn', 'real', name, *a), self)

    def sqrt(self, a):
        return self.fn('sqrt', a)

    def cbrt(self, a):
        return self.fn('cbrt', a)

    def pow(self, a, c):
        return self.fn('pow', a, self.node(c) if not isinstance(c, float) else q(c))

    def exp(self, a):
        return self.fn('exp', a)

    def log(self, a):
        return self.fn('log', a)

    def log10(self, a):
        return self.fn('log10', a)

    def log2(self, a):
        return self.fn('log2', a)

    def abs(self, a):
        a = self.node(a)
        if isinstance(a, Node):
            v = self.iv(a)
            if v is not TOP and v[0] >= 0:
                return R(a, self)
            if v is not TOP and v[1] <= 0:
                return R(rneg(a), self)
            return R(mk('rabs', 'real', a), self)
        return R(abs(Fraction(a)), self)

    # claims
    def nonneg(self, name, e):
        e = self.node(e)
        self.path.claims.append((name, e))

    def claim_le(self, name, a, b):
        self.nonneg(name, self.sub(b, a))

    def sub(self, a, b):
        return R(rbin('rsub', self.node(a), self.node(b)), self)

    def close(self, name, a, b, abs=0, rel=0, scale=None):
        """|a - b| <= abs + rel*|b|  (or rel*scale when a positive scale expression is given)."""
        d = self.sub(self.val(a) if not isinstance(a, R) else a, b)
        t = self.lit(abs)
        if rel:
            s = scale if scale is not None else self.abs(b)
            t = t + self.lit(rel) * s
        self.nonneg(name + '.hi', t - d)
        self.nonneg(name + '.lo', t + d)

    def within(self, name, a, lo, hi):
        if lo is not None:
            self.nonneg(name + '.lo', self.sub(self.val(a), lo))
        if hi is not None:
            self.nonneg(name + '.hi', self.sub(hi, self.val(a)))

    def fail(self, name):
        raise PathEnd('claim', name)


def mpfn(name, *a):
    if name == 'sqrt':
        return mpmath.sqrt(a[0])
    if name == 'cbrt':
        return mpmath.cbrt(a[0]) if a[0] >= 0 else -mpmath.cbrt(-a[0])
    if name == 'pow':
        if a[0] == 0:
            return mpmath.mpf(0)
        return mpmath.power(a[0], a[1])
    if name == 'exp':
        return mpmath.exp(a[0])
    if name == 'exp10':
        return mpmath.power(10, a[0])
    if name == 'exp2':
        return mpmath.power(2, a[0])
    if name == 'atan':
        return mpmath.atan(a[0])
    if name == 'log':
        return mpmath.log(a[0])
    if name == 'log10':
        return mpmath.log10(a[0])
    if name == 'log2':
        return mpmath.log(a[0], 2)
    if name == 'sin':
        return mpmath.sin(a[0])
    if name == 'cos':
        return mpmath.cos(a[0])
    if name == 'atan2':
        return mpmath.atan2(a[0], a[1])
    if name == 'atan':
        return mpmath.atan(a[0])
    raise KeyError(name)


def mpq(x):
    m, e = mpmath.frexp(x)
    n = int(mpmath.ldexp(m, 230))
    return Fraction(n) * Fraction(2) ** (int(e) - 230)


def widen(iv, ty):
    if ty == 'real':
        return iv
    u, t = (2.0 ** -24, 2.0 ** -150) if ty == 'f32' else (2.0 ** -53, 0.0)
    lo, hi = iv
    if abs(lo) != INF:
        lo = I.dn(lo - abs(lo) * u * 1.0001 - t)
    if abs(hi) != INF:
        hi = I.up(hi + abs(hi) * u * 1.0001 + t)
    return (lo, hi)


def nx32(x, d):
    """Next binary32 value up (d>0) or down."""
    if x != x or (x == INF and d > 0) or (x == -INF and d < 0):
        return x
    if x == INF:
        return 3.4028234663852886e38
    if x == -INF:
        return -3.4028234663852886e38
    b = struct.unpack('<i', struct.pack('<f', x))[0]
    if x == 0:
        b = 1 if d > 0 else -0x7fffffff
    else:
        b += d if x > 0 else -d
    return struct.unpack('<f', struct.pack('<i', b))[0]


def stepper(a, b):
    """Strict inequality step: one ulp when both sides are binary32 values, else none."""
    def isf32(x):
        if isinstance(x, Node):
            return x.ty == 'f32'
        return isinstance(x, float) and f32(x) == x
    if isf32(a) and isf32(b):
        return nx32
    return lambda x, d: x


# ------------------------------------------------------------------ concrete session
class Rejected(Exception):
    """Inputs outside the domain of the check."""


class CallFailed(Exception):
    pass


class Conc:
    """The same body on concrete inputs: native code and mpmath."""

    def __init__(self, native, inputs):
        self.native = native
        self.inputs = inputs
        self.results = []
        self.calls = []
        self.symbolic = False

    def inp(self, name, lo, hi, ty='f32'):
        v = self.inputs[name]
        if ty == 'f32':
            v = f32(v)
        if not (lo <= v <= hi):
            raise Rejected(name)
        return mpmath.mpf(v)

    def call(self, fn, ins, nout, pre=()):
        fi = [float(x) for x in ins]
        out = self.native.call(fn, fi, nout, pre)
        self.calls.append((fn, fi, out))
        if isinstance(out, str):
            raise CallFailed('%s(%s): %s' % (fn, fi, out))
        return [mpmath.mpf(x) for x in out]

    def pure(self, fn, A, B, nout, pre=()):
        A, B = [float(x) for x in A], [float(x) for x in B]
        self.native.stop()
        r = []
        for k, v in enumerate((A, B, A, B)):
            if k == 3:
                self.native.stop()
            o = self.native.call(fn, v, nout, pre)
            self.calls.append((fn, v, o))
            if isinstance(o, str):
                raise CallFailed('%s(%s): %s' % (fn, v, o))
            r.append(o)
            if self.native.printed:
                self.results.append(('silent: %d bytes printed' % self.native.printed, mpmath.mpf('-inf')))
        for n, x, y in (('again', r[0], r[2]), ('history', r[3], r[1])):
            for i in range(nout):
                if not (x[i] == y[i] or x[i] != x[i] and y[i] != y[i]):
                    self.results.append(('%s%d' % (n, i), mpmath.mpf('-inf')))
        return [mpmath.mpf(x) for x in r[0]]

    def val(self, x):
        return x

    def vals(self, xs):
        return list(xs)

    def lit(self, x):
        x = q(x)
        return mpmath.mpf(x.numerator) / x.denominator

    def f(self, x):
        return mpmath.mpf(f32(x))

    def num(self, x):
        if isinstance(x, (float, str, Fraction)):
            return self.lit(x)
        return x

    def cond(self, pred, a, b):
        a, b = self.num(a), self.num(b)
        return bool(FCMP['o' + pred](a, b))

    def lt(self, a, b):
        return self.cond('lt', a, b)

    def le(self, a, b):
        return self.cond('le', a, b)

    def fixpoint(self, v):
        return v

    def cut(self, vs):
        return vs

    def assume(self, pred, a, b):
        if not self.cond(pred, a, b):
            raise Rejected('assumption')

    def fn(self, name, *a):
        return mpfn(name, *[self.num(x) for x in a])

    def sqrt(self, a):
        return self.fn('sqrt', a)

    def cbrt(self, a):
        return self.fn('cbrt', a)

    def pow(self, a, c):
        return self.fn('pow', a, self.num(c))

    def exp(self, a):
        return self.fn('exp', a)

    def log(self, a):
        return self.fn('log', a)

    def log10(self, a):
        return self.fn('log10', a)

    def log2(self, a):
        return self.fn('log2', a)

    def abs(self, a):
        return abs(self.num(a))

    def sub(self, a, b):
        return self.num(a) - self.num(b)

    def nonneg(self, name, e):
        e = self.num(e)
        self.results.append((name, e))

    def claim_le(self, name, a, b):
        self.nonneg(name, self.sub(b, a))

    def close(self, name, a, b, abs=0, rel=0, scale=None):
        a, b = self.num(a), self.num(b)
        d = a - b
        t = self.lit(abs)
        if rel:
            t = t + self.lit(rel) * (scale if scale is not None else self.abs(b))
        self.nonneg(name + '.hi', t - d)
        self.nonneg(name + '.lo', t + d)

    def within(self, name, a, lo, hi):
        if lo is not None:
            self.nonneg(name + '.lo', self.sub(a, lo))
        if hi is not None:
            self.nonneg(name + '.hi', self.sub(hi, a))

    def fail(self, name):
        self.results.append((name, mpmath.mpf('-inf')))


def explore(mod, body, max_paths=5000, max_instr=3_000_000, stubs=None):
    """All feasible paths of a body (feasible as far as interval propagation can tell)."""
    work = [[]]
    paths = []
    nodrop = 0
    while work:
        prefix = work.pop()
        S = Sym(mod, prefix, max_instr)
        if stubs:
            S.stubs = stubs
        try:
            body(S)
        except Infeasible:
            work.extend(S.alts)
            nodrop += 1
            continue
        except PathEnd as e:
            S.path.end = (e.kind, e.what)
        work.extend(S.alts)
        S.path.trace = S.trace
        S.path.ref = S.ref
        paths.append(S.path)
        if len(paths) > max_paths:
            raise RuntimeError('more than %d paths' % max_paths)
    return paths, nodrop
