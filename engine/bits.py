"""Bit-exact back end: path exploration where every decision and every claim is a z3 query over bit-vectors and IEEE floats.

A body is written once against a session S and runs symbolically (BSym) or natively (BConc):
    a = S.u32('a')                          any 32-bit pattern
    o = S.call('h_fn', [a], 2)              run the real code; inputs and outputs are 32-bit words
    S.claim('same', S.eq(o[0], a))
"""
import ctypes
import math
import struct
import time
import z3
from . import expr as E
from .expr import Node, Ptr, UNDEF, mk
from .sx import Machine, PathEnd, ibin, simp_i, simp_icmp, icmpc, simp_ext, extract_byte, concat_bytes
from .session import Infeasible, Rejected, CallFailed

RNE = z3.RNE()
SORT = {'f32': z3.Float32(), 'f64': z3.Float64()}


class Tr:
    """Node -> z3 term (memoised per process)."""

    def __init__(self):
        self.memo = {}
        self.fresh = 0
        self.side = []
        self.ufs = {}

    def __call__(self, n, ty=None):
        if not isinstance(n, Node):
            return self.const(n, ty)
        r = self.memo.get(n.id)
        if r is not None:
            return r
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            todo = [a for a in x.args if isinstance(a, Node) and a.id not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            self.memo[x.id] = self.one(x)
        return self.memo[n.id]

    def const(self, v, ty):
        if ty in SORT:
            return z3.FPVal(v, SORT[ty]) if v == v and abs(v) != math.inf and v != 0 else (
                z3.fpNaN(SORT[ty]) if v != v else z3.fpInfinity(SORT[ty], v < 0) if v else z3.fpZero(SORT[ty], math.copysign(1, v) < 0))
        if ty == ('i', 1):
            return z3.BoolVal(bool(v))
        return z3.BitVecVal(v, ty[1])

    def bits(self, f):
        """IEEE bit pattern of a float node."""
        if f.op == 'bits2f':
            return self(f.args[0], ('i', 32 if f.ty == 'f32' else 64))
        w = 32 if f.ty == 'f32' else 64
        if f.op == 'sel':
            return z3.If(self(f.args[0]), self.bitsof(f.args[1], f.ty), self.bitsof(f.args[2], f.ty))
        if f.op == 'fneg':
            return self.bitsof(f.args[0], f.ty) ^ z3.BitVecVal(1 << (w - 1), w)
        if f.op == 'fabs':
            return self.bitsof(f.args[0], f.ty) & z3.BitVecVal((1 << (w - 1)) - 1, w)
        return z3.fpToIEEEBV(self(f))

    def bitsof(self, f, ty):
        if isinstance(f, Node):
            return self.bits(f)
        return z3.BitVecVal(E.f2bits(f, ty), 32 if ty == 'f32' else 64)

    def one(self, n):
        op, A, ty = n.op, n.args, n.ty
        if op == 'var':
            if ty == ('i', 1):
                return z3.Bool(A[0])
            return z3.BitVec(A[0], ty[1])
        if op == 'bits2f':
            w = 32 if ty == 'f32' else 64
            return z3.fpBVToFP(self(A[0], ('i', w)), SORT[ty])
        if op == 'f2bits':
            return self.bits(A[0])
        if op == 'byte':
            k = A[1]
            return z3.Extract(8 * k + 7, 8 * k, self(A[0]))
        if op == 'concat':
            return z3.Concat(*[self(a, ('i', 8)) for a in reversed(A)])
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = self(A[0], ty), self(A[1], ty)
            if ty == ('i', 1):
                return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'add': z3.Xor, 'sub': z3.Xor, 'mul': z3.And}[op](a, b)
            return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b,
                    'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b,
                    'udiv': lambda: z3.UDiv(a, b), 'sdiv': lambda: a / b, 'urem': lambda: z3.URem(a, b), 'srem': lambda: z3.SRem(a, b)}[op]()
        if op in ('zext', 'sext'):
            a = A[0]
            if a.ty == ('i', 1):
                one = (1 << ty[1]) - 1 if op == 'sext' else 1
                return z3.If(self(a), z3.BitVecVal(one, ty[1]), z3.BitVecVal(0, ty[1]))
            k = ty[1] - a.ty[1]
            return z3.ZeroExt(k, self(a)) if op == 'zext' else z3.SignExt(k, self(a))
        if op == 'trunc':
            if ty == ('i', 1):
                return z3.Extract(0, 0, self(A[0])) == 1
            return z3.Extract(ty[1] - 1, 0, self(A[0]))
        if op == 'icmp':
            t = (A[1] if isinstance(A[1], Node) else A[2]).ty
            a, b = self(A[1], t), self(A[2], t)
            p = A[0]
            if t == ('i', 1):
                return a == b if p == 'eq' else a != b if p == 'ne' else self.boolcmp(p, a, b)
            return {'eq': lambda: a == b, 'ne': lambda: a != b, 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
                    'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'sgt': lambda: a > b, 'sge': lambda: a >= b,
                    'slt': lambda: a < b, 'sle': lambda: a <= b}[p]()
        if op == 'fcmp':
            t = (A[1] if isinstance(A[1], Node) else A[2]).ty
            a, b = self(A[1], t), self(A[2], t)
            p = A[0]
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            if p == 'ord':
                return z3.Not(un)
            if p == 'uno':
                return un
            c = {'eq': lambda: z3.fpEQ(a, b), 'gt': lambda: z3.fpGT(a, b), 'ge': lambda: z3.fpGEQ(a, b), 'lt': lambda: z3.fpLT(a, b),
                 'le': lambda: z3.fpLEQ(a, b), 'ne': lambda: z3.And(z3.Not(z3.fpEQ(a, b)), z3.Not(un))}[p[1:]]()
            return z3.Or(un, c) if p[0] == 'u' else c
        if op == 'sel':
            return z3.If(self(A[0]), self(A[1], ty), self(A[2], ty))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = self(A[0], ty), self(A[1], ty)
            if op in ('fadd', 'fmul') and a.get_id() > b.get_id():
                a, b = b, a     # commutative: one form
            return {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](RNE, a, b)
        if op == 'fneg':
            return z3.fpNeg(self(A[0], ty))
        if op == 'fabs':
            return z3.fpAbs(self(A[0], ty))
        if op in ('fpext', 'fptrunc'):
            return z3.fpToFP(RNE, self(A[0]), SORT[ty])
        if op == 'sitofp':
            return z3.fpToFP(RNE, self(A[0]), SORT[ty])
        if op == 'uitofp':
            return z3.fpToFPUnsigned(RNE, self(A[0]), SORT[ty])
        if op == 'fptosi':
            return z3.fpToSBV(z3.RTZ(), self(A[0]), z3.BitVecSort(ty[1]))
        if op == 'fptoui':
            return z3.fpToUBV(z3.RTZ(), self(A[0]), z3.BitVecSort(ty[1]))
        if op == 'fn':
            args = [self(a, ty) for a in A[1:]]
            if A[0] == 'sqrt':
                return z3.fpSqrt(RNE, args[0])
            k = (A[0], ty)
            if k not in self.ufs:
                self.ufs[k] = z3.Function('libm_%s_%s' % k, *([SORT[ty]] * (len(args) + 1)))
            return self.ufs[k](*args)
        raise PathEnd('unsupported', 'node %s in the bit-exact encoding' % op)

    def boolcmp(self, p, a, b):
        if p == 'ult':
            return z3.And(z3.Not(a), b)
        if p == 'ugt':
            return z3.And(a, z3.Not(b))
        if p == 'ule':
            return z3.Or(z3.Not(a), b)
        if p == 'uge':
            return z3.Or(a, z3.Not(b))
        raise PathEnd('unsupported', 'i1 ' + p)


class BPath:
    def __init__(self):
        self.claims = []
        self.end = None
        self.called = set()
        self.steps = 0
        self.effects = []


class Base:
    """Operations on words that work on ints and on nodes."""

    def op(self, o, a, b, n=32):
        if isinstance(a, int) and isinstance(b, int):
            return ibin(o, n, a & ((1 << n) - 1), b & ((1 << n) - 1))
        return simp_i(o, n, a, b)

    def add(self, a, b, n=32):
        return self.op('add', a, b, n)

    def minus(self, a, b, n=32):
        return self.op('sub', a, b, n)

    def cmp(self, p, a, b, n=32):
        if isinstance(a, int) and isinstance(b, int):
            return int(icmpc(p, n, a & ((1 << n) - 1), b & ((1 << n) - 1)))
        return simp_icmp(p, n, a if isinstance(a, Node) else a & ((1 << n) - 1), b if isinstance(b, Node) else b & ((1 << n) - 1))

    def eq(self, a, b, n=32):
        return self.cmp('eq', a, b, n)

    def ult(self, a, b, n=32):
        return self.cmp('ult', a, b, n)

    def ule(self, a, b, n=32):
        return self.cmp('ule', a, b, n)

    def byte(self, a, k):
        if isinstance(a, int):
            return (a >> (8 * k)) & 255
        return extract_byte(a, k)

    def word(self, bs):
        """Little-endian word of bytes."""
        if all(isinstance(b, int) for b in bs):
            v = 0
            for i, b in enumerate(bs):
                v |= (b & 255) << (8 * i)
            return v
        return concat_bytes(list(bs))

    def zext(self, v, n, m):
        return v if isinstance(v, int) else simp_ext('zext', v, n, m)

    def sext(self, v, n, m):
        return E.sgn(v, n) & ((1 << m) - 1) if isinstance(v, int) else simp_ext('sext', v, n, m)

    def trunc(self, v, n, m):
        return v & ((1 << m) - 1) if isinstance(v, int) else simp_ext('trunc', v, n, m)

    def land(self, *cs):
        r = 1
        for c in cs:
            if isinstance(c, int):
                if not c:
                    return 0
            else:
                r = c if r == 1 else mk('and', ('i', 1), r, c)
        return r

    def lnot(self, c):
        return 1 - c if isinstance(c, int) else mk('xor', ('i', 1), c, 1)

    def lor(self, *cs):
        return self.lnot(self.land(*[self.lnot(c) for c in cs]))

    def implies(self, a, b):
        return self.lor(self.lnot(a), b)

    def ite(self, c, a, b, n=32):
        if isinstance(c, int):
            return a if c else b
        return mk('sel', ('i', n), c, a, b)

    # floats
    def asf(self, w):
        """Word as binary32."""
        if isinstance(w, int):
            return E.bits2f(w, 'f32')
        if w.op == 'f2bits':
            return w.args[0]
        return mk('bits2f', 'f32', w)

    def asw(self, f):
        if isinstance(f, float):
            return E.f2bits(f, 'f32')
        if f.op == 'bits2f':
            return f.args[0]
        return mk('f2bits', ('i', 32), f)

    def fcmp(self, p, a, b):
        a = self.asf(a) if not isinstance(a, float) else a
        b = self.asf(b) if not isinstance(b, float) else b
        if isinstance(a, float) and isinstance(b, float):
            return int(E.FCMP[p](a, b))
        return mk('fcmp', ('i', 1), p, a, b)

    def fop(self, o, a, b):
        """binary32 operation on words."""
        a, b = self.asf(a), self.asf(b)
        if isinstance(a, float) and isinstance(b, float):
            return self.asw(E.fbin(o, 'f32', a, b))
        return self.asw(mk(o, 'f32', a, b))

    def isnan(self, w):
        return self.fcmp('uno', w, w)

    def feq(self, a, b):
        """Same value: equal or both NaN (bit patterns of zeros may differ)."""
        return self.lor(self.fcmp('oeq', a, b), self.land(self.isnan(a), self.isnan(b)))


class BSym(Base):
    def __init__(self, mod, prefix, tr, max_instr=3_000_000, stats=None):
        self.mod = mod
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.alts = []
        self.tr = tr
        self.max_instr = max_instr
        self.known = {}
        self.path = BPath()
        self.inputs = []
        self.s = z3.SolverFor('QF_FPBV') if False else z3.Solver()
        self.s.set('timeout', 30000)
        self.stats = stats if stats is not None else dict(queries=0, unsat=0, solver_s=0.0)
        self.symbolic = True
        self.fixed = {}

    # ---------------------------------------------------------- solver
    def check(self, *a):
        t = time.time()
        self.stats['queries'] += 1
        r = str(self.s.check(*a))
        self.stats['solver_s'] += time.time() - t
        if r == 'unsat':
            self.stats['unsat'] += 1
        return r

    def decide(self, cond):
        k = self.known.get(cond.id)
        if k is not None:
            return k
        z = self.tr(cond)
        if self.pos < len(self.prefix):
            r = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(r)
        else:
            t = self.check(z)
            f = self.check(z3.Not(z))
            if t == 'unknown' or f == 'unknown':
                raise PathEnd('limit', 'solver gave no answer on a branch')
            if t == 'unsat' and f == 'unsat':
                raise Infeasible()
            if t == 'sat' and f == 'sat':
                self.alts.append(list(self.trace) + [False])
                r = True
                self.trace.append(r)
            else:
                r = t == 'sat'
                self.trace.append(r)
                self.known[cond.id] = r
                return r
        self.known[cond.id] = r
        self.s.add(z if r else z3.Not(z))
        return r

    def concretize(self, node, bits):
        k = self.fixed.get(node.id)
        if k is not None:
            return k
        z = self.tr(node)
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
            self.pos += 1
        else:
            vals = []
            self.s.push()
            while True:
                r = self.check()
                if r == 'unknown':
                    self.s.pop()
                    raise PathEnd('limit', 'solver gave no answer on an address')
                if r != 'sat':
                    break
                v = self.s.model().eval(z, model_completion=True).as_long()
                vals.append(v)
                self.s.add(z != v)
                if len(vals) > 600:
                    self.s.pop()
                    raise PathEnd('limit', 'address with too many values')
            self.s.pop()
            if not vals:
                raise Infeasible()
            vals.sort()
            for v in vals[1:]:
                self.alts.append(list(self.trace) + [v])
            k = vals[0]
        self.trace.append(k)
        self.s.add(z == k)
        self.fixed[node.id] = k
        return k

    def select(self, c, a, b, ty):
        t = {'float': 'f32', 'double': 'f64'}.get(ty, ty)
        if isinstance(t, tuple) and t[0] != 'i' or t == 'ptr':
            return None
        if isinstance(a, (list, Ptr)) or isinstance(b, (list, Ptr)) or a is UNDEF or b is UNDEF:
            return None
        k = self.known.get(c.id)
        if k is not None:
            return a if k else b
        return mk('sel', t, c, a, b)

    def fabs_node(self, ty, a):
        return mk('fabs', ty, a)

    def libm_node(self, name, ty, args):
        return mk('fn', ty, name, *args)

    def stub(self, name, args):
        return None

    # ---------------------------------------------------------- body interface
    def bv(self, name, n, lo=None, hi=None):
        v = mk('var', ('i', n), name)
        self.inputs.append((name, n))
        if lo is not None:
            self.s.add(z3.UGE(self.tr(v), lo))
        if hi is not None:
            self.s.add(z3.ULE(self.tr(v), hi))
        return v

    def u32(self, name, lo=None, hi=None):
        return self.bv(name, 32, lo, hi)

    def u8(self, name):
        """A byte, as a 32-bit word."""
        return simp_ext('zext', self.bv(name, 8), 8, 32)

    def pick(self, v):
        """Fork over the values of a word; returns a Python int."""
        return v if isinstance(v, int) else self.concretize(v, 32)

    def assume(self, c):
        if isinstance(c, int):
            if not c:
                raise Infeasible()
            return
        self.s.add(self.tr(c))

    def branch(self, c):
        return bool(c) if isinstance(c, int) else self.decide(c)

    def call(self, fn, ins, nout, pre=(), fl=False):
        m = Machine(self.mod, self, self.max_instr)
        try:
            a = m.alloc('in', max(4, 4 * len(ins)), 'stack')
            b = m.alloc('out', max(4, 4 * nout), 'stack')
            for i, v in enumerate(ins):
                m.store(Ptr(a, 4 * i), 'float' if fl else ('i', 32), self.asf(v) if fl else v)
            m.run('@' + fn, [Ptr(a, 0), Ptr(b, 0)] + list(pre))
            out = []
            for i in range(nout):
                v = m.load(Ptr(b, 4 * i), 'float' if fl else ('i', 32))
                if v is UNDEF:
                    raise PathEnd('undef', 'output %d of %s not written' % (i, fn))
                out.append(self.asw(v) if fl else v)
            return out
        finally:
            self.path.called |= m.called
            self.path.steps += m.steps
            self.path.effects += m.effects

    def claim(self, name, c):
        self.path.claims.append((name, c))

    def fail(self, name):
        raise PathEnd('claim', name)


class BConc(Base):
    def __init__(self, native, inputs):
        self.native = native
        self.vals = inputs
        self.results = []
        self.calls = []
        self.symbolic = False

    def bv(self, name, n, lo=None, hi=None):
        v = self.vals[name]
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Rejected(name)
        return v

    def u32(self, name, lo=None, hi=None):
        return self.bv(name, 32, lo, hi)

    def u8(self, name):
        return self.bv(name, 8)

    def pick(self, v):
        return v

    def assume(self, c):
        if not c:
            raise Rejected('assumption')

    def branch(self, c):
        return bool(c)

    def call(self, fn, ins, nout, pre=(), fl=False):
        o = self.native.callbits(fn, [int(x) for x in ins], nout, pre)
        self.calls.append((fn, list(ins), list(pre), o))
        if isinstance(o, str):
            raise CallFailed('%s(%s): %s' % (fn, [hex(x) for x in ins], o))
        return o

    def claim(self, name, c):
        self.results.append((name, bool(c)))

    def fail(self, name):
        self.results.append((name, False))


class BJob:
    kind = 'bits'

    def __init__(self, name, body, max_paths=20000, max_instr=3_000_000, asan=False):
        self.name = name
        self.body = body
        self.max_paths = max_paths
        self.max_instr = max_instr
        self.asan = asan


def breplay(job, nat, vals):
    S = BConc(nat, vals)
    try:
        job.body(S)
    except Rejected:
        return None, S
    except CallFailed as e:
        return [('call', str(e))], S
    bad = [(nm, '%s with inputs %s; native calls %s' % (nm, vals, [(f, i, p, o) for f, i, p, o in S.calls][:4])) for nm, ok in S.results if not ok]
    return bad, S


def run_job(mod, job, nat, natasan, deadline, prefixes=None, max_paths=None):
    """Explore and decide one bits body.  -> dict(viol, und, stats, functions, paths, left)"""
    stats = dict(queries=0, unsat=0, solver_s=0.0, replays=0, instr=0, claims=0)
    tr = Tr()
    work = prefixes if prefixes is not None else [[]]
    viol, und = [], []
    fns = set()
    npaths = nend = 0
    while work:
        if time.time() > deadline or (max_paths and npaths >= max_paths):
            break
        prefix = work.pop()
        S = BSym(mod, prefix, tr, job.max_instr, stats)
        end = None
        try:
            job.body(S)
        except Infeasible:
            work.extend(S.alts)
            continue
        except PathEnd as e:
            end = (e.kind, e.what)
        work.extend(S.alts)
        npaths += 1
        fns |= S.path.called
        stats['instr'] += S.path.steps

        def model(c=None):
            md = S.s.model()
            return {nm: md.eval(z3.BitVec(nm, n), model_completion=True).as_long() for nm, n in S.inputs}
        claims = list(S.path.claims)
        hit = False
        for nm, c in claims:
            stats['claims'] += 1
            if isinstance(c, int):
                if c:
                    continue
                r = S.check()
            else:
                r = S.check(z3.Not(tr(c)))
            if r == 'unsat':
                continue
            if r == 'unknown':
                und.append((job.name, 'claim %s: solver gave no answer' % nm))
                continue
            vals = model()
            stats['replays'] += 1
            bad, T = breplay(job, nat, vals)
            if not bad and job.asan and natasan is not None:
                bad, T = breplay(job, natasan, vals)
            if bad:
                viol.append((job.name, vals, bad))
                hit = True
                break
            und.append((job.name, 'claim %s: counterexample %s does not replay' % (nm, vals)))
        if end is not None and not hit:
            nend += 1
            r = S.check()
            if r == 'unsat':
                continue
            vals = model() if r == 'sat' else None
            bad = None
            if vals is not None:
                stats['replays'] += 1
                bad, T = breplay(job, nat, vals)
                if not bad and natasan is not None:
                    bad, T = breplay(job, natasan, vals)
            if bad:
                viol.append((job.name, vals, bad))
                hit = True
            else:
                und.append((job.name, 'path ends with %s: %s (inputs %s)' % (end[0], end[1], vals)))
        if hit:
            break
        if npaths > job.max_paths:
            und.append((job.name, 'more than %d paths' % job.max_paths))
            work = []
            break
        if len(und) > 40:
            break
    return dict(viol=viol, und=und, stats=stats, functions=fns, paths=npaths, left=work if not viol else [])
