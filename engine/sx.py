"""Symbolic executor for LLVM IR.

One run = one path.  Every branch on a symbolic condition is answered by `ctx.decide(cond)`, every use of a symbolic
integer as an address, size or switch value by `ctx.concretize(node)`; the explorer re-runs with other answers
(all of them, unless shown infeasible).  Values: python int (iN, unsigned), python float (f32/f64), Node (symbolic),
Ptr, list (aggregates and vectors), UNDEF.
"""
import math
from . import expr as E
from .expr import Node, Ptr, UNDEF, mk
from .ir import IRError


class PathEnd(Exception):
    def __init__(self, kind, what=''):
        self.kind = kind
        self.what = what
        Exception.__init__(self, kind + ': ' + what)


class Obj:
    __slots__ = ('name', 'size', 'cells', 'base', 'alive', 'const', 'zero', 'kind')

    def __init__(self, name, size, base, kind):
        self.name = name
        self.size = size
        self.cells = {}
        self.base = base
        self.alive = True
        self.const = False
        self.zero = False
        self.kind = kind


def fty(t):
    return 'f32' if t == 'float' else 'f64'


LIBM = {}
for _n in ('sqrt', 'exp', 'log', 'log10', 'log2', 'exp2', 'cbrt', 'sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'exp10', 'expm1',
           'log1p', 'tanh', 'sinh', 'cosh',
           'floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
    LIBM[_n] = ('f64', 1, _n)
    LIBM[_n + 'f'] = ('f32', 1, _n)
for _n in ('pow', 'atan2', 'fmod', 'hypot', 'fmin', 'fmax'):
    LIBM[_n] = ('f64', 2, _n)
    LIBM[_n + 'f'] = ('f32', 2, _n)


class Machine:
    def __init__(self, mod, ctx, max_instr=20_000_000):
        self.mod = mod
        self.ctx = ctx
        self.globals = {}
        self.nobj = 0
        self.steps = 0
        self.max = max_instr
        self.called = set()
        self.effects = []
        self.depth = 0

    # ------------------------------------------------------------ memory
    def alloc(self, name, size, kind='heap'):
        self.nobj += 1
        return Obj(name, size, self.nobj << 32, kind)

    def gobj(self, name):
        o = self.globals.get(name)
        if o is not None:
            return o
        if name in self.mod.bodies or name in self.mod.decls:
            o = self.alloc(name, 0, 'func')
            self.globals[name] = o
            return o
        g = self.mod.glob(name)
        o = self.alloc(name, self.mod.sizeof(g.ty), 'global')
        self.globals[name] = o
        if g.init is not None:
            self.init(o, 0, g.ty, g.init)
        else:
            o.kind = 'extern'
        o.const = g.const
        return o

    def init(self, o, off, ty, v):
        ty = self.mod.resolve(ty)
        k = v[0]
        if k == 'zero':
            if off == 0 and o.size == self.mod.sizeof(ty):
                o.zero = True
                return
            self.memset(o, off, 0, self.mod.sizeof(ty))
        elif k == 'undef':
            return
        elif k == 'str':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
        elif k == 'agg':
            if ty[0] in ('arr', 'vec'):
                es = self.mod.sizeof(ty[2])
                ety = self.mod.resolve(ty[2])
                if ety in ('float', 'double'):
                    cells = o.cells
                    for i, (t, e) in enumerate(v[1]):
                        cells[off + i * es] = (es, float(e[1]) if e[0] == 'c' else 0.0)
                    return
                for i, (t, e) in enumerate(v[1]):
                    self.init(o, off + i * es, t, e)
            else:
                offs = self.mod.layout(ty)[2]
                for i, (t, e) in enumerate(v[1]):
                    self.init(o, off + offs[i], t, e)
        else:
            self.store(Ptr(o, off), ty, self.op(None, ty, v))

    def check(self, p, n, what):
        if not isinstance(p, Ptr):
            raise PathEnd('memerr', '%s through a non-pointer %r' % (what, p))
        if p.obj is None:
            raise PathEnd('memerr', '%s through null+%s' % (what, p.off))
        if isinstance(p.off, Node):
            p = Ptr(p.obj, E.sgn(self.ctx.concretize(p.off, 64), 64))
        if not p.obj.alive:
            raise PathEnd('memerr', '%s of freed object %s' % (what, p.obj.name))
        if p.off < 0 or p.off + n > p.obj.size:
            raise PathEnd('memerr', '%s of %d bytes at offset %d of %s (%d bytes)' % (what, n, p.off, p.obj.name, p.obj.size))
        return p

    def load(self, p, ty):
        ty = self.mod.resolve(ty)
        if isinstance(ty, tuple) and ty[0] != 'i':
            return self.load_agg(p, ty)
        n = self.mod.sizeof(ty)
        p = self.check(p, n, 'load')
        o = p.obj
        off = p.off
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
        else:
            v = self.assemble(o, off, n, ty)
        return self.conv(v, ty)

    def conv(self, v, ty):
        """View a stored cell value as type ty."""
        if ty in ('float', 'double'):
            if isinstance(v, float):
                return v
            if isinstance(v, Node):
                if v.ty in ('f32', 'f64'):
                    return v
                return mk('bits2f', fty(ty), v)
            if isinstance(v, int):
                return E.bits2f(v, fty(ty))
            return v
        if ty == 'ptr':
            if isinstance(v, int):
                return Ptr(None, v)
            return v
        if isinstance(v, float):
            return E.f2bits(v, 'f32' if ty[1] == 32 else 'f64')
        if isinstance(v, Node) and v.ty in ('f32', 'f64'):
            return mk('f2bits', ty, v)
        if isinstance(v, int):
            return v & ((1 << ty[1]) - 1)
        return v

    def assemble(self, o, off, n, ty):
        bs = []
        for i in range(n):
            bs.append(self.byte(o, off + i))
        if any(b is UNDEF for b in bs):
            return UNDEF
        if all(isinstance(b, int) for b in bs):
            v = 0
            for i, b in enumerate(bs):
                v |= b << (8 * i)
            return v
        return concat_bytes(bs)

    def byte(self, o, off):
        c = o.cells.get(off)
        if c is not None and c[0] == 1:
            v = c[1]
            if isinstance(v, float):
                raise IRError('byte float')
            return v
        for k in range(0, 16):
            c = o.cells.get(off - k)
            if c is not None:
                if c[0] <= k:
                    break
                v = c[1]
                if v is UNDEF:
                    return UNDEF
                if isinstance(v, Ptr):
                    return (v.addr() >> (8 * k)) & 255
                if isinstance(v, float):
                    v = E.f2bits(v, 'f32' if c[0] == 4 else 'f64')
                elif isinstance(v, Node) and v.ty in ('f32', 'f64'):
                    v = mk('f2bits', ('i', 8 * c[0]), v)
                if isinstance(v, int):
                    return (v >> (8 * k)) & 255
                return extract_byte(v, k)
        if o.zero:
            return 0
        if o.kind == 'extern':
            raise PathEnd('unsupported', 'load from external object ' + o.name)
        return UNDEF

    def load_agg(self, p, ty):
        if ty[0] in ('arr', 'vec'):
            es = self.mod.sizeof(ty[2])
            return [self.load(Ptr(p.obj, p.off + i * es), ty[2]) for i in range(ty[1])]
        offs = self.mod.layout(ty)[2]
        return [self.load(Ptr(p.obj, p.off + offs[i]), t) for i, t in enumerate(ty[1])]

    def store(self, p, ty, v):
        ty = self.mod.resolve(ty)
        if isinstance(ty, tuple) and ty[0] != 'i':
            n = self.mod.sizeof(ty)
            p = self.check(p, n, 'store')
            if v is UNDEF:
                self.clear(p.obj, p.off, n)
                return
            if ty[0] in ('arr', 'vec'):
                es = self.mod.sizeof(ty[2])
                for i in range(ty[1]):
                    self.store(Ptr(p.obj, p.off + i * es), ty[2], v[i])
            else:
                offs = self.mod.layout(ty)[2]
                for i, t in enumerate(ty[1]):
                    self.store(Ptr(p.obj, p.off + offs[i]), t, v[i])
            return
        n = self.mod.sizeof(ty)
        p = self.check(p, n, 'store')
        o = p.obj
        if o.const:
            raise PathEnd('memerr', 'store to constant ' + o.name)
        c = o.cells.get(p.off)
        if c is None or c[0] != n or n > 1:
            if not (c is not None and c[0] == n):
                self.clear(o, p.off, n)
        o.cells[p.off] = (n, v)

    def clear(self, o, off, n):
        """Make [off,off+n) free of cells, splitting cells that straddle an edge."""
        lo = off
        for k in range(1, 16):
            c = o.cells.get(off - k)
            if c is not None:
                if c[0] > k:
                    self.split(o, off - k)
                break
        i = lo
        while i < off + n:
            c = o.cells.get(i)
            if c is not None:
                if i + c[0] > off + n:
                    self.split(o, i)
                else:
                    del o.cells[i]
            i += 1
        if o.zero:
            pass

    def split(self, o, off):
        n, v = o.cells[off]
        bs = [self.byte(o, off + i) for i in range(n)]
        del o.cells[off]
        for i, b in enumerate(bs):
            if b is not UNDEF:
                o.cells[off + i] = (1, b)

    def memset(self, o, off, val, n):
        if o.const:
            raise PathEnd('memerr', 'memset of constant ' + o.name)
        self.clear(o, off, n)
        if val == 0 and n % 4 == 0 and off % 4 == 0:
            for i in range(0, n, 4):
                o.cells[off + i] = (4, 0)
        else:
            for i in range(n):
                o.cells[off + i] = (1, val)

    def memcpy(self, d, s, n):
        if n == 0:
            return
        d = self.check(d, n, 'memcpy write')
        s = self.check(s, n, 'memcpy read')
        if d.obj.const:
            raise PathEnd('memerr', 'memcpy to constant ' + d.obj.name)
        items = []
        i = 0
        while i < n:
            c = s.obj.cells.get(s.off + i)
            if c is not None and i + c[0] <= n:
                items.append((i, c))
                i += c[0]
            else:
                b = self.byte(s.obj, s.off + i)
                if b is not UNDEF:
                    items.append((i, (1, b)))
                i += 1
        self.clear(d.obj, d.off, n)
        if d.obj.zero:
            # bytes not copied are undefined; keep it simple: they read as zero only if they were zero in the source
            pass
        for i, c in items:
            d.obj.cells[d.off + i] = c

    # ------------------------------------------------------------ operands
    def op(self, env, ty, o):
        k = o[0]
        if k == 'l':
            return env[o[1]]
        if k == 'c':
            return o[1]
        if k == 'g':
            return Ptr(self.gobj(o[1]), 0)
        if k == 'null':
            return Ptr(None, 0)
        if k == 'undef':
            t = self.mod.resolve(ty)
            if isinstance(t, tuple) and t[0] in ('arr', 'vec'):
                return [UNDEF] * t[1]
            if isinstance(t, tuple) and t[0] == 'struct':
                return [self.op(env, e, o) for e in t[1]]
            return UNDEF
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return [self.op(env, t, v) for t, v in o[1]]
        if k == 'gep':
            return self.gep(env, o[1], o[2])
        if k == 'castce':
            v = self.op(env, o[2], o[3])
            return self.cast(o[1], o[2], v, o[4])
        if k == 'bince':
            return self.binop(o[1], o[2], self.op(env, o[2], o[3]), self.op(env, o[2], o[4]))
        if k == 'splat':
            t = self.mod.resolve(ty)
            return [self.op(env, t[2], o[1])] * t[1]
        raise IRError('operand %r' % (o,))

    def zero(self, ty):
        t = self.mod.resolve(ty)
        if t in ('float', 'double'):
            return 0.0
        if t == 'ptr':
            return Ptr(None, 0)
        if t[0] == 'i':
            return 0
        if t[0] in ('arr', 'vec'):
            return [self.zero(t[2]) for _ in range(t[1])]
        return [self.zero(e) for e in t[1]]

    def gep(self, env, ty, idx):
        base = self.op(env, 'ptr', idx[0][1])
        if isinstance(base, int):
            base = Ptr(None, base)
        if base is UNDEF:
            return UNDEF
        off = base.off
        t = ty
        for j, (it, iv) in enumerate(idx[1:]):
            v = self.op(env, it, iv)
            if v is UNDEF:
                return UNDEF
            if j == 0:
                es = self.mod.sizeof(t)
            else:
                t = self.mod.resolve(t)
                if t[0] == 'struct':
                    off = iadd(off, self.mod.layout(t)[2][v])
                    t = t[1][v]
                    continue
                t = t[2]
                es = self.mod.sizeof(t)
            if isinstance(v, Node):
                n = v.ty[1]
                v64 = v if n == 64 else self.cast('sext', ('i', n), v, ('i', 64))
                off = iadd(off, v64 if es == 1 else self.binop('mul', ('i', 64), v64, es))
            else:
                off = iadd(off, E.sgn(v, it[1]) * es)
        return Ptr(base.obj, off)

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, ty, a, b):
        ty = self.mod.resolve(ty)
        if isinstance(ty, tuple) and ty[0] == 'vec':
            return [self.binop(op, ty[2], x, y) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if op[0] == 'f':
            t = fty(ty)
            if isinstance(a, float) and isinstance(b, float):
                return E.fbin(op, t, a, b)
            if op == 'frem':
                return self.ctx.libm_node('fmod', t, [a, b])
            if getattr(self.ctx, 'realzero', False):
                r = self.zerofold(op, t, a, b)
                if r is not None:
                    return r
            return simp_f(op, t, a, b)
        n = ty[1]
        M = (1 << n) - 1
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrop(op, n, a, b)
        if isinstance(a, int) and isinstance(b, int):
            return ibin(op, n, a, b)
        return simp_i(op, n, a, b)

    def zerofold(self, op, t, a, b):
        """Exact IEEE identities with zero and with equal operands (the sign of a zero result aside)."""
        def finite(x):
            r = self.ctx.iv(x)
            return r is not None and r[0] > -math.inf and r[1] < math.inf
        def opp(x):
            return x.args[0] if x.op == 'fneg' else mk('fneg', t, x)
        na, nb = isinstance(a, Node) and a.op == 'fneg', isinstance(b, Node) and b.op == 'fneg'
        if op == 'fadd':
            if b == 0.0:
                return a
            if a == 0.0:
                return b
            if nb:
                return self.binop('fsub', FTY[t], a, b.args[0])
            if na:
                return self.binop('fsub', FTY[t], b, a.args[0])
        elif op == 'fsub':
            if b == 0.0:
                return a
            if a == 0.0:
                return opp(b)
            if a is b and finite(a):
                return 0.0
            if nb:
                return self.binop('fadd', FTY[t], a, b.args[0])
        elif op == 'fmul':
            if b == 0.0 and finite(a) or a == 0.0 and finite(b):
                return 0.0
            if na and nb:
                return self.binop('fmul', FTY[t], a.args[0], b.args[0])
            if b == -1.0:
                return opp(a)
            if a == -1.0:
                return opp(b)
        elif op == 'fdiv':
            if b == -1.0:
                return opp(a)
            if na and nb:
                return self.binop('fdiv', FTY[t], a.args[0], b.args[0])
            if isinstance(b, Node) and (a == 0.0 or a is b or na and a.args[0] is b or nb and b.args[0] is a):
                r = self.ctx.iv(b)
                if r is not None and (r[0] > 0 or r[1] < 0) and finite(b):
                    return 0.0 if a == 0.0 else 1.0 if a is b else -1.0
        return None

    def ptrop(self, op, n, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj:
                d = isub(a.off, b.off)
                return d if isinstance(d, Node) else d & ((1 << n) - 1)
        if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr):
            return Ptr(a.obj, iadd(a.off, b if isinstance(b, Node) else E.sgn(b, 64)))
        if op == 'add' and isinstance(b, Ptr) and not isinstance(a, Ptr):
            return Ptr(b.obj, iadd(b.off, a if isinstance(a, Node) else E.sgn(a, 64)))
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, int):
            return Ptr(a.obj, isub(a.off, E.sgn(b, 64)))
        x = self.addr(a)
        y = self.addr(b)
        if isinstance(x, int) and isinstance(y, int):
            return ibin(op, n, x, y)
        return simp_i(op, n, x, y)

    def addr(self, p):
        if isinstance(p, Ptr):
            b = p.obj.base if p.obj is not None else 0
            r = iadd(p.off, b)
            return r if isinstance(r, Node) else r & ((1 << 64) - 1)
        return p

    def cast(self, op, t, v, t2):
        t = self.mod.resolve(t)
        t2 = self.mod.resolve(t2)
        if op == 'bitcast':
            if t == t2:
                return v
            return self.bitcast(t, v, t2)
        if isinstance(t, tuple) and t[0] == 'vec':
            return [self.cast(op, t[2], x, t2[2]) for x in v]
        if v is UNDEF:
            return UNDEF
        if op in ('ptrtoint', 'inttoptr'):
            if op == 'inttoptr' and isinstance(v, int):
                return Ptr(None, v)
            if op == 'ptrtoint' and isinstance(v, Ptr) and v.obj is None and not isinstance(v.off, Node):
                return v.off & ((1 << 64) - 1)
            return v
        if op in ('zext', 'sext', 'trunc'):
            if isinstance(v, Ptr):
                v = self.addr(v)
            if isinstance(v, int):
                if op == 'sext':
                    return E.sgn(v, t[1]) & ((1 << t2[1]) - 1)
                return v & ((1 << t2[1]) - 1)
            return simp_ext(op, v, t[1], t2[1])
        if op == 'fpext':
            return v if isinstance(v, float) else mk('fpext', 'f64', v)
        if op == 'fptrunc':
            if isinstance(v, float):
                return E.f32(v)
            if v.op == 'fpext':
                return v.args[0]
            return mk('fptrunc', 'f32', v)
        if op in ('sitofp', 'uitofp'):
            ft = fty(t2)
            if isinstance(v, int):
                if op == 'sitofp':
                    v = E.sgn(v, t[1])
                return E.rnd(float(v), ft)
            return mk(op, ft, v)
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, float):
                n = t2[1]
                if v != v or math.isinf(v):
                    return UNDEF
                k = int(v)
                lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if op == 'fptosi' else (0, (1 << n) - 1)
                if k < lo or k > hi:
                    return UNDEF
                return k & ((1 << n) - 1)
            r = mk(op, t2, v)
            h = getattr(self.ctx, 'smallint', None)
            return h(r) if h else r
        raise IRError('cast ' + op)

    def bitcast(self, t, v, t2):
        # through bytes
        o = self.alloc('bitcast', max(self.mod.sizeof(t), self.mod.sizeof(t2)))
        self.store(Ptr(o, 0), t, v)
        return self.load(Ptr(o, 0), t2)

    def icmp(self, pred, ty, a, b):
        ty = self.mod.resolve(ty)
        if isinstance(ty, tuple) and ty[0] == 'vec':
            return [self.icmp(pred, ty[2], x, y) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF:
            return UNDEF
        n = 64 if ty == 'ptr' else ty[1]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                a, b = a.off, b.off
                if not isinstance(a, Node):
                    a &= (1 << 64) - 1
                if not isinstance(b, Node):
                    b &= (1 << 64) - 1
            else:
                # distinct objects never compare equal; order by base address
                if pred in ('eq', 'ne') and isinstance(a, Ptr) and isinstance(b, Ptr):
                    return 0 if pred == 'eq' else 1
                a = self.addr(a)
                b = self.addr(b)
        if isinstance(a, int) and isinstance(b, int):
            return int(icmpc(pred, n, a, b))
        return simp_icmp(pred, n, a, b)

    def fcmp(self, pred, ty, a, b):
        ty = self.mod.resolve(ty)
        if isinstance(ty, tuple) and ty[0] == 'vec':
            return [self.fcmp(pred, ty[2], x, y) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, float) and isinstance(b, float):
            return int(E.FCMP[pred](a, b))
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        return mk('fcmp', ('i', 1), pred, a, b)

    # ------------------------------------------------------------ execution
    def truth(self, c):
        if isinstance(c, Node):
            return self.ctx.decide(c)
        if c is UNDEF:
            raise PathEnd('undef', 'branch on an undefined value')
        return bool(c)

    def run(self, fname, args):
        f = self.mod.func(fname)
        if f is None:
            raise PathEnd('unsupported', 'no body for ' + fname)
        self.called.add(fname)
        self.depth += 1
        if self.depth > 3000:
            raise PathEnd('limit', 'recursion depth in ' + fname)
        env = {}
        for (t, n), v in zip(f.params, args):
            env[n] = v
        cur = f.entry
        prev = None
        allocas = []
        blocks = f.blocks
        while True:
            blk = blocks[cur]
            nxt = None
            # phis in parallel
            i = 0
            if prev is not None and blk and blk[0][0] == 'phi':
                vals = []
                while i < len(blk) and blk[i][0] == 'phi':
                    ins = blk[i]
                    vals.append((ins[1], self.op(env, ins[2], ins[3][prev])))
                    i += 1
                for d, v in vals:
                    env[d] = v
            self.steps += len(blk)
            if self.steps > self.max:
                raise PathEnd('limit', 'instruction budget in ' + fname)
            for ins in blk[i:]:
                k = ins[0]
                if k == 'bin':
                    t = ins[3]
                    a = ins[4]
                    b = ins[5]
                    a = env[a[1]] if a[0] == 'l' else a[1] if a[0] == 'c' else self.op(env, t, a)
                    b = env[b[1]] if b[0] == 'l' else b[1] if b[0] == 'c' else self.op(env, t, b)
                    env[ins[1]] = self.binop(ins[2], t, a, b)
                elif k == 'load':
                    env[ins[1]] = self.load(self.op(env, 'ptr', ins[3]), ins[2])
                elif k == 'store':
                    self.store(self.op(env, 'ptr', ins[4]), ins[2], self.op(env, ins[2], ins[3]))
                elif k == 'gep':
                    env[ins[1]] = self.gep(env, ins[2], ins[3])
                elif k == 'icmp':
                    env[ins[1]] = self.icmp(ins[2], ins[3], self.op(env, ins[3], ins[4]), self.op(env, ins[3], ins[5]))
                elif k == 'fcmp':
                    env[ins[1]] = self.fcmp(ins[2], ins[3], self.op(env, ins[3], ins[4]), self.op(env, ins[3], ins[5]))
                elif k == 'br':
                    nxt = ins[2]
                    break
                elif k == 'cbr':
                    c = self.op(env, ('i', 1), ins[2])
                    nxt = ins[3] if self.truth(c) else ins[4]
                    break
                elif k == 'cast':
                    env[ins[1]] = self.cast(ins[2], ins[3], self.op(env, ins[3], ins[4]), ins[5])
                elif k == 'select':
                    c = self.op(env, ins[2], ins[3])
                    a = self.op(env, ins[4], ins[5])
                    b = self.op(env, ins[4], ins[6])
                    env[ins[1]] = self.select(ins[2], c, ins[4], a, b)
                elif k == 'call':
                    r = self.call(env, ins)
                    if ins[1] is not None:
                        env[ins[1]] = r
                    if ins[5] is not None:
                        nxt = ins[5][0]
                        break
                elif k == 'ret':
                    r = None if ins[3] is None else self.op(env, ins[2], ins[3])
                    for o in allocas:
                        o.alive = False
                    self.depth -= 1
                    return r
                elif k == 'alloca':
                    n = self.mod.sizeof(ins[2])
                    if ins[3] is not None:
                        c = self.op(env, ins[3][0], ins[3][1])
                        if isinstance(c, Node):
                            c = self.ctx.concretize(c, 64)
                        n *= c
                    o = self.alloc(fname + ins[1], n, 'stack')
                    allocas.append(o)
                    env[ins[1]] = Ptr(o, 0)
                elif k == 'fneg':
                    v = self.op(env, ins[2], ins[3])
                    env[ins[1]] = self.fneg(ins[2], v)
                elif k == 'switch':
                    v = self.op(env, ins[3 - 1], ins[3])
                    nxt = self.do_switch(v, ins)
                    break
                elif k == 'extractelement':
                    v = self.op(env, ins[2], ins[3])
                    env[ins[1]] = v[self.op(env, ins[4], ins[5])]
                elif k == 'insertelement':
                    v = list(self.op(env, ins[2], ins[3]))
                    v[self.op(env, ins[6], ins[7])] = self.op(env, ins[4], ins[5])
                    env[ins[1]] = v
                elif k == 'shufflevector':
                    a = self.op(env, ins[2], ins[3])
                    b = self.op(env, ins[2], ins[4])
                    m = self.op(env, ins[5], ins[6])
                    ab = list(a) + list(b)
                    env[ins[1]] = [UNDEF if x is UNDEF else ab[x] for x in m]
                elif k == 'extractvalue':
                    v = self.op(env, ins[2], ins[3])
                    for j in ins[4]:
                        v = v[j]
                    env[ins[1]] = v
                elif k == 'insertvalue':
                    v = self.op(env, ins[2], ins[3])
                    env[ins[1]] = insval(v, ins[6], self.op(env, ins[4], ins[5]))
                elif k == 'freeze':
                    v = self.op(env, ins[2], ins[3])
                    env[ins[1]] = self.zero(ins[2]) if v is UNDEF else v
                elif k == 'unreachable':
                    raise PathEnd('unreachable', fname)
                elif k == 'unwind':
                    raise PathEnd('throw', 'unwinding in ' + fname)
                elif k == 'nop':
                    pass
                elif k == 'phi':
                    raise IRError('phi in entry block')
                else:
                    raise IRError('instr ' + k)
            prev = cur
            cur = nxt
            if cur is None:
                raise IRError('fell off block')

    def fneg(self, ty, v):
        ty = self.mod.resolve(ty)
        if isinstance(ty, tuple) and ty[0] == 'vec':
            return [self.fneg(ty[2], x) for x in v]
        if v is UNDEF:
            return v
        if isinstance(v, float):
            return -v
        if v.op == 'fneg':
            return v.args[0]
        return mk('fneg', v.ty, v)

    def select(self, ct, c, t, a, b):
        ct = self.mod.resolve(ct)
        if isinstance(ct, tuple) and ct[0] == 'vec':
            tt = self.mod.resolve(t)
            return [self.select(ct[2], x, tt[2], y, z) for x, y, z in zip(c, a, b)]
        if isinstance(c, Node):
            if a is b or (type(a) is type(b) and not isinstance(a, (list, Ptr, Node)) and a == b and
                          not (isinstance(a, float) and math.copysign(1, a) != math.copysign(1, b))):
                return a
            r = self.ctx.select(c, a, b, self.mod.resolve(t))
            if r is not None:
                return r
        return a if self.truth(c) else b

    def do_switch(self, v, ins):
        cases = ins[5]
        if isinstance(v, Node):
            n = v.ty[1]
            for c, l in cases:
                if self.truth(simp_icmp('eq', n, v, c)):
                    return l
            return ins[4]
        if v is UNDEF:
            raise PathEnd('undef', 'switch on an undefined value')
        for c, l in cases:
            if c == v:
                return l
        return ins[4]

    def conc(self, v, what):
        if isinstance(v, Node):
            return self.ctx.concretize(v, v.ty[1])
        if v is UNDEF:
            raise PathEnd('undef', what)
        return v

    def call(self, env, ins):
        callee = ins[3]
        args = [self.op(env, t, v) for t, v in ins[4]]
        if callee[0] == 'l':
            p = env[callee[1]]
            if not isinstance(p, Ptr) or p.obj is None or p.obj.kind != 'func':
                raise PathEnd('memerr', 'call through %r' % (p,))
            name = p.obj.name
        elif callee[0] == 'g':
            name = callee[1]
        else:
            raise IRError('callee %r' % (callee,))
        st = self.ctx.stub(name, args)
        if st is not None:
            return st[0]
        if name in self.mod.bodies:
            return self.run(name, args)
        return self.external(name.strip('@').strip('"'), args, ins)

    def external(self, n, args, ins):
        if n.startswith('llvm.'):
            return self.intrinsic(n, args, ins)
        if n in LIBM:
            t, k, base = LIBM[n]
            return self.math(base, t, args[:k])
        if n in ('fabs', 'fabsf'):
            return self.math('fabs', 'f64' if n == 'fabs' else 'f32', args[:1])
        if n in ('abs', 'labs'):
            v = args[0]
            w = 32 if n == 'abs' else 64
            if isinstance(v, Node):
                return self.select(('i', 1), simp_icmp('slt', w, v, 0), ('i', w), simp_i('sub', w, 0, v), v)
            return abs(E.sgn(v, w)) & ((1 << w) - 1)
        if n in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t'):
            sz = self.conc(args[0], 'allocation size')
            if sz > 1 << 30:
                raise PathEnd('throw', 'allocation of %d bytes' % sz)
            return Ptr(self.alloc('heap%d' % self.nobj, sz, 'heap'), 0)
        if n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t'):
            p = args[0]
            if isinstance(p, Ptr) and p.obj is not None:
                if p.off != 0 or p.obj.kind != 'heap' or not p.obj.alive:
                    raise PathEnd('memerr', 'bad free of %r' % p)
                p.obj.alive = False
            return None
        if n in ('memcpy', 'memmove'):
            self.memcpy(args[0], args[1], self.conc(args[2], n))
            return args[0]
        if n == 'memset':
            c = self.conc(args[2], n)
            p = self.check(args[0], c, 'memset') if c else args[0]
            v = self.conc(args[1], n)
            if c:
                self.memset(p.obj, p.off, v & 255, c)
            return args[0]
        if n == 'memcmp' or n == 'bcmp':
            c = self.conc(args[2], n)
            a = self.check(args[0], c, n) if c else args[0]
            b = self.check(args[1], c, n) if c else args[1]
            for i in range(c):
                x = self.byte(a.obj, a.off + i)
                y = self.byte(b.obj, b.off + i)
                if isinstance(x, int) and isinstance(y, int):
                    if x != y:
                        return (1 if x > y else -1) & 0xffffffff
                elif not self.truth(simp_icmp('eq', 8, x, y)):
                    return 1 if self.truth(simp_icmp('ugt', 8, x, y)) else 0xffffffff
            return 0
        if n == 'strlen':
            p = args[0]
            i = 0
            while True:
                q = self.check(Ptr(p.obj, p.off + i), 1, 'strlen')
                b = self.byte(q.obj, q.off)
                if isinstance(b, Node):
                    if self.truth(simp_icmp('eq', 8, b, 0)):
                        return i
                elif b is UNDEF:
                    raise PathEnd('undef', 'strlen')
                elif b == 0:
                    return i
                i += 1
        if n == 'memchr':
            c = self.conc(args[2], n)
            v = self.conc(args[1], n) & 255
            for i in range(c):
                q = self.check(Ptr(args[0].obj, args[0].off + i), 1, 'memchr')
                b = self.byte(q.obj, q.off)
                if (self.truth(simp_icmp('eq', 8, b, v)) if isinstance(b, Node) else b == v):
                    return q
            return Ptr(None, 0)
        if n == '__assert_fail':
            raise PathEnd('assert', self.cstr(args[0]))
        if n in ('abort', '_ZSt9terminatev', 'exit', '_exit'):
            raise PathEnd('abort', n)
        if '__throw' in n or n in ('__cxa_throw', '__cxa_rethrow', '__cxa_bad_cast'):
            raise PathEnd('throw', n)
        if n in ('printf', 'puts', 'putchar', 'fprintf', 'fputs', 'fputc', 'putc', 'fwrite', 'perror', 'vprintf', 'fflush',
                 '__printf_chk', '__fprintf_chk', 'write'):
            self.effects.append(n)
            return 0
        if n.startswith(('_ZStls', '_ZNSolsE', '_ZNSo3put', '_ZNSo5write', '_ZNSo5flush', '_ZSt4endl', '_ZSt5flush', '_ZNSo9_M_insert', '_ZSt16__ostream_insert')):
            self.effects.append('ostream')
            return args[0]
        if n in ('__cxa_guard_acquire',):
            p = self.check(args[0], 1, n)
            b = self.byte(p.obj, p.off)
            return 0 if b == 1 else 1
        if n in ('__cxa_guard_release',):
            p = self.check(args[0], 1, n)
            self.store(p, ('i', 8), 1)
            return None
        if n in ('__cxa_guard_abort', '__cxa_atexit'):
            return 0
        raise PathEnd('unsupported', 'external function ' + n)

    def cstr(self, p):
        s = b''
        try:
            while True:
                b = self.byte(p.obj, p.off + len(s))
                if not isinstance(b, int) or b == 0:
                    return s.decode('latin1')
                s += bytes([b])
        except Exception:
            return '?'

    def math(self, base, t, args):
        if any(a is UNDEF for a in args):
            return UNDEF
        if base == 'fabs':
            a = args[0]
            if isinstance(a, float):
                return abs(a)
            return self.ctx.fabs_node(t, a)
        if all(isinstance(a, float) for a in args):
            return E.libm(base, t, *args)
        return self.ctx.libm_node(base, t, args)

    def fpclass(self, x, mask, ty):
        tiny = 2.0 ** -126 if ty == 'float' else 2.0 ** -1022
        if isinstance(x, float):
            neg = math.copysign(1.0, x) < 0
            if x != x:
                return int(mask & 3 != 0)
            k = 0 if abs(x) == math.inf else 1 if abs(x) >= tiny else 2 if x else 3
            return int(mask >> (2 + k if neg else 9 - k) & 1)
        if (mask >> 5 & 1) != (mask >> 6 & 1) and not getattr(self.ctx, 'realzero', False):
            raise PathEnd('unsupported', 'is.fpclass telling zeros apart')
        r = 0

        def alt(c):
            nonlocal r
            r = self.binop('or', ('i', 1), r, c)

        def both(a, b):
            return self.binop('and', ('i', 1), a, b)
        f = lambda pr, v: self.fcmp(pr, ty, x, v)
        if mask & 3:
            alt(f('uno', 0.0))
        if mask >> 2 & 1:
            alt(f('oeq', -math.inf))
        if mask >> 9 & 1:
            alt(f('oeq', math.inf))
        nn, ns, pz, ps, pn = [mask >> k & 1 for k in (3, 4, 6, 7, 8)]
        # contiguous finite classes as ranges
        if ps and pn:
            alt(both(f('oge' if pz else 'ogt', 0.0), f('olt', math.inf)))
        elif pn:
            alt(both(f('oge', tiny), f('olt', math.inf)))
        elif ps:
            alt(both(f('ogt', 0.0), f('olt', tiny)))
        if ns and nn:
            alt(both(f('ole' if pz else 'olt', 0.0), f('ogt', -math.inf)))
        elif nn:
            alt(both(f('ole', -tiny), f('ogt', -math.inf)))
        elif ns:
            alt(both(f('olt', 0.0), f('ogt', -tiny)))
        if pz and not (ps and pn) and not (ns and nn):
            alt(f('oeq', 0.0))
        return r

    def intrinsic(self, n, args, ins):
        p = n.split('.')
        b = p[1]
        if b in ('lifetime', 'dbg', 'assume', 'experimental', 'invariant', 'donothing', 'prefetch', 'stacksave', 'stackrestore'):
            return UNDEF
        if b == 'memcpy' or b == 'memmove':
            self.memcpy(args[0], args[1], self.conc(args[2], n))
            return None
        if b == 'memset':
            c = self.conc(args[2], n)
            if c:
                q = self.check(args[0], c, 'memset')
                self.memset(q.obj, q.off, self.conc(args[1], n), c)
            return None
        rt = self.mod.resolve(ins[2])
        if isinstance(rt, tuple) and rt[0] == 'vec':
            k = rt[1]
            sub = (ins[0], ins[1], rt[2], ins[3], ins[4], ins[5])
            return [self.intrinsic(n, [a[j] if isinstance(a, list) else a for a in args], sub) for j in range(k)]
        if b in ('fabs', 'sqrt', 'pow', 'exp', 'exp2', 'exp10', 'log', 'log10', 'log2', 'sin', 'cos', 'floor', 'ceil', 'trunc', 'rint',
                 'round', 'nearbyint'):
            return self.math(b, fty(rt), args)
        if b == 'powi':
            e = E.sgn(self.conc(args[1], n), 32)
            return self.math('pow', fty(rt), [args[0], float(e)])
        if b in ('minnum', 'maxnum', 'minimum', 'maximum'):
            x, y = args
            c = self.fcmp('olt' if b.startswith('min') else 'ogt', rt, x, y)
            return self.select(('i', 1), c, rt, x, y)
        if b in ('fmuladd', 'fma'):
            if b == 'fma':
                raise PathEnd('unsupported', 'fma')
            return self.binop('fadd', rt, self.binop('fmul', rt, args[0], args[1]), args[2])
        if b == 'copysign':
            x, y = args
            if isinstance(x, float) and isinstance(y, float):
                return math.copysign(x, y)
            ax = self.math('fabs', fty(rt), [x])
            c = self.fcmp('olt', rt, y, 0.0)
            return self.select(('i', 1), c, rt, self.fneg(rt, ax), ax)
        if b in ('umin', 'umax', 'smin', 'smax'):
            x, y = args
            c = self.icmp({'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[b], rt, x, y)
            return self.select(('i', 1), c, rt, x, y)
        if b == 'abs':
            x = args[0]
            c = self.icmp('slt', rt, x, 0)
            return self.select(('i', 1), c, rt, self.binop('sub', rt, 0, x), x)
        if b in ('bswap',):
            x = args[0]
            k = rt[1] // 8
            if isinstance(x, int):
                return int.from_bytes(x.to_bytes(k, 'little'), 'big')
            return concat_bytes([extract_byte(x, k - 1 - i) for i in range(k)])
        if b in ('ctpop', 'ctlz', 'cttz'):
            x = self.conc(args[0], n)
            w = rt[1]
            if b == 'ctpop':
                return bin(x).count('1')
            if x == 0:
                return w
            return w - x.bit_length() if b == 'ctlz' else (x & -x).bit_length() - 1
        if b in ('fshl', 'fshr'):
            x, y, s = args
            w = rt[1]
            s = self.conc(s, n) % w
            if s == 0:
                return x if b == 'fshl' else y
            if b == 'fshr':
                s = w - s
            return self.binop('or', rt, self.binop('shl', rt, x, s), self.binop('lshr', rt, y, w - s))
        if b in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and p[2] == 'with':
            it = rt[1][0]
            w = it[1]
            x, y = args
            if isinstance(x, int) and isinstance(y, int):
                if b[0] == 's':
                    X, Y = E.sgn(x, w), E.sgn(y, w)
                else:
                    X, Y = x, y
                r = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[b[1:]]
                m = r & ((1 << w) - 1)
                ok = (E.sgn(m, w) == r) if b[0] == 's' else (m == r)
                return [m, 0 if ok else 1]
            r = self.binop(b[1:], it, x, y)
            if b == 'uadd':
                return [r, self.icmp('ult', it, r, x)]
            if b == 'usub':
                return [r, self.icmp('ult', it, x, y)]
            raise PathEnd('unsupported', n)
        if b in ('uadd', 'usub', 'sadd', 'ssub') and p[2] == 'sat':
            x, y = args
            w = rt[1]
            if b == 'usub':
                return self.select(('i', 1), self.icmp('ult', rt, x, y), rt, 0, self.binop('sub', rt, x, y))
            if b == 'uadd':
                r = self.binop('add', rt, x, y)
                return self.select(('i', 1), self.icmp('ult', rt, r, x), rt, (1 << w) - 1, r)
            raise PathEnd('unsupported', n)
        if b == 'fptosi' or b == 'fptoui':
            raise PathEnd('unsupported', n)
        if b in ('is', 'expect'):
            if b == 'expect':
                return args[0]
            if p[2] == 'fpclass':
                return self.fpclass(args[0], self.conc(args[1], n), {'f32': 'float', 'f64': 'double'}[p[3]])
            # llvm.is.constant
            return 0
        if b in ('trap', 'ubsantrap'):
            raise PathEnd('abort', n)
        if b in ('eh', 'objectsize'):
            if b == 'objectsize':
                return (1 << 64) - 1
            return UNDEF
        raise PathEnd('unsupported', n)


# ---------------------------------------------------------------- integer helpers
def iadd(a, b):
    if isinstance(a, Node) or isinstance(b, Node):
        M = (1 << 64) - 1
        return simp_i('add', 64, a if isinstance(a, Node) else a & M, b if isinstance(b, Node) else b & M)
    return a + b


def isub(a, b):
    if isinstance(a, Node) or isinstance(b, Node):
        M = (1 << 64) - 1
        return simp_i('sub', 64, a if isinstance(a, Node) else a & M, b if isinstance(b, Node) else b & M)
    return a - b


def ibin(op, n, a, b):
    M = (1 << n) - 1
    if op == 'add':
        return (a + b) & M
    if op == 'sub':
        return (a - b) & M
    if op == 'mul':
        return (a * b) & M
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'shl':
        return (a << b) & M if b < n else UNDEF
    if op == 'lshr':
        return a >> b if b < n else UNDEF
    if op == 'ashr':
        return (E.sgn(a, n) >> b) & M if b < n else UNDEF
    if b == 0:
        raise PathEnd('abort', 'integer division by zero')
    if op == 'udiv':
        return a // b
    if op == 'urem':
        return a % b
    x, y = E.sgn(a, n), E.sgn(b, n)
    qq = abs(x) // abs(y)
    if (x < 0) != (y < 0):
        qq = -qq
    if op == 'sdiv':
        return qq & M
    if op == 'srem':
        return (x - qq * y) & M
    raise IRError(op)


def icmpc(pred, n, a, b):
    if pred == 'eq':
        return a == b
    if pred == 'ne':
        return a != b
    if pred[0] == 's':
        a, b = E.sgn(a, n), E.sgn(b, n)
    p = pred[1:]
    return a > b if p == 'gt' else a >= b if p == 'ge' else a < b if p == 'lt' else a <= b


def simp_i(op, n, a, b):
    if isinstance(b, int) and not isinstance(a, int):
        if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return a
        if b == 0 and op in ('and', 'mul'):
            return 0
        if b == 1 and op in ('mul', 'sdiv', 'udiv'):
            return a
        if op == 'and' and b == (1 << n) - 1:
            return a
    elif isinstance(a, int):
        if a == 0 and op in ('add', 'or', 'xor'):
            return b
        if a == 0 and op in ('and', 'mul'):
            return 0
        if op in ('add', 'mul', 'and', 'or', 'xor'):
            a, b = b, a
    if a is b:
        if op in ('sub', 'xor'):
            return 0
        if op in ('and', 'or'):
            return a
    if op in ('add', 'sub') and isinstance(b, int) and isinstance(a, Node) and a.op == 'add' and isinstance(a.args[1], int):
        c = ibin('add', n, a.args[1], b if op == 'add' else (-b) & ((1 << n) - 1))
        return simp_i('add', n, a.args[0], c)
    if op == 'sub' and isinstance(b, int):
        return mk('add', ('i', n), a, (-b) & ((1 << n) - 1))
    return mk(op, ('i', n), a, b)


def simp_ext(op, v, n, m):
    if n == m:
        return v
    if op == 'trunc':
        if v.op in ('zext', 'sext') and v.args[0].ty[1] == m:
            return v.args[0]
        if v.op in ('zext', 'sext') and v.args[0].ty[1] < m:
            return mk(v.op, ('i', m), v.args[0])
        return mk('trunc', ('i', m), v)
    return mk(op, ('i', m), v)


def simp_icmp(pred, n, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return int(icmpc(pred, n, a, b))
    if isinstance(a, int):
        sw = {'eq': 'eq', 'ne': 'ne', 'ugt': 'ult', 'uge': 'ule', 'ult': 'ugt', 'ule': 'uge',
              'sgt': 'slt', 'sge': 'sle', 'slt': 'sgt', 'sle': 'sge'}
        return simp_icmp(sw[pred], n, b, a)
    if a is b:
        return int(pred in ('eq', 'uge', 'ule', 'sge', 'sle'))
    if n == 1 and isinstance(b, int) and pred in ('eq', 'ne'):
        if (pred == 'eq') == (b == 1):
            return a
        return mk('xor', ('i', 1), a, 1)
    return mk('icmp', ('i', 1), pred, a, b)


FTY = {'f32': 'float', 'f64': 'double'}


def simp_f(op, t, a, b):
    # only rewrites that are exact in IEEE arithmetic for every non-NaN value
    if isinstance(b, float):
        if op in ('fmul', 'fdiv') and b == 1.0:
            return a
        if op == 'fsub' and b == 0.0 and math.copysign(1, b) > 0:
            return a
    if isinstance(a, float):
        if op == 'fmul' and a == 1.0:
            return b
        if op in ('fadd', 'fmul'):
            a, b = b, a
    return mk(op, t, a, b)


def extract_byte(v, k):
    n = v.ty[1]
    if n == 8 and k == 0:
        return v
    if v.op == 'concat':
        return v.args[k]
    if v.op == 'zext' and v.args[0].ty[1] <= 8 * k:
        return 0
    return mk('byte', ('i', 8), v, k)


def concat_bytes(bs):
    # recognise all bytes of one value in order
    n = len(bs)
    b0 = bs[0]
    if isinstance(b0, Node) and b0.op == 'byte' and b0.args[1] == 0:
        src = b0.args[0]
        if src.ty == ('i', 8 * n) and all(isinstance(b, Node) and b.op == 'byte' and b.args[0] is src and b.args[1] == i
                                          for i, b in enumerate(bs)):
            return src.args[0] if src.op == 'f2bits' else src
    return mk('concat', ('i', 8 * n), *bs)


def insval(v, idx, e):
    v = list(v)
    if len(idx) == 1:
        v[idx[0]] = e
    else:
        v[idx[0]] = insval(v[idx[0]], idx[1:], e)
    return v
