"""Parser for the textual LLVM IR (clang 18, opaque pointers) of the harness translation units.

Nothing here is specific to ColorSystem: it turns a .ll file into Module(functions, globals, named types).
"""
import re
import struct


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
# ('i', n) | 'float' | 'double' | 'ptr' | 'void' | ('arr', n, t) | ('vec', n, t) | ('struct', (t..), packed) | ('named', name)
TOK = re.compile(
    r'\s+|;[^\n]*'
    r'|(?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")'
    r'|(?P<local>%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+)'
    r'|(?P<glob>@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)'
    r'|(?P<meta>![-a-zA-Z$._0-9]*)'
    r'|(?P<attr>\#[0-9]+)'
    r'|(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)'
    r'|(?P<num>[-+]?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?)'
    r'|(?P<q>"(?:[^"\\]|\\.)*")'
    r'|(?P<word>\$?[a-zA-Z_][-a-zA-Z0-9_.]*)'
    r'|(?P<dots>\.\.\.)'
    r'|(?P<p>[\[\]{}()<>,=*:|])'
)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        k = m(s, pos)
        if not k:
            raise IRError('cannot tokenize: ' + s[pos:pos + 60])
        pos = k.end()
        if k.lastgroup:
            out.append((k.lastgroup, k.group()))
    return out


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, d=0):
        j = self.i + d
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, w):
        if self.i < len(self.t) and self.t[self.i][1] == w:
            self.i += 1
            return True
        return False

    def expect(self, w):
        if not self.accept(w):
            raise IRError('expected %r got %r in %r' % (w, self.peek(), ' '.join(x[1] for x in self.t)[:300]))

    # -- types
    def type(self):
        k = self.next()
        if k == 'ptr':
            t = 'ptr'
        elif k in ('float', 'double', 'void', 'label', 'metadata', 'token', 'half', 'x86_fp80', 'fp128'):
            t = k
        elif re.fullmatch(r'i[0-9]+', k):
            t = ('i', int(k[1:]))
        elif k == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif k == '<':
            if self.peek() == '{':
                self.next()
                t = ('struct', tuple(self.typelist('}')), True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif k == '{':
            t = ('struct', tuple(self.typelist('}')), False)
        elif k.startswith('%'):
            t = ('named', k)
        elif k == 'opaque':
            t = ('struct', (), False)
        else:
            raise IRError('type? %r in %r' % (k, ' '.join(x[1] for x in self.t)[:300]))
        if self.peek() == '(' and t == 'void':
            pass
        return t

    def typelist(self, end):
        r = []
        if self.accept(end):
            return r
        while True:
            r.append(self.type())
            if self.accept(end):
                return r
            self.expect(',')

    # -- values; returns operand tuples:
    # ('l', name) ('c', const) ('g', name) ('null',) ('undef',) ('agg', [(type, op)..]) ('zero',) ('str', bytes) ('ce', ...)
    def value(self, ty):
        k = self.kind()
        if k is None:
            raise IRError('value expected')
        w = self.next()
        if k == 'local':
            return ('l', w)
        if k == 'glob':
            return ('g', w)
        if k == 'num':
            if ty in ('float', 'double'):
                f = float(w)
                return ('c', f)
            if isinstance(ty, tuple) and ty[0] == 'i':
                return ('c', int(w) & ((1 << ty[1]) - 1))
            raise IRError('num of type %r' % (ty,))
        if k == 'hex':
            return ('c', struct.unpack('>d', struct.pack('>Q', int(w, 16)))[0])
        if k == 'str':
            return ('str', unescape(w[2:-1]))
        if w == 'true':
            return ('c', 1)
        if w == 'false':
            return ('c', 0)
        if w == 'null':
            return ('null',)
        if w in ('undef', 'poison'):
            return ('undef',)
        if w == 'zeroinitializer':
            return ('zero',)
        if w == 'none':
            return ('undef',)
        if w in ('[', '{', '<'):
            end = {'[': ']', '{': '}', '<': '>'}[w]
            packed = False
            if w == '<' and self.peek() == '{':
                self.next()
                end = '}'
                packed = True
            items = []
            if not self.accept(end):
                while True:
                    t = self.type()
                    items.append((t, self.value(t)))
                    if self.accept(end):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', items)
        if w == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                self.next()
            self.expect('(')
            t = self.type()
            idx = []
            while self.accept(','):
                while self.peek() == 'inrange':
                    self.next()
                    if self.accept('('):
                        while not self.accept(')'):
                            self.next()
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('gep', t, idx)
        if w in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('castce', w, t, v, t2)
        if w in ('add', 'sub', 'mul', 'shl', 'and', 'or', 'xor'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('bince', w, t, a, b)
        if w == 'splat':
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect(')')
            return ('splat', v)
        raise IRError('value? %r in %r' % (w, ' '.join(x[1] for x in self.t)[:300]))

    PATTR = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'zeroext', 'signext', 'noalias',
             'inreg', 'returned', 'immarg', 'nofree', 'noreturn', 'nest', 'swiftself', 'allocptr', 'writable',
             'dead_on_unwind', 'allocalign', 'nounwind', 'nosync', 'willreturn'}

    def skip_attrs(self):
        al = None
        while True:
            w = self.peek()
            if w in self.PATTR:
                self.next()
            elif w == 'align':
                self.next()
                if self.accept('('):
                    self.next()
                    self.expect(')')
                else:
                    self.next()
            elif w in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'captures',
                       'nofpclass', 'memory', 'range', 'preallocated', 'inalloca', 'initializes', 'allocsize'):
                self.next()
                d = 0
                if self.accept('('):
                    d = 1
                    while d:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
            elif w is not None and self.kind() == 'q':
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return


def unescape(s):
    b = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                b.append(92)
                i += 2
            else:
                b.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            b += s[i].encode('utf-8')
            i += 1
    return bytes(b)


class Function:
    def __init__(self, name, ret, params):
        self.name = name
        self.ret = ret
        self.params = params  # [(type, localname)]
        self.blocks = {}
        self.entry = None
        self.ninstr = 0


class Global:
    def __init__(self, name, ty, init, const):
        self.name = name
        self.ty = ty
        self.init = init  # operand or None, parsed lazily
        self.const = const


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.functions = {}
        self.bodies = {}
        self.decls = set()
        self._layout = {}
        self.parse(text)

    # -- layout
    def resolve(self, t):
        while isinstance(t, tuple) and t[0] == 'named':
            t = self.types[t[1]]
        return t

    def sizeof(self, t):
        return self.layout(t)[0]

    def layout(self, t):
        r = self._layout.get(t)
        if r is None:
            r = self._layout[t] = self._lay(t)
        return r

    def _lay(self, t):
        t = self.resolve(t)
        if t == 'float':
            return (4, 4, None)
        if t in ('double', 'ptr'):
            return (8, 8, None)
        if t == 'x86_fp80':
            return (16, 16, None)
        if t[0] == 'i':
            n = (t[1] + 7) // 8
            k = 1
            while k < n:
                k *= 2
            return (k, min(k, 16), None)
        if t[0] == 'arr':
            s, a, _ = self.layout(t[2])
            return (s * t[1], a, None)
        if t[0] == 'vec':
            s, a, _ = self.layout(t[2])
            tot = s * t[1]
            k = 1
            while k < tot:
                k *= 2
            return (k, k, None)
        if t[0] == 'struct':
            off = 0
            al = 1
            offs = []
            for e in t[1]:
                s, a, _ = self.layout(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al, offs)
        raise IRError('layout of %r' % (t,))

    # -- parsing
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('%'):
                m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+) = type (.*)$', ln)
                self.types[m.group(1)] = P(tokenize(m.group(2)), self).type()
            elif ln.startswith('@'):
                m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+) = (.*)$', ln)
                self.globals[m.group(1)] = m.group(2)
            elif ln.startswith('define'):
                body = []
                j = i + 1
                while lines[j] != '}':
                    body.append(lines[j])
                    j += 1
                m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\s*\(', ln)
                self.bodies[m.group(1)] = (ln, body)
                i = j
            elif ln.startswith('declare'):
                m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\s*\(', ln)
                self.decls.add(m.group(1))
            i += 1

    def glob(self, name):
        g = self.globals[name]
        if isinstance(g, Global):
            return g
        # strip attributes up to 'global' or 'constant'
        m = re.match(r'(.*?)\b(global|constant|alias)\b\s(.*)$', g)
        if not m or m.group(2) == 'alias':
            raise IRError('global %s = %s' % (name, g[:80]))
        p = P(tokenize(m.group(3)), self)
        ty = p.type()
        init = None
        if p.kind() is not None and p.peek() != ',' and 'external' not in m.group(1).split():
            init = p.value(ty)
        r = self.globals[name] = Global(name, ty, init, m.group(2) == 'constant')
        return r

    def func(self, name):
        f = self.functions.get(name)
        if f is None and name in self.bodies:
            f = self.functions[name] = self.parse_func(name)
        return f

    def parse_func(self, name):
        hdr, body = self.bodies[name]
        toks = tokenize(hdr)
        p = P(toks, self)
        # find return type: token(s) just before the @name
        k = next(i for i, t in enumerate(toks) if t[1] == name)
        # parse params
        p.i = k + 1
        p.expect('(')
        params = []
        n = 0
        if not p.accept(')'):
            while True:
                if p.peek() == '...':
                    p.next()
                else:
                    t = p.type()
                    p.skip_attrs()
                    if p.kind() == 'local':
                        nm = p.next()
                    else:
                        nm = '%' + str(n)
                    params.append((t, nm))
                    n += 1
                if p.accept(')'):
                    break
                p.expect(',')
        f = Function(name, None, params)
        cur = '%' + str(n)
        f.entry = cur
        blk = []
        f.blocks[cur] = blk
        i = 0
        while i < len(body):
            ln = body[i]
            s = ln.strip()
            i += 1
            if not s or s.startswith(';'):
                continue
            if not ln.startswith(' '):
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
                cur = '%' + m.group(1)
                if not f.blocks[f.entry] and len(f.blocks) == 1:
                    # entry label given explicitly
                    del f.blocks[f.entry]
                    f.entry = cur
                blk = []
                f.blocks[cur] = blk
                continue
            if s.startswith('switch') and s.endswith('['):
                while not body[i].strip().startswith(']'):
                    s += ' ' + body[i].strip()
                    i += 1
                s += ' ]'
                i += 1
            # continuation lines (invoke "to label", landingpad clauses)
            while i < len(body) and (body[i].startswith('          ') or body[i].strip().startswith('to label')):
                s += ' ' + body[i].strip()
                i += 1
            blk.append(self.parse_instr(s))
            f.ninstr += 1
        return f

    BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
           'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
    CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
            'bitcast', 'addrspacecast'}
    FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg',
             'samesign'}

    def parse_instr(self, s):
        p = P(tokenize(s), self)
        dst = None
        if p.kind() == 'local' and p.peek(1) == '=':
            dst = p.next()
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        fl = False
        if op in self.BIN:
            fast = False
            while p.peek() in self.FLAGS:
                if p.peek() in ('fast', 'nnan', 'ninf', 'arcp', 'contract', 'afn', 'reassoc'):
                    fast = True
                p.next()
            if fast:
                raise IRError('fast-math flags in ' + s)
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return ('bin', dst, op, t, a, b)
        if op == 'fneg':
            while p.peek() in self.FLAGS:
                p.next()
            t = p.type()
            return ('fneg', dst, t, p.value(t))
        if op in self.CAST:
            while p.peek() in self.FLAGS:
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect('to')
            return ('cast', dst, op, t, v, p.type())
        if op in ('icmp', 'fcmp'):
            while p.peek() in self.FLAGS:
                p.next()
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            return (op, dst, pred, t, a, p.value(t))
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.type()
            p.expect(',')
            p.type()
            return ('load', dst, t, p.value('ptr'))
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.type()
            return ('store', None, t, v, p.value('ptr'))
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            t = p.type()
            idx = []
            while p.accept(','):
                if p.kind() == 'meta':
                    break
                it = p.type()
                idx.append((it, p.value(it)))
            return ('gep', dst, t, idx)
        if op == 'alloca':
            t = p.type()
            cnt = None
            if p.accept(','):
                if p.peek() != 'align':
                    ct = p.type()
                    cnt = (ct, p.value(ct))
            return ('alloca', dst, t, cnt)
        if op == 'phi':
            while p.peek() in self.FLAGS:
                p.next()
            t = p.type()
            inc = {}
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                inc[p.next()] = v
                p.expect(']')
                if not p.accept(','):
                    break
            return ('phi', dst, t, inc)
        if op == 'select':
            while p.peek() in self.FLAGS:
                p.next()
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            return ('select', dst, ct, c, t, a, p.value(t))
        if op == 'freeze':
            t = p.type()
            return ('freeze', dst, t, p.value(t))
        if op == 'br':
            if p.accept('label'):
                return ('br', None, p.next())
            p.type()
            c = p.value(('i', 1))
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            return ('cbr', None, c, a, p.next())
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                c = p.value(ct)
                p.expect(',')
                p.expect('label')
                cases.append((c[1], p.next()))
            return ('switch', None, t, v, d, cases)
        if op == 'ret':
            t = p.type()
            if t == 'void':
                return ('ret', None, t, None)
            return ('ret', None, t, p.value(t))
        if op == 'unreachable':
            return ('unreachable', None)
        if op in ('call', 'invoke'):
            while p.peek() in self.FLAGS or p.peek() in ('fastcc', 'ccc', 'coldcc'):
                p.next()
            p.skip_attrs()
            rt = p.type()
            p.skip_attrs()
            if p.peek() == '(':  # vararg function type
                d = 0
                while True:
                    x = p.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            callee = p.value('ptr')
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    t = p.type()
                    if t == 'metadata':
                        # metadata operand: skip to , or )
                        d = 0
                        while True:
                            w = p.peek()
                            if d == 0 and w in (',', ')'):
                                break
                            if w == '(':
                                d += 1
                            if w == ')':
                                d -= 1
                            p.next()
                        args.append((t, ('undef',)))
                    else:
                        p.skip_attrs()
                        args.append((t, p.value(t)))
                    if p.accept(')'):
                        break
                    p.expect(',')
            nd = None
            if op == 'invoke':
                while not p.accept('to'):
                    p.next()
                p.expect('label')
                nd = p.next()
                p.expect('unwind')
                p.expect('label')
                nd = (nd, p.next())
            return ('call', dst, rt, callee, args, nd)
        if op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            idx = []
            while p.accept(','):
                if p.kind() == 'meta':
                    break
                idx.append(int(p.next()))
            return ('extractvalue', dst, t, v, idx)
        if op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            et = p.type()
            e = p.value(et)
            idx = []
            while p.accept(','):
                if p.kind() == 'meta':
                    break
                idx.append(int(p.next()))
            return ('insertvalue', dst, t, v, et, e, idx)
        if op == 'extractelement':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            it = p.type()
            return ('extractelement', dst, t, v, it, p.value(it))
        if op == 'insertelement':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            et = p.type()
            e = p.value(et)
            p.expect(',')
            it = p.type()
            return ('insertelement', dst, t, v, et, e, it, p.value(it))
        if op == 'shufflevector':
            t = p.type()
            a = p.value(t)
            p.expect(',')
            t2 = p.type()
            b = p.value(t2)
            p.expect(',')
            mt = p.type()
            m = p.value(mt)
            return ('shufflevector', dst, t, a, b, mt, m)
        if op in ('landingpad', 'resume', 'cleanupret'):
            return ('unwind', dst)
        if op == 'fence':
            return ('nop', None)
        raise IRError('instruction: ' + s)


def load(path):
    with open(path) as f:
        return Module(f.read())
