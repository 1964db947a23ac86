"""Reference model of MemoryStream: a list of bytes, a cursor, two byte orders.  Sizes and cursor are Python ints, bytes are words or terms."""
from engine.bits import BJob
W = 12
PUT = {0: ('Uint8', 1), 1: ('Int8', 1), 2: ('Uint16', 2), 3: ('Int16', 2), 4: ('Uint32', 4), 5: ('Int32', 4), 6: ('Uint64', 8), 7: ('Int64', 8), 8: ('Float', 4), 9: ('Double', 8)}
SIGNED = (1, 3, 5, 7)
TOP, CUR, END, SEEKTO, EOF_, GET_AT, PUT_AT, READ, WRITE, READ_AT, WRITE_AT, ALIGN = range(20, 32)
PP32, GP32, PP64, GP64, ADJ32, ADJ64, PUTSTR, GETSTR, RD, WR, TELL, PUTSUB, GETSUB, PTR, INIT = range(32, 47)


class Model:
    def __init__(self, S, data, at=0, rd=0, wr=0):
        self.S, self.b, self.p, self.rd, self.wr = S, list(data), at, rd, wr

    def put(self, bs):
        for b in bs:
            if self.p < len(self.b):
                self.b[self.p] = b
            else:
                self.b.append(b)
            self.p += 1

    def get(self, n):
        """next n bytes; past the end zeros, cursor stays at the end"""
        r = []
        for _ in range(n):
            if self.p < len(self.b):
                r.append(self.b[self.p])
                self.p += 1
            else:
                r.append(0)
        return r

    def grow(self, n):
        while len(self.b) < n:
            self.b.append(0)

    def bytes_of(self, d, n):
        bs = [self.S.byte(d[i // 4], i % 4) for i in range(n)]
        return bs[::-1] if self.wr else bs

    def value(self, n):
        bs = self.get(n)
        return bs[::-1] if self.rd else bs

    def u32(self, b):
        return self.S.zext(b, 8, 32)

    def step(self, op, a, d):
        """-> expected result words"""
        S = self.S
        if op in PUT:
            self.put(self.bytes_of(d, PUT[op][1]))
            return []
        if op - 10 in PUT:
            n = PUT[op - 10][1]
            bs = self.value(n)
            if n == 8:
                return [S.word(bs[:4]), S.word(bs[4:])]
            if n == 4:
                return [S.word(bs)]
            v = bs[0] if n == 1 else S.word(bs)
            return [S.sext(v, 8 * n, 32) if op - 10 in SIGNED else S.zext(v, 8 * n, 32)]
        if op in (TOP, CUR, END):
            self.p = {TOP: a, CUR: self.p + a, END: len(self.b) - 1 - a}[op]
            assert 0 <= self.p <= len(self.b)
            return [self.p]
        if op == SEEKTO:
            self.p = a
            return []
        if op == EOF_:
            return [int(self.p >= len(self.b))]
        if op == GET_AT:
            return [self.u32(self.b[a]) if a < len(self.b) else 0]
        if op == PUT_AT:
            self.grow(a + 1)
            self.b[a] = S.byte(d[0], 0)
            return []
        if op == READ:
            n = min(a, len(self.b) - self.p)
            return [n] + [self.u32(x) for x in self.get(n)]
        if op == WRITE:
            self.put([S.byte(x, 0) for x in d[:a]])
            return [a]
        if op == READ_AT:
            at = d[0]
            n = min(a, max(0, len(self.b) - at))
            return [n] + [self.u32(x) for x in self.b[at:at + n]]
        if op == WRITE_AT:
            at = d[0]
            self.grow(at + a)
            for i in range(a):
                self.b[at + i] = S.byte(d[1 + i], 0)
            return [a]
        if op == ALIGN:
            self.p += -self.p % a
            assert self.p <= len(self.b)
            return []
        if op in (PP32, PP64):
            r = self.p
            self.put([0] * (4 if op == PP32 else 8))
            return [r]
        if op == GP32:
            return [S.word(self.value(4)), 0]
        if op == GP64:
            bs = self.value(8)
            return [S.word(bs[:4]), S.word(bs[4:])]
        if op in (ADJ32, ADJ64):
            n = 4 if op == ADJ32 else 8
            bs = [(len(self.b) >> (8 * i)) & 255 for i in range(n)]
            for i, x in enumerate(bs[::-1] if self.wr else bs):
                self.b[a + i] = x
            return []
        if op == PUTSTR:
            n = a + 1
            bs = [(n >> (8 * i)) & 255 for i in range(4)]
            self.put(bs[::-1] if self.wr else bs)
            self.put([S.byte(x, 0) for x in d[:a]] + [0])
            return []
        if op == PUTSUB:
            if a:
                self.put([S.byte(x, 0) for x in d[:a - 1]] + [0])
            return []
        if op == GETSUB:
            if a <= 0:
                return [0]
            return [a - 1] + [self.u32(x) for x in self.get(a)[:-1]]
        if op == GETSTR:
            n = S.pick(S.word(self.value(4)))
            if n == 0 or n >> 31:
                return [0]
            return [n - 1] + [self.u32(x) for x in self.get(n)[:-1]]
        if op in (RD, WR):
            setattr(self, 'rd' if op == RD else 'wr', a)
            return []
        if op == TELL:
            return [self.p, self.p]
        if op == PTR:
            return [self.u32(self.b[self.p]), self.u32(self.b[a])]
        if op == INIT:
            self.b = [S.byte(x, 0) for x in d[:a]]
            self.p = self.rd = self.wr = 0
            return []
        raise ValueError(op)


def program(S, data, at, rd, wr, ops, tag=''):
    """Run the stream program [(op, arg, data words)] on the real code and on the model, and claim that they agree."""
    m = Model(S, [S.byte(x, 0) for x in data], at, max(rd, 0), max(wr, 0))
    want = [m.step(op, a, list(d)) for op, a, d in ops]
    words = list(data)
    for op, a, d in ops:
        words += ([op, a & 0xffffffff] + list(d) + [0] * W)[:W]
    n = len(m.b) + 2
    out = S.call('ms', words, W * len(ops) + 2 + n, [len(data), at, rd, wr, len(ops), n])
    for k, w in enumerate(want):
        for i, v in enumerate(w):
            S.claim('%sop%d.result%d' % (tag, k, i), S.eq(out[W * k + i], v))
    o = out[W * len(ops):]
    S.claim(tag + 'cursor', S.eq(o[0], m.p))
    S.claim(tag + 'size', S.eq(o[1], len(m.b)))
    for i in range(n):
        S.claim('%sbyte%d' % (tag, i), S.eq(o[2 + i], m.u32(m.b[i]) if i < len(m.b) else 0xeeee))
    return out, m


def bigprogram(S, size, start, data, at, e, ops):
    """The same on a large stream of zeros with data at start; bytes are compared in windows around every place involved."""
    b = [0] * size
    for i, x in enumerate(data):
        b[start + i] = S.byte(x, 0)
    m = Model(S, b, at, e, e)
    spots = {0, start - 4, at - 8, size - 16}
    want = []
    for op, a, d in ops:
        want.append(m.step(op, a, list(d)))
        spots |= {m.p - 8, len(m.b) - 16}
        if op in (PUT_AT, ADJ32, ADJ64):
            spots.add(a - 8)
        if op == WRITE_AT:
            spots.add(d[0] - 8)
        for w in (8, 16):
            spots.add((m.p & ((1 << w) - 1)) - 4)
    wins = sorted({max(0, x) for x in spots if x < len(m.b)})
    words = list(data)
    for op, a, d in ops:
        words += ([op, a & 0xffffffff] + list(d) + [0] * W)[:W]
    out = S.call('ms_big', words + wins, W * len(ops) + 2 + 32 * len(wins), [size, start, len(data), at, e, len(ops), len(wins)])
    for k, w in enumerate(want):
        for i, v in enumerate(w):
            S.claim('op%d.result%d' % (k, i), S.eq(out[W * k + i], v))
    o = out[W * len(ops):]
    S.claim('cursor', S.eq(o[0], m.p))
    S.claim('size', S.eq(o[1], len(m.b)))
    for j, w in enumerate(wins):
        for i in range(32):
            S.claim('byte%d' % (w + i), S.eq(o[2 + 32 * j + i], m.u32(m.b[w + i]) if w + i < len(m.b) else 0xeeee))
    return out, m
