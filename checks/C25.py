"""MemoryStream: cursor, block, string, pointer and positional operations against a list-of-bytes model, from every small state."""
from .C24 import *
BOUNDS = 'every buffer of 0 to 6 bytes (thorough: 0 to 9) with any content, every cursor, both byte orders; block lengths 0 to 6 (8), positions up to the end plus 3, strings of 0 to 6 (8) arbitrary bytes; every sequence of two operations drawn from 26 (thorough: three operations drawn from 14) from every buffer of 0 to 2 bytes; one program of integer, float, adjust and seek operations on a stream of 300 and of 0x12345 bytes with every value free; strings of 126 to 700 bytes (thorough: 70000) with free bytes at the ends'
OUTSIDE = 'other large buffers and longer sequences; seeking outside the buffer (the library asserts); get_string on a buffer whose length word exceeds 10; adjusting a pointer outside the buffer'
BUDGET = {'quick': 240, 'thorough': 1500}


def seek(op, top):
    def body(S):
        """seeking moves the cursor as asked, reports it, and changes no byte"""
        data, at = state(S, top)
        n = len(data)
        lo, hi = {TOP: (0, n), SEEKTO: (0, n), CUR: (-at, n - at), END: (-1, n - 1)}[op]
        a = S.pick(S.u32('a', 0, hi - lo)) + lo
        program(S, data, at, 0, 0, [(op, a, []), (TELL, 0, []), (EOF_, 0, [])])
    return body


def simple(op, top, lo=0, hi=0, size=0):
    def body(S):
        """one operation with a small argument"""
        data, at = state(S, top)
        a = S.pick(S.u32('a', lo, hi))
        e = S.pick(S.u32('e', 0, 1))
        if op == ALIGN:
            S.assume(S.ule(at + -at % a, len(data)))
        if size:
            S.assume(S.ule(a + size, len(data)))
        d = [S.u8('d%d' % i) for i in range(8)]
        program(S, data, at, e, e, [(op, a, d)])
    return body


def readat(top, m):
    def body(S):
        """a positioned read gives the bytes that exist there, reports how many, and leaves the cursor alone"""
        data, at = state(S, top)
        a = S.pick(S.u32('a', 0, m))
        p = S.pick(S.u32('p', 0, len(data) + 2))
        if p == len(data):
            S.assume(S.ult(0, p))       # an empty stream has no storage to point into
        program(S, data, at, 0, 0, [(READ_AT, a, [p])])
    return body


def writeat(top, m):
    def body(S):
        """a positioned write grows the stream with zeros where needed, stores exactly its bytes, and leaves the cursor alone"""
        data, at = state(S, top)
        a = S.pick(S.u32('a', 1, m))
        p = S.pick(S.u32('p', 0, len(data) + 3))
        program(S, data, at, 0, 0, [(WRITE_AT, a, [p] + [S.u8('d%d' % i) for i in range(8)])])
    return body


def adjust(op):
    put, get, n = (PP32, GP32, 4) if op == ADJ32 else (PP64, GP64, 8)

    def body(S):
        """a reserved pointer, adjusted after more data was written, reads back as the size of the stream at that moment"""
        e = S.pick(S.u32('e', 0, 1))
        k = S.pick(S.u32('k', 0, 3))
        j = S.pick(S.u32('j', 0, 6))
        data = [S.u8('b%d' % i) for i in range(k)]
        d = [S.u8('d%d' % i) for i in range(8)]
        out, m = program(S, data, k, e, e, [(put, 0, []), (WRITE, j, d), (op, k, []), (TOP, k, []), (get, 0, [])])
        S.claim('target', S.eq(out[W * 4], k + n + j))
        S.claim('place', S.eq(out[0], k))
    return body


def string(m):
    def body(S):
        """a string written is read back whole, for every content including zero bytes, and the cursor ends behind it"""
        e = S.pick(S.u32('e', 0, 1))
        a = S.pick(S.u32('a', 0, m))
        d = [S.u8('d%d' % i) for i in range(8)]
        out, s = program(S, [], 0, e, e, [(PUTSTR, a, d), (0, 0, [S.u8('mark')]), (TOP, 0, []), (GETSTR, 0, []), (TELL, 0, [])])
        S.claim('length', S.eq(out[W * 3], a))
        for i in range(a):
            S.claim('char%d' % i, S.eq(out[W * 3 + 1 + i], d[i]))
        S.claim('behind', S.eq(out[W * 4], len(s.b) - 1))
    return body


def getstring(top):
    def body(S):
        """a string whose stored length runs past the end is read as far as it goes and no memory outside is touched"""
        n = S.pick(S.u32('n', 0, top))
        data = [S.u8('b%d' % i) for i in range(n)]
        S.assume(S.ule(S.word(([S.byte(x, 0) for x in data] + [0] * 4)[:4]), 10))
        program(S, data, 0, 0, 0, [(GETSTR, 0, [])])
    return body


SEQ = [0, 2, 4, 6, 10, 12, 15, 19, TOP, CUR, END, EOF_, GET_AT, PUT_AT, READ, WRITE, READ_AT, WRITE_AT, ALIGN, PP32, ADJ32, PUTSTR, RD, WR, PUTSUB, GETSUB]
SEQ3 = [0, 4, 12, TOP, CUR, END, PUT_AT, READ, WRITE, WRITE_AT, ALIGN, ADJ32, WR, PUTSUB]


def args(S, k, op, m):
    """a legal argument for op in the model's present state, or reject the path"""
    n, p = len(m.b), m.p
    d = [S.u8('d%d_%d' % (k, i)) for i in range(3)]
    if op in PUT:
        return 0, bits(S, 'v%d' % k, op)
    if op - 10 in PUT or op in (EOF_, PP32):
        return 0, d
    lo, hi = {TOP: (0, n), CUR: (-p, n - p), END: (-1, n - 1), GET_AT: (0, n), PUT_AT: (0, n + 1), READ: (0, 2), WRITE: (0, 2), READ_AT: (0, 2), WRITE_AT: (1, 2),
              ALIGN: (1, 4), ADJ32: (0, n - 4), PUTSTR: (0, 1), RD: (0, 1), WR: (0, 1), PUTSUB: (0, 3), GETSUB: (0, 2)}[op]
    if hi < lo:
        S.assume(0)
    a = lo + S.pick(S.u32('a%d' % k, 0, hi - lo))
    if op == ALIGN:
        S.assume(int(p + -p % a <= n))
    if op in (READ_AT, WRITE_AT):
        q = S.pick(S.u32('q%d' % k, 0, n + 1))
        if op == READ_AT:
            S.assume(int(q != n or n > 0))
        return a, [q] + d
    if op == PUTSUB:
        d = d + [0] * 5
    return a, d


def sequence(first, ops, length, top, low):
    def body(S):
        """every sequence of operations agrees with the model in every result and in the final state"""
        data, at = state(S, top, low)
        m = Model(S, [S.byte(x, 0) for x in data], at, 0, 0)
        prog = []
        for k in range(length):
            op = first[k] if k < len(first) else ops[S.pick(S.u32('o%d' % k, 0, len(ops) - 1))]
            a, d = args(S, k, op, m)
            m.step(op, a, list(d) + [0] * 8)
            prog.append((op, a, d))
        program(S, data, at, 0, 0, prog)
    return body


def big(size, at, op):
    def body(S):
        """one operation far into a large stream"""
        e = S.pick(S.u32('e', 0, 1))
        b = [S.u8('b%d' % i) for i in range(12)]
        d = [S.u8('d%d' % i) for i in range(8)]
        start = min(at, size - 12)
        if op in (ADJ32, ADJ64):
            bigprogram(S, size, start, b, at, e, [(op, start, []), (TOP, start, []), (GP32 if op == ADJ32 else GP64, 0, [])])
            return
        if op in PUT:
            o, a, d = op, 0, bits(S, 'v', op)
        elif op - 10 in PUT:
            o, a, d = op, 0, []
        else:
            o, a = op, {TOP: at - 3, CUR: -5, END: size - at, SEEKTO: at - 2, GET_AT: start + 3, PUT_AT: at + 2, READ: 6, WRITE: 6, READ_AT: 5, WRITE_AT: 6, ALIGN: 4, PUTSTR: 5, PUTSUB: 5, GETSUB: 5}.get(op, 0)
            if op == READ_AT:
                d = [start + 2]
            if op == WRITE_AT:
                d = [at + 1] + d
        bigprogram(S, size, start, b, at, e, [(o, a, d), (TELL, 0, []), (EOF_, 0, [])])
    return body


def longtext(n):
    def body(S):
        """a long string comes back whole"""
        e = S.pick(S.u32('e', 0, 1))
        d = [S.u8('d%d' % i) for i in range(8)]
        o = S.call('ms_text', d, 5, [n, e])
        for k, v in enumerate((n + 5, n + 5, n, n + 5, 0)):
            S.claim(('cursor', 'size', 'length', 'behind', 'content')[k], S.eq(o[k], v))
    return body


BIG = list(range(20)) + [TOP, CUR, END, SEEKTO, GET_AT, PUT_AT, READ, WRITE, READ_AT, WRITE_AT, ALIGN, PP32, GP32, PP64, GP64, ADJ32, ADJ64, PUTSTR, PUTSUB, GETSUB]


def jobs(tier):
    t = tier == 'thorough'
    N, M = (9, 8) if t else (6, 6)
    out = [BJob('seek%d' % op, seek(op, N), asan=True) for op in (TOP, CUR, END, SEEKTO)]
    for nm, op, lo, hi, sz in (('get_at', GET_AT, 0, N + 3, 0), ('put_at', PUT_AT, 0, N + 3, 0), ('read', READ, 0, M, 0), ('write', WRITE, 0, M, 0), ('align', ALIGN, 1, 8, 0),
                               ('putSubstr', PUTSUB, 0, M, 0), ('getSubstr', GETSUB, 0, M, 0), ('putPointer32', PP32, 0, 0, 0), ('getPointer32', GP32, 0, 0, 0),
                               ('putPointer64', PP64, 0, 0, 0), ('getPointer64', GP64, 0, 0, 0), ('adjust32', ADJ32, 0, N, 4), ('adjust64', ADJ64, 0, N + 3, 8),
                               ('init', INIT, 0, M, 0)):
        out.append(BJob(nm, simple(op, N + (4 if sz == 8 else 0), lo, hi, sz), asan=True))
    out += [BJob('read_at', readat(N, M), asan=True), BJob('write_at', writeat(N, M), asan=True), BJob('pointer32', adjust(ADJ32), asan=True),
            BJob('pointer64', adjust(ADJ64), asan=True), BJob('string', string(M), asan=True), BJob('get_string', getstring(12), asan=True)]
    for o in SEQ:
        out.append(BJob('sequence.%d' % o, sequence([o], SEQ, 2, *((5, 4) if o == ADJ32 else (2, 0))), asan=True, max_paths=400000))
    for size, at in ((300, 257), (0x12345, 0x12341)) + (((0x1234, 0x1001), (0x12345, 0x8003), (0x12345, 0xfffe), (256, 255)) if t else ()):
        for o in BIG:
            out.append(BJob('big%d.%d.%d' % (size, at, o), big(size, at, o), asan=True, max_instr=20_000_000))
    out += [BJob('text%d' % n, longtext(n), asan=True, max_instr=40_000_000) for n in (126, 127, 254, 255, 256, 700) + ((65535, 70000) if t else ())]
    if t:
        for o in SEQ3:
            for o2 in SEQ3:
                out.append(BJob('sequence3.%d.%d' % (o, o2), sequence([o, o2], SEQ3, 3, *((5, 4) if o == ADJ32 or o2 == ADJ32 else (2, 0))), asan=True, max_paths=400000))
    return out
