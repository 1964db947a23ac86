"""MemoryStream: numbers written are the numbers read back, in the byte order asked for."""
from .stream import *
HARNESS = 'stream.cpp'
BOUNDS = 'every value of every width (8 to 64 bits, float and double as bit patterns), both byte orders for reading and writing, every buffer of 0 to 9 bytes (thorough: 0 to 14) with any content, every cursor in it; round trips of two values in sequence'
OUTSIDE = 'buffers longer than that; signalling-NaN bit patterns are compared as bits'
BUDGET = {'quick': 240, 'thorough': 600}
NM = {0: 9, 1: 14}


def state(S, top, low=0):
    n = S.pick(S.u32('n', low, top))
    at = S.pick(S.u32('at', 0, n))
    return [S.u8('b%d' % i) for i in range(n)], at


def bits(S, name, op):
    n = PUT[op][1]
    return [S.u32(name), S.u32(name + 'h')] if n == 8 else [S.u32(name)]


def put(op, wr, top):
    def body(S):
        """writing a number lays its bytes at the cursor in the write order, touches no other byte, and moves the cursor past it"""
        data, at = state(S, top)
        program(S, data, at, 1 - wr, wr, [(op, 0, bits(S, 'v', op))])
    return body


def get(op, rd, top):
    def body(S):
        """reading a number takes its bytes from the cursor in the read order; past the end zeros are read; nothing is modified"""
        data, at = state(S, top)
        program(S, data, at, rd, 1 - rd, [(op + 10, 0, [])])
    return body


def trip(op, op2, e):
    def body(S):
        """two numbers written in a row are read back in a row"""
        v, w = bits(S, 'v', op), bits(S, 'w', op2)
        out, m = program(S, [], 0, e, e, [(op, 0, v), (op2, 0, w), (TOP, 0, []), (op + 10, 0, []), (op2 + 10, 0, []), (EOF_, 0, [])])
        for k, o, x in ((3, op, v), (4, op2, w)):
            n = PUT[o][1]
            if n == 8:
                S.claim('hi%d' % k, S.eq(out[W * k + 1], x[1]))
            t = S.trunc(x[0], 32, 8 * n) if n < 4 else x[0]
            if n < 4:
                t = S.sext(t, 8 * n, 32) if o in SIGNED else S.zext(t, 8 * n, 32)
            S.claim('lo%d' % k, S.eq(out[W * k], t))
        S.claim('eof', S.eq(out[W * 5], 1))
    return body


def default(S):
    """a new stream reads and writes little-endian"""
    v = S.u32('v')
    out, m = program(S, [], 0, -1, -1, [(4, 0, [v]), (TOP, 0, []), (14, 0, [])])
    for i in range(4):
        S.claim('le%d' % i, S.eq(out[W * 3 + 2 + i], S.zext(S.byte(v, i), 8, 32)))


def jobs(tier):
    t = tier == 'thorough'
    out = [BJob('default', default)]
    for op in PUT:
        for e in (0, 1):
            out.append(BJob('put%s.%d' % (PUT[op][0], e), put(op, e, NM[t]), asan=True))
            out.append(BJob('get%s.%d' % (PUT[op][0], e), get(op, e, NM[t]), asan=True))
            for op2 in (PUT if t else (op, (op + 3) % 10)):
                out.append(BJob('trip.%s.%s.%d' % (PUT[op][0], PUT[op2][0], e), trip(op, op2, e)))
    return out
