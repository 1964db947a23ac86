"""Hash-consed expression DAG produced by the symbolic executor, plus concrete IEEE helpers."""
import ctypes
import math
import struct
from fractions import Fraction

_tab = {}


class Node:
    __slots__ = ('op', 'args', 'ty', 'id')

    def __repr__(self):
        return show(self)


def _key(a):
    if isinstance(a, Node):
        return a.id
    if isinstance(a, float):
        return ('f', a.hex())
    if isinstance(a, bool):
        return ('i', int(a))
    if isinstance(a, int):
        return ('i', a)
    if isinstance(a, Fraction):
        return ('q', a)
    return ('s', a)


def mk(op, ty, *args):
    k = (op, ty) + tuple(_key(a) for a in args)
    n = _tab.get(k)
    if n is None:
        n = Node()
        n.op = op
        n.ty = ty
        n.args = args
        n.id = len(_tab)
        _tab[k] = n
    return n


def reset():
    _tab.clear()


def show(n, d=6):
    if not isinstance(n, Node):
        return repr(n)
    if n.op == 'var':
        return n.args[0]
    if d == 0:
        return '#%d' % n.id
    return '%s(%s)' % (n.op, ', '.join(show(a, d - 1) if isinstance(a, Node) else str(a) for a in n.args))


def is_c(v):
    return not isinstance(v, Node)


# ------------------------------------------------------------------ concrete arithmetic
def f32(x):
    return ctypes.c_float(x).value


def rnd(x, ty):
    return ctypes.c_float(x).value if ty == 'f32' else x


def fdiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, math.copysign(1, a) * math.copysign(1, b))


def fbin(op, ty, a, b):
    if op == 'fadd':
        r = a + b
    elif op == 'fsub':
        r = a - b
    elif op == 'fmul':
        r = a * b
    elif op == 'fdiv':
        r = fdiv(a, b)
    else:
        r = libm('fmod', ty, a, b)
    return ctypes.c_float(r).value if ty == 'f32' else r


_libm = ctypes.CDLL('libm.so.6')
_lc = {}


def libm(name, ty, *args):
    """The C library's own function (name without the f suffix)."""
    k = (name, ty)
    f = _lc.get(k)
    if f is None:
        f = getattr(_libm, name + ('f' if ty == 'f32' else ''))
        t = ctypes.c_float if ty == 'f32' else ctypes.c_double
        f.restype = t
        f.argtypes = [t] * len(args)
        _lc[k] = f
    return f(*args)


def f2bits(x, ty):
    if ty == 'f32':
        return struct.unpack('<I', bytes(ctypes.c_float(x)))[0]
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def bits2f(b, ty):
    if ty == 'f32':
        return struct.unpack('<f', struct.pack('<I', b & 0xffffffff))[0]
    return struct.unpack('<d', struct.pack('<Q', b & 0xffffffffffffffff))[0]


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


FCMP = {
    'oeq': lambda a, b: a == b, 'ogt': lambda a, b: a > b, 'oge': lambda a, b: a >= b, 'olt': lambda a, b: a < b,
    'ole': lambda a, b: a <= b, 'one': lambda a, b: a == a and b == b and a != b,
    'ueq': lambda a, b: not (a == a and b == b) or a == b, 'ugt': lambda a, b: not a <= b, 'uge': lambda a, b: not a < b,
    'ult': lambda a, b: not a >= b, 'ule': lambda a, b: not a > b, 'une': lambda a, b: not a == b,
    'ord': lambda a, b: a == a and b == b, 'uno': lambda a, b: not (a == a and b == b),
    'true': lambda a, b: True, 'false': lambda a, b: False}


# ------------------------------------------------------------------ real (specification) expressions
def q(x):
    """Exact rational from int/float/str/Fraction."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (int, float)):
        return Fraction(x)
    return Fraction(x)


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def addr(self):
        return (self.obj.base if self.obj is not None else 0) + self.off

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.obj.name if self.obj else 'null', self.off)
