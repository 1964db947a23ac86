"""Conversions keep no state and print nothing."""
from .common import *
HARNESS = 'color.cpp'
BOUNDS = 'every conversion of colours, transfer functions, gamuts, whites, colour temperatures and differences: first and third call on free arguments, a call on other free arguments between them, compared with each other and with a fresh process'
OUTSIDE = 'state hidden in the file system or environment; the spectrum, solver and stream parts (their checks compare results with a model and fresh state)'
BUDGET = {'quick': 400, 'thorough': 600}
W = (0.3, 0.6, 0.9, 1.1)
XYZ = [(0.01, 1.2)] * 3
# function, argument ranges, outputs, prefix arguments
FNS = [('yxy_to', XYZ, 3, (0,)), ('yxy_from', XYZ, 3, (0,)), ('yuv_to', XYZ, 3, (0,)), ('yuv_from', [(0.1, 0.9), (0.15, 0.3), (0.25, 0.35)], 3, (0,)),
       ('yxy_yuv', [(0.1, 0.9), (0.2, 0.4), (0.2, 0.4)], 3, ()), ('yuv_yxy', [(0.1, 0.9), (0.15, 0.3), (0.25, 0.35)], 3, ()),
       ('lab_to', XYZ + [(0.95, 0.96), (1, 1), (1.05, 1.1)], 3, (0,)), ('lab_from', [(20, 80), (-10, 10), (-10, 10), (0.95, 0.96), (1, 1), (1.05, 1.1)], 3, (0,)),
       ('hsv_to', XYZ, 3, (0,)), ('hsv_from', [(0, 360), (0, 1), (0, 1)], 3, (0,)), ('oklab_to', XYZ, 3, ()), ('oklab_from', [(0.2, 0.9), (-0.1, 0.1), (-0.1, 0.1)], 3, ()),
       ('ictcp_to', XYZ, 3, ()), ('ictcp_from', [(0.3, 0.6), (-0.02, 0.02), (-0.02, 0.02)], 3, ()),
       ('bradford', [(0.8, 1.1), (0.9, 1.1), (0.6, 1.2)] * 2, 9, ()), ('m_inv', [(2, 3), (-.5, .5), (-.5, .5), (-.5, .5), (2, 3), (-.5, .5), (-.5, .5), (-.5, .5), (2, 3)], 9, (0,)),
       ('m_mul', [(-4, 4)] * 18, 9, (0,)), ('m_apply', [(-4, 4)] * 12, 3, (0,)), ('ct_planckian1', [(1667, 25000)], 3, ()), ('ct_ct1', [(1000, 15000)], 3, ()),
       ('ct_cct1', [(4500, 4500), (-0.02, 0.02)], 3, ()), ('d_uv', XYZ * 2, 1, ()), ('d_e76', XYZ * 2, 1, ()), ('d_ictcp', XYZ * 2, 1, ()),
       ('d_e00', [(40, 60), (10, 20), (10, 20)] * 2, 1, ()), ('g_prim', [(.60, .70), (.30, .35), (.25, .32), (.58, .64), (.14, .16), (.05, .07), (.30, .32), (.32, .34)], 18, ())]
FNS += [('otf_fn', [(-0.2, 1.2), (2.2, 2.2)], 1, (k,)) for k in range(16)]
FNS += [('otf_screen', [(-0.2, 1.2), (0.3, 0.3), (0.6, 0.6), (2.2, 2.2)], 3, (k,)) for k in range(9)] + [('otf_scene', [(-0.2, 1.2), (0.3, 0.3), (0.6, 0.6), (2.2, 2.2)], 3, (k,)) for k in range(9)]
FNS += [('g_toxyz', [(-4, 4)] * 3, 3, (k,)) for k in range(10)] + [('g_fromxyz', [(-4, 4)] * 3, 3, (k,)) for k in range(10)]


def job(fn, rng, nout, pre):
    def body(S):
        """nothing is printed; the result depends on the arguments only"""
        A = [S.inp('a%d' % i, *r) if r[0] != r[1] else r[0] for i, r in enumerate(rng)]
        B = [S.inp('b%d' % i, *r) if r[0] != r[1] else r[0] for i, r in enumerate(rng)]
        S.pure(fn, A, B, nout, list(pre))
    return body


def jobs(tier):
    out = [J('.'.join([f] + [str(p) for p in pre]), job(f, r, n, pre)) for f, r, n, pre in FNS]
    return out
