"""sRGB, BT.709 and pure gamma transfer functions."""
from .otf import *
HARNESS = 'color.cpp'
BOUNDS = 'every input in [-10,10] for sRGB and BT.709 (definition on [0,1], pinned outside); gamma: values in [0,2] (definition: [0.001,2]) with exponents 1, 1.8, 2.2, 2.4, 2.6'
OUTSIDE = 'gamma of values below 1e-6; inputs beyond 10 in magnitude; the round trip at the two-ulp-wide seam where published thresholds of the two directions do not meet is held to the wider tolerance 2e-5 (sRGB) and 5e-4 (BT.709)'
BUDGET = {'quick': 240, 'thorough': 600}


def jobs(tier):
    out = []
    for n, seam in (('sRGB', '3e-5'), ('BT709', '1e-3')):
        out += [J(n + '.encode', conform(n, 0, 1, abs='6e-7')), J(n + '.decode', conform(n, 0, 1, True, abs='1e-6')),
                J(n + '.encode.low', flat(n, -10, -1e-30, False, 0)), J(n + '.encode.high', flat(n, 1.0000001, 10, False, 1)),
                J(n + '.decode.low', flat(n, -10, -1e-30, True, 0)), J(n + '.decode.high', flat(n, 1.0000001, 10, True, 1)),
                J(n + '.decode(encode)', around(n, 0, 1, abs=seam)), J(n + '.encode(decode)', around(n, 0, 1, True, abs=seam)),
                J(n + '.rising', rising(n, -0.5, 1.5)), J(n + '.decode.rising', rising(n, -0.5, 1.5, True, tol='4e-6' if n == 'sRGB' else '1e-4'))]
        t = 0.0031308 if n == 'sRGB' else 0.018
        v = 0.04045 if n == 'sRGB' else 0.081
        out += [J(n + '.decode(encode).lower', around(n, 0, t * 0.99, abs='1e-8')), J(n + '.decode(encode).upper', around(n, t * 1.01, 1, abs='2e-6')),
                J(n + '.encode(decode).lower', around(n, 0, v * 0.99, True, abs='1e-7')), J(n + '.encode(decode).upper', around(n, v * 1.01, 1, True, abs='2e-6'))]
    for g in (1.0, 1.8, 2.2, 2.4, 2.6):
        from engine.expr import f32
        g = f32(g)
        out += [J('gamma%.1f.encode' % g, conform('gamma', 0.001, 2, g=g, abs='2e-6')), J('gamma%.1f.decode' % g, conform('gamma', 0.001, 2, True, g=g, abs='4e-6')),
                J('gamma%.1f.decode(encode)' % g, around('gamma', 1e-6, 2, g=g, abs='6e-6')), J('gamma%.1f.encode(decode)' % g, around('gamma', 0.01, 2, True, g=g, abs='6e-6'))]
    return out
