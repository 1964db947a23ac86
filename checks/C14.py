"""PQ (SMPTE ST 2084) and hybrid log-gamma transfer functions."""
from .otf import *
HARNESS = 'color.cpp'
BOUNDS = 'PQ: scene values in [-10,200] (definition on [1e-6,100], 1 = 100 cd/m2), signals in [0.001,1], and next to black (signals below 7e-7 are black, below 0.001 dark; scene values below 1e-6 dark); HLG: scene values in [-10,12], signals in [-1,1]'
OUTSIDE = 'relative accuracy of PQ scene values in (0,1e-6) and signals in (0,0.001), where the binary32 computation loses all relative accuracy'
BUDGET = {'quick': 240, 'thorough': 600}


def ends(S):
    z, o = S.inp('z', 0, 0), S.inp('o', 1, 1)
    S.close('pq0', S.val(call(S, 'ST2084', z, True)), S.lit(0), abs='1e-9')
    S.close('pq1', S.val(call(S, 'ST2084', o, True)), S.lit(100), abs='0.06')
    S.close('hlg0', S.val(call(S, 'HLG', z)), S.lit(0), abs='1e-9')
    S.close('hlg12', S.val(call(S, 'HLG', S.inp('t', 12, 12))), S.lit(1), abs='1e-6')
    S.close('hlg1', S.val(call(S, 'HLG', o)), S.lit('0.5'), abs='1e-6')
    S.close('hlgi1', S.val(call(S, 'HLG', o, True)), S.lit(12), abs='2e-5')


def dark(back, hi, top):
    def body(S):
        """next to black the result stays next to black"""
        o = S.val(call(S, 'ST2084', S.inp('x', 0, hi), back))
        S.nonneg('sign', o)
        S.claim_le('dark', o, S.lit(top))
    return body


def jobs(tier):
    out = [J('ends', ends)]
    n = 'ST2084'
    for k, (a, b) in enumerate(((1e-6, 1e-4), (1e-4, 0.01), (0.01, 1), (1, 99.999))):
        out += [J('PQ.encode%d' % k, conform(n, a, b, abs='1e-4')), J('PQ.decode(encode)%d' % k, around(n, a, b, abs='%g' % (b * 2e-3)))]
    for k, (a, b) in enumerate(((0.001, 0.05), (0.05, 0.3), (0.3, 0.7), (0.7, 0.9999))):
        hi = (4e-5, 0.03, 10, 100)[k]
        out += [J('PQ.decode%d' % k, conform(n, a, b, True, abs='%g' % (hi * 2e-3))), J('PQ.encode(decode)%d' % k, around(n, a, b, True, abs='2e-3'))]
    out += [J('PQ.black', flat(n, 0, 7e-7, True, 0, '1e-12')), J('PQ.decode.dark', dark(True, 0.001, '5e-7')), J('PQ.dark', dark(False, 1e-6, '1.8e-3')), J('PQ.low', flat(n, -10, 0, False, 0, '1e-6')), J('PQ.high', flat(n, 100, 200, False, 1)),
            J('HLG.encode', conform('HLG', 0, 12, abs='1e-6')), J('HLG.decode', conform('HLG', 0, 1, True, abs='2e-5')),
            J('HLG.low', flat('HLG', -10, -1e-30, False, 0)), J('HLG.decode.low', flat('HLG', -1, -1e-30, True, 0)),
            J('HLG.decode(encode)', around('HLG', 0, 12, abs='6e-5')), J('HLG.encode(decode)', around('HLG', 0, 1, True, abs='4e-6')),
            J('HLG.rising', rising('HLG', -0.5, 12)), J('HLG.decode.rising', rising('HLG', -0.5, 1, True, tol='4e-5')),
            J('PQ.rising', rising(n, 0.001, 100, tol='2e-4'))]
    return out
