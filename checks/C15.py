"""Camera log transfer functions S-Log, S-Log2, S-Log3."""
from .otf import *
from engine.expr import f32
HARNESS = 'color.cpp'
BOUNDS = 'scene values in [-1,20] (S-Log: [0,10], pinned outside), signals in [0,1] (S-Log to 1.09)'
OUTSIDE = 'scene values beyond 20; S-Log3 of scene values below -0.014'
BUDGET = {'quick': 240, 'thorough': 600}


def low(lo, hi):
    def body(S):
        """S-Log2 signals below the black level decode to zero."""
        v = S.inp('v', lo, hi)
        S.close('zero', S.val(call(S, 'SLog2', v, True)), S.lit(0), abs='0')
    return body


def black(n, back=False):
    def body(S):
        x = S.inp('x', 0, 0)
        S.close('black', S.val(call(S, n, x)), S.lit({'SLog': '0.0300', 'SLog2': '0.08816', 'SLog3': '0.092864'}[n]), abs='2e-5')
        x = S.inp('y', f32(0.2 if n == 'SLog2' else 0.18), f32(0.2 if n == 'SLog2' else 0.18))
        S.close('grey', S.val(call(S, n, x)), S.lit({'SLog': '0.360', 'SLog2': '0.33914', 'SLog3': '0.410557'}[n]), abs='5e-4')
    return body


def jobs(tier):
    out = []
    # scene value at which each signal range begins: black level
    out += [J('SLog.encode', conform('SLog', 0, 10, abs='2e-6')), J('SLog.high', flat('SLog', 10, 100, False, '1.08', '1e-4')),
            J('SLog.low', flat('SLog', -10, 0, False, '0.03', '1e-4')),
            J('SLog.decode', conform('SLog', 0, 1.09, True, abs='4e-5')), J('SLog.decode(encode)', around('SLog', 0, 10, abs='1e-4')),
            J('SLog.encode(decode)', around('SLog', 0.04, 1.08, True, abs='8e-6')), J('SLog.rising', rising('SLog', -1, 12, tol='2e-6'))]
    out += [J('SLog2.encode', conform('SLog2', -1, 20, abs='2e-6')), J('SLog2.decode', conform('SLog2', 0.0895, 1, True, abs='4e-5')),
            J('SLog2.decode.low', low(-1, 0.088)), J('SLog2.decode(encode)', around('SLog2', 0, 14, abs='2e-4')),
            J('SLog2.encode(decode)', around('SLog2', 0.0895, 1, True, abs='8e-6')), J('SLog2.rising', rising('SLog2', -0.5, 14, tol='4e-6'))]
    out += [J('SLog3.encode', conform('SLog3', -0.014, 20, abs='2e-6')), J('SLog3.decode', conform('SLog3', 0, 1, True, abs='2e-4')),
            J('SLog3.decode(encode)', around('SLog3', -0.014, 20, abs='2e-4')), J('SLog3.encode(decode)', around('SLog3', 0, 1, True, abs='8e-6')),
            J('SLog3.rising', rising('SLog3', -0.014, 20, tol='4e-6'))]
    return out + [J(n + '.levels', black(n)) for n in ('SLog', 'SLog2', 'SLog3')]
