"""Published transfer functions, written as real-number specifications."""
from .common import *
TO = {'sRGB': 0, 'BT709': 2, 'ST2084': 4, 'SLog': 6, 'SLog2': 8, 'SLog3': 10, 'HLG': 12, 'gamma': 14}


def F(S, x):
    return S.f(float(x))


def enc(S, n, x, g=None):
    """scene -> signal; x real, inside the function's stated domain."""
    if n == 'gamma':
        return S.pow(x, 1 / g)
    if n == 'sRGB':
        if S.lt(x, F(S, '0.0031308')):
            return x * F(S, '12.92')
        return F(S, '1.055') * S.pow(x, 1 / S.lit('2.4')) - F(S, '0.055')
    if n == 'BT709':
        if S.lt(x, F(S, '0.018')):
            return x * S.lit('4.5')
        return F(S, '1.099') * S.pow(x, S.lit('0.45')) - F(S, '0.099')
    if n == 'ST2084':
        m = S.pow(x / 100, S.lit('0.1593017578125'))
        return S.pow((S.lit('0.8359375') + S.lit('18.8515625') * m) / (1 + S.lit('18.6875') * m), S.lit('78.84375'))
    if n == 'HLG':
        if S.lt(x, 1):
            return S.sqrt(x) / 2
        return F(S, '0.17883277') * S.log(x - F(S, '0.28466892')) + F(S, '0.55991073')
    if n == 'SLog':
        return F(S, '0.432699') * S.log10(x + S.lit(0.037584)) + S.lit('0.616596') + S.lit('0.03')
    if n == 'SLog2':
        if S.lt(x, 0):
            y = x * F(S, '3.53881278538813') + F(S, '0.030001222851889303')
        else:
            y = F(S, '0.432699') * S.log10(155 * x / 219 + F(S, '0.037584')) + F(S, '0.616596') + F(S, '0.03')
        return (64 + 876 * y) / 1024
    if n == 'SLog3':
        if S.lt(F(S, '0.01125'), x):
            return (420 + F(S, '261.5') * S.log10((x + F(S, '0.01')) / F(S, '0.19'))) / 1023
        return (x * (F(S, '171.2102946929') - 95) / F(S, '0.01125') + 95) / 1023


def dec(S, n, v, g=None):
    """signal -> scene."""
    if n == 'gamma':
        return S.pow(v, g)
    if n == 'sRGB':
        if S.lt(v, F(S, '0.04045')):
            return v / F(S, '12.92')
        return S.pow((v + F(S, '0.055')) / F(S, '1.055'), S.lit('2.4'))
    if n == 'BT709':
        if S.lt(v, F(S, '0.081')):
            return v / S.lit('4.5')
        return S.pow((v + F(S, '0.099')) / F(S, '1.099'), 1 / S.lit('0.45'))
    if n == 'ST2084':
        p = S.pow(v, 1 / S.lit('78.84375'))
        return 100 * S.pow((p - S.lit('0.8359375')) / (S.lit('18.8515625') - S.lit('18.6875') * p), 1 / S.lit('0.1593017578125'))
    if n == 'HLG':
        if S.le(v, S.lit('0.5')):
            return 4 * v * v
        return S.exp((v - F(S, '0.55991073')) / F(S, '0.17883277')) + F(S, '0.28466892')
    if n == 'SLog':
        return S.fn('exp10', (v - F(S, '0.616596') - F(S, '0.03')) / F(S, '0.432699')) - F(S, '0.037584')
    if n == 'SLog2':
        x = (v * 1024 - 64) / 876
        return 219 * (S.fn('exp10', (x - F(S, '0.616596') - F(S, '0.03')) / F(S, '0.432699')) - F(S, '0.037584')) / 155
    if n == 'SLog3':
        if S.lt(F(S, '171.2102946929') / 1023, v):
            return S.fn('exp10', (v * 1023 - 420) / F(S, '261.5')) * F(S, '0.19') - F(S, '0.01')
        return (v * 1023 - 95) * S.lit('0.01125') / (F(S, '171.2102946929') - 95)


def call(S, n, x, back=False, g=None):
    return S.call('otf_fn', [x] + ([g] if g is not None else []), 1, [TO[n] + (1 if back else 0)])[0]


def conform(n, lo, hi, back=False, g=None, **tol):
    def body(S):
        x = S.inp('v' if back else 'x', lo, hi)
        gg = S.inp('g', *g) if isinstance(g, tuple) else g
        o = S.val(call(S, n, x, back, gg))
        e = (dec if back else enc)(S, n, S.val(x), None if g is None else (S.val(gg) if isinstance(g, tuple) else S.lit(gg)))
        S.close('value', o, e, **tol)
    return body


def around(n, lo, hi, back=False, g=None, **tol):
    """decode(encode(x)) = x, or with back encode(decode(v)) = v"""
    def body(S):
        x = S.inp('v' if back else 'x', lo, hi)
        o = S.val(call(S, n, call(S, n, x, back, g), not back, g))
        S.close('same', o, S.val(x), **tol)
    return body


def flat(n, lo, hi, back, value, tol='4e-7'):
    """Outside the stated domain the result is pinned."""
    def body(S):
        x = S.inp('x', lo, hi)
        S.close('pinned', S.val(call(S, n, x, back)), S.lit(value), abs=tol)
    return body


def rising(n, lo, hi, back=False, g=None, tol='1e-6'):
    def body(S):
        x, y = S.inp('x', lo, hi), S.inp('y', lo, hi)
        S.assume('le', S.val(x), S.val(y))
        S.claim_le('rising', S.val(call(S, n, x, back, g)), S.val(call(S, n, y, back, g)) + S.lit(tol))
    return body
