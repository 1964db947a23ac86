"""Observers: tristimulus integrals, normalisation, monochromatic flux, and the colour chart under any light."""
from .common import *
from .C18 import vec, fixed, total, R
HARNESS = 'spectrum.cpp'
BOUNDS = 'all three standard observers: all 400 samples of the spectrum (or of reflectance, or of light) free in [0,4] with the other factor an irregular fixed spectrum, and eight-sample windows with both free; user-made observers with all samples of one function free in [0.5,2]; monochromatic flux and colour at every wavelength in 5 nm windows over [375,785] (all in thorough, every third in quick) with power in [0,100]; the 24 chart patches with all 400 light samples free in [0,2]'
OUTSIDE = 'negative spectra; the published values of the colour-matching tables themselves (taken from the code, see C29)'
BUDGET = {'quick': 240, 'thorough': 900}
NAMES = ('CIE1931', 'CIE31JV', 'CIE2012')


def tables(S, k):
    t = [S.vals(S.call('o_table', [], R, [k, c])) for c in range(3)]
    return t, [total(x) for x in t]


def pos(k):
    return [abs(x) for x in fixed(k)]


def spectrum(k):
    def body(S):
        """X = sum(s x)/sum(x), and the same for Y and Z: every wavelength counted once with its weight"""
        s = vec(S, 's', 0, 4)
        o = S.vals(S.call('o_spectrum', s, 3, [k]))
        t, n = tables(S, k)
        V = S.vals(s)
        for c in range(3):
            S.close('XYZ'[c], o[c], total([x * y for x, y in zip(V, t[c])]) / n[c], abs='2e-4')
    return body


def reflect(k, j, w):
    def body(S):
        """X = sum(r l x)/sum(x), and the same for Y and Z"""
        v = [pos(1), pos(2)]
        if w is None:
            v[j] = vec(S, 's', 0, 4)
        else:
            for i in range(w, min(R, w + 8)):
                v[0][i], v[1][i] = S.inp('r%d' % i, 0, 1), S.inp('l%d' % i, 0, 4)
        o = S.vals(S.call('o_reflect', v[0] + v[1], 3, [k]))
        t, n = tables(S, k)
        V = [S.vals(x) for x in v]
        for c in range(3):
            S.close('XYZ'[c], o[c], total([x * y * z for x, y, z in zip(V[0], V[1], t[c])]) / n[c], abs='5e-4')
    return body


def equal(k):
    def body(S):
        """an equal-energy light of level e has X = Y = Z = e, and so has a reflectance e under unit light"""
        e = S.inp('e', 0, 100)
        for nm, ins in (('o_spectrum', [e] * R), ('o_reflect', [e] * R + [1.0] * R), ('o_reflect', [1.0] * R + [e] * R)):
            o = S.vals(S.call(nm, ins, 3, [k]))
            for c in range(3):
                S.close('XYZ'[c], o[c], S.val(e), abs='2e-2', )
    return body


def custom(j, r):
    def body(S):
        """a user-made observer normalises each channel by the sum of its own function"""
        f = [pos(3), pos(4), pos(5)]
        f[j] = vec(S, 'f', 0.5, 2)
        s, l = pos(1), pos(2)
        o = S.vals(S.call('o_customr' if r else 'o_custom', s + (l if r else []) + f[0] + f[1] + f[2], 3))
        V = [S.vals(x) for x in f]
        w = [a * b for a, b in zip(S.vals(s), S.vals(l))] if r else S.vals(s)
        for c in range(3):
            n = total(V[c])
            S.close('XYZ'[c], o[c] * n, total([x * y for x, y in zip(w, V[c])]), abs='0.5')
    return body


def integrate(j, three):
    def body(S):
        """the raw integrals: dot products with each of the functions, in order"""
        v = [pos(i + 1) for i in range(5 if three else 4)]
        v[j] = vec(S, 's', 0, 4)
        o = S.vals(S.call('o_integrate3' if three else 'o_integrate', sum(v, []), 3))
        V = [S.vals(x) for x in v]
        w = [a * b for a, b in zip(V[0], V[1])] if three else V[0]
        for c in range(3):
            S.close('XYZ'[c], o[c], total([x * y for x, y in zip(w, V[c + (2 if three else 1)])]), abs='0.5')
    return body


def lerp(S, t, lam, a, b):
    """table t interpolated at lam in [a,b]"""
    x = S.val(lam) - S.lit(380)
    if S.le(x, S.lit(0)):
        return [c[0] for c in t]
    for i in range(max(0, a - 380), min(399, b - 380)):
        if S.le(x, S.lit(i + 1)):
            return [c[i] + (c[i + 1] - c[i]) * (x - S.lit(i)) for c in t]
    return [c[min(399, max(0, b - 380))] for c in t]


def mono(k, a):
    def body(S):
        """683 lm/W times the interpolated function times the power"""
        lam, w = S.inp('lambda', a, a + 5), S.inp('watt', 0, 100)
        t, n = tables(S, k)
        e = lerp(S, t, lam, a, a + 5)
        o = S.val(S.call('o_lumens', [lam, w], 1, [k])[0])
        c = S.vals(S.call('o_candelas', [lam, w], 3, [k]))
        W = S.val(w) * S.lit(683)
        S.close('lumens', o, e[1] * W, abs='8')
        for i in range(3):
            S.close('candelas.' + 'XYZ'[i], c[i], e[i] * W, abs='14')
        # colour of the wavelength, normalised like a spectrum with a single line
        x = S.vals(S.call('o_xyz', [lam], 3, [k]))
        for i in range(3):
            S.close('xyz.' + 'XYZ'[i], x[i], e[i] / n[i], abs='3e-6')
    return body


def chart(k, sel):
    def body(S):
        """the chart under a light: 24 patches, each its own reflectance times the light through the observer"""
        l = vec(S, 'l', 0, 2)
        o = S.vals(S.call('mc_reference', l, 73, [k]) if k < 3 else S.call('mc_reference0', l, 73))
        t, n = tables(S, k % 3)
        V = S.vals(l)
        S.close('count', o[0], S.lit(24), abs='0')
        for i in sel:
            p = S.vals(S.call('mc_patch', [], R, [i]))
            for c in range(3):
                S.close('patch%d.%s' % (i, 'XYZ'[c]), o[1 + 3 * i + c], total([x * y * z for x, y, z in zip(p, V, t[c])]) / n[c], abs='2e-4')
    return body


def jobs(tier):
    t = tier == 'thorough'
    out = []
    M = dict(max_terms=3000)
    for k, nm in enumerate(NAMES):
        out += [J(nm + '.spectrum', spectrum(k), **M), J(nm + '.reflectance', reflect(k, 0, None), **M), J(nm + '.light', reflect(k, 1, None), **M), J(nm + '.equal', equal(k), **M)]
        for w in (range(0, R, 8) if t else (0, 176, 392)):
            out.append(J('%s.both.%d' % (nm, w), reflect(k, 0, w), **M))
        for a in range(375, 785, 5 if t else 15):
            out.append(J('%s.mono.%d' % (nm, a), mono(k, a)))
        for b in range(0, 24, 6):
            out.append(J('%s.chart.%d' % (nm, b), chart(k, range(b, b + 6) if t else (b + k, b + k + 3)), **M))
    for b in range(0, 24, 6):
        out.append(J('default.chart.%d' % b, chart(3, range(b, b + 6)), **M))
    for j in range(3):
        out += [J('custom.%d' % j, custom(j, 0), **M), J('customr.%d' % j, custom(j, 1), **M)]
    out += [J('integrate.%d' % j, integrate(j, 0), **M) for j in range(4)] + [J('integrate3.%d' % j, integrate(j, 1), **M) for j in range(5)]
    return out
