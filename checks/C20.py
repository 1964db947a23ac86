"""Planck's law and the black-body spectrum."""
from .common import *
HARNESS = 'spectrum.cpp'
BOUNDS = 'every temperature in [500,30000] K and every wavelength in [200,3000] nm except T < 1000 with wavelength < 300 (Planck law); every temperature in [1000,20000] K at every one of the 400 wavelengths (black body; quick tier: every fifth)'
OUTSIDE = 'other temperatures and wavelengths; a relative deviation below 1e-4'
BUDGET = {'quick': 240, 'thorough': 900}
ASSUME = ['physical constants h = 6.62606896e-34, c = 299792458, k = 1.3806488e-23 (their product hc/k taken as 1.438776827e-2 m K)']
H, C, K = Fraction('6.62606896e-34'), Fraction(299792458), Fraction('1.3806488e-23')


def law(S, T, m):
    """2hc^2/m^5/(exp(hc/(k m T))-1), per nanometre; m in metres"""
    return S.lit(2 * H * C * C / 10 ** 9) * S.pow(m, -5) / (S.exp(S.lit(Fraction(1.438776827e-2)) / (m * T)) - S.lit(1))


def planck(t0, t1, l0, l1):
    def body(S):
        """the spectral radiance is Planck's law, per nanometre"""
        T, l = S.inp('T', t0, t1), S.inp('nm', l0, l1)
        o = S.val(S.call('s_planck', [T, l], 1)[0])
        S.close('planck', o, law(S, S.val(T), S.val(l) * S.lit(Fraction(1e-9))), rel='1e-4', scale=o)
        S.nonneg('sign', o)
    return body


def body_(t0, t1, idx):
    def body(S):
        """sample i of the black-body spectrum is Planck's law at 380 + i nm"""
        T = S.inp('T', t0, t1)
        o = S.vals(S.call('s_blackbody', [T], 400))
        for i in idx:
            S.close('s%d' % i, o[i], law(S, S.val(T), S.lit(Fraction((380.0 + i) * 1e-9))), rel='1e-4', scale=o[i])
    return body


def jobs(tier):
    out = []
    ts = (500, 1000, 2000, 4000, 8000, 16000, 30000)
    for a, b in zip(ts, ts[1:]):
        for c, d in ((200, 300), (300, 400), (400, 550), (550, 750), (750, 1500), (1500, 3000)):
            if a * c >= 150000:        # below, the radiance is no binary32 normal number
                out.append(J('planck.%d.%d' % (a, c), planck(a, b, c, d), symerr=True))
    ts = (1000, 2000, 4000, 8000, 20000)
    for a, b in zip(ts, ts[1:]):
        for k in range(0, 400, 50):
            out.append(J('blackbody.%d.%d' % (a, k), body_(a, b, range(k, k + 50) if tier == 'thorough' else list(range(k, k + 50, 5)) + [k + 49]), symerr=True, max_terms=2000))
    return out
