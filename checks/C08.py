"""OKLAB: published definition, inverse, white and black."""
from .common import *
HARNESS = 'color.cpp'
BOUNDS = 'X,Y,Z in [0,1.2] with cone responses in [0.005,1.5]; OKLAB L in [0,1], a,b in [-0.4,0.4]'
OUTSIDE = 'cone responses below 0.005 except exact black, and negative responses'
BUDGET = {'quick': 240, 'thorough': 900}
# Ottosson, "A perceptual color space for image processing" (2020)
M1 = ['0.8189330101', '0.3618667424', '-0.1288597137', '0.0329845436', '0.9293118715', '0.0361456387', '0.0482003018', '0.2643662691', '0.6338517070']
M2 = ['0.2104542553', '0.7936177850', '-0.0040720468', '1.9779984951', '-2.4285922050', '0.4505937099', '0.0259040371', '0.7827717662', '-0.8086757660']


def cone(S, T):
    return matvec([S.f(float(x)) for x in M1], T)


def to(i):
    def body(S):
        t = [S.inp(n, 0, 1.2) for n in 'XYZ']
        T = S.vals(t)
        lms = cone(S, T)
        for v in lms:
            S.assume('ge', v, S.lit('0.005'))
        o = S.vals(S.call('oklab_to', t, 3))
        d = [S.cbrt(v) for v in lms]
        S.close('Lab'[i], o[i], matvec([S.f(float(x)) for x in M2], d)[i], abs='2e-5')
    return body


def frm(i):
    def body(S):
        # stated forwards: M1 applied to the result gives the cubed cone responses
        l = [S.inp('L', 0, 1), S.inp('a', -0.4, 0.4), S.inp('b', -0.4, 0.4)]
        o = S.vals(S.call('oklab_from', l, 3))
        L = S.vals(l)
        inv = inv3(M2)
        d = matvec([S.lit(x) for x in inv], L)
        c = matvec([S.lit(x) for x in inv3(M1)], [v * v * v for v in d])
        S.close('XYZ'[i], o[i], c[i], abs='2e-5')
    return body


def rt(i):
    def body(S):
        t = [S.inp(n, 0, 1.2) for n in 'XYZ']
        T = S.vals(t)
        for v in cone(S, T):
            S.assume('ge', v, S.lit('0.005'))
        o = S.vals(S.call('oklab_from', S.call('oklab_to', t, 3), 3))
        S.close('XYZ'[i], o[i], T[i], abs='2e-5')
    return body


def ends(S):
    z = S.inp('z', 0, 0)
    for i, v in enumerate(S.vals(S.call('oklab_to', [z, z, z], 3))):
        S.close('black.' + 'Lab'[i], v, 0, abs='1e-6')
    for i, v in enumerate(S.vals(S.call('oklab_from', [z, z, z], 3))):
        S.close('black.' + 'XYZ'[i], v, 0, abs='1e-6')
    # greys: any multiple of the D65 white has no chroma, and L is the cube root of the multiple
    k = S.inp('k', 0.01, 1)
    K = S.val(k)
    w = S.call('t_scale', [0.95047, 1.0, 1.08883, k], 3)
    o = S.vals(S.call('oklab_to', w, 3))
    S.close('grey.L', o[0], S.cbrt(K), abs='2e-4')
    S.close('grey.a', o[1], 0, abs='2e-4')
    S.close('grey.b', o[2], 0, abs='2e-4')


def jobs(tier):
    out = [J('ends', ends)]
    for i in range(3):
        out += [J('XYZ->OKLAB.' + 'Lab'[i], to(i)), J('OKLAB->XYZ.' + 'XYZ'[i], frm(i)),
                J('roundtrip.' + 'XYZ'[i], rt(i), cuts=('cbrt',))]
    return out
