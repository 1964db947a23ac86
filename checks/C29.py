"""Built-in data: colour-matching functions, D65, chart and sample reflectances, illuminants."""
from .common import *
HARNESS = 'data.cpp'
BOUNDS = 'every wavelength in [380,779] nm (1931 observer: within 0.001, 0.0005, 0.004 of the cubic through the published 5 nm values up to 775 nm; D65: within 0.01 of the linear interpolation of the published 10 nm values up to 770 nm; other observers and chart: bounds, smoothness or piecewise linearity on the published grid); every light for the reflectance bounds; every intensity in [0.01,100] for the whites; chart colours to 3 (of a white of 100) of the published ones'
OUTSIDE = 'published values of the Judd-Vos and 2012 observers and of the sample reflectances (only their shape is checked)'
BUDGET = {'quick': 240, 'thorough': 900}
# CIE 1931 standard observer, 5 nm (CIE 15, ISO 11664-1)
CIE = """380 .001368 .000039 .006450; 385 .002236 .000064 .010550; 390 .004243 .000120 .020050; 395 .007650 .000217 .036210; 400 .014310 .000396 .067850
405 .023190 .000640 .110200; 410 .043510 .001210 .207400; 415 .077630 .002180 .371300; 420 .134380 .004000 .645600; 425 .214770 .007300 1.039050
430 .283900 .011600 1.385600; 435 .328500 .016840 1.622960; 440 .348280 .023000 1.747060; 445 .348060 .029800 1.782600; 450 .336200 .038000 1.772110
455 .318700 .048000 1.744100; 460 .290800 .060000 1.669200; 465 .251100 .073900 1.528100; 470 .195360 .090980 1.287640; 475 .142100 .112600 1.041900
480 .095640 .139020 .812950; 485 .057950 .169300 .616200; 490 .032010 .208020 .465180; 495 .014700 .258600 .353300; 500 .004900 .323000 .272000
505 .002400 .407300 .212300; 510 .009300 .503000 .158200; 515 .029100 .608200 .111700; 520 .063270 .710000 .078250; 525 .109600 .793200 .057250
530 .165500 .862000 .042160; 535 .225750 .914850 .029840; 540 .290400 .954000 .020300; 545 .359700 .980300 .013400; 550 .433450 .994950 .008750
555 .512050 1.000000 .005750; 560 .594500 .995000 .003900; 565 .678400 .978600 .002750; 570 .762100 .952000 .002100; 575 .842500 .915400 .001800
580 .916300 .870000 .001650; 585 .978600 .816300 .001400; 590 1.026300 .757000 .001100; 595 1.056700 .694900 .001000; 600 1.062200 .631000 .000800
605 1.045600 .566800 .000600; 610 1.002600 .503000 .000340; 615 .938400 .441200 .000240; 620 .854450 .381000 .000190; 625 .751400 .321000 .000100
630 .642400 .265000 .000050; 635 .541900 .217000 .000030; 640 .447900 .175000 .000020; 645 .360800 .138200 .000010; 650 .283500 .107000 0
655 .218700 .081600 0; 660 .164900 .061000 0; 665 .121200 .044580 0; 670 .087400 .032000 0; 675 .063600 .023200 0
680 .046770 .017000 0; 685 .032900 .011920 0; 690 .022700 .008210 0; 695 .015840 .005723 0; 700 .011359 .004102 0
705 .008111 .002929 0; 710 .005790 .002091 0; 715 .004109 .001484 0; 720 .002899 .001047 0; 725 .002049 .000740 0
730 .001440 .000520 0; 735 .001000 .000361 0; 740 .000690 .000249 0; 745 .000476 .000172 0; 750 .000332 .000120 0
755 .000235 .000085 0; 760 .000166 .000060 0; 765 .000117 .000042 0; 770 .000083 .000030 0; 775 .000059 .000021 0"""
CIE = [[Fraction(x) for x in r.split()] for l in CIE.split('\n') for r in l.split(';')]
# CIE D65, 380 to 770 nm by 10 nm (ISO 11664-2)
D65 = [Fraction(x) for x in """49.9755 54.6482 82.7549 91.4860 93.4318 86.6823 104.865 117.008 117.812 114.861 115.923 108.811 109.354 107.802 104.790 107.689 104.405 104.046 100.000 96.3342 95.7880 88.6856 90.0062 89.5991 87.6987 83.2886 83.6992 80.0268 80.2146 82.2778 78.2842 69.7213 71.6091 74.3490 61.6040 69.8856 75.0870 63.5927 46.4182 66.8054""".split()]
# XYZ of the standard illuminants with Y = 1 (ASTM E308; D60: ACES TB-2014-004)
ILL = [('A', '1.09850', '0.35585'), ('B', '0.99072', '0.85223'), ('C', '0.98074', '1.18232'), ('D50', '0.96422', '0.82521'), ('D55', '0.95682', '0.92149'), ('D60', '0.95265', '1.00883'),
       ('D65', '0.95047', '1.08883'), ('D75', '0.94972', '1.22638'), ('E', '1', '1'), ('F2', '0.99186', '0.67393'), ('F7', '0.95041', '1.08747'), ('F11', '1.00962', '0.64350')]


def at(S, k, t):
    return S.val(S.call('t_at', [t], 1, [k])[0])


def published(c, q):
    def body(S):
        """the 1931 colour-matching function is the published one"""
        s = min(max(q - 1, 0), len(CIE) - 4)
        P = [(r[0], r[1 + c]) for r in CIE[s:s + 4]]
        a = CIE[q][0]
        t = S.inp('nm', float(a), float(a + 5))
        x, e = S.val(t), S.lit(0)
        for i, (u, v) in enumerate(P):
            w = S.lit(v)
            for j, (z, _) in enumerate(P):
                if i != j:
                    w = w * (x - S.lit(z)) * S.lit(1 / (u - z))
            e = e + w
        S.close('published', at(S, c, t), e, abs=('1e-3', '5e-4', '4e-3')[c])
    return body


def d65(q):
    def body(S):
        """the D65 spectrum is the published one"""
        a = 380 + 10 * q
        t = S.inp('nm', float(a), float(a + 10))
        x = S.val(t) - S.lit(a)
        S.close('published', at(S, 9, t), S.lit(D65[q]) + x * S.lit((D65[q + 1] - D65[q]) / 10), abs='0.01')
    return body


def smooth(k, tol):
    def body(S):
        """every value fits its neighbours, at every intensity of the table"""
        t = S.inp('t', 0.5, 2)
        T = [S.lit(Fraction(float(v))) for v in S.call('t_all', [], 400, [k])]
        x = S.val(t)
        for i in range(14, 398):
            p = (S.lit(4) * T[i - 1] + S.lit(4) * T[i + 1] - T[i - 2] - T[i + 2]) * S.lit(Fraction(1, 6))
            S.close('smooth%d' % i, x * T[i], x * p, abs=tol)
    return body


def inside(k, a, b, top):
    def body(S):
        """not negative, and not above the maximum"""
        S.within('range', at(S, k, S.inp('nm', float(a), float(b))), '0', top)
    return body


def linear(k, a, b, top):
    def body(S):
        """between the grid points of its publication the table is a straight line"""
        t = S.inp('nm', float(a), float(b))
        f, l, r = at(S, k, t), at(S, k, float(a)), at(S, k, float(b))
        S.within('range', f, '0', top)
        S.close('line', f * S.lit(b - a), l * (S.lit(b) - S.val(t)) + r * (S.val(t) - S.lit(a)), abs='1e-3')
    return body


def passive(k):
    def body(S):
        """under every light no more is reflected than received, and something is"""
        l = [S.inp('l%d' % i, 0, 1) for i in range(400)]
        o = S.val(S.call('t_dot', l, 1, [k])[0])
        n = S.lit(0)
        for x in S.vals(l):
            n = n + x
        S.nonneg('reflected', o + S.lit(Fraction(1, 50)))
        S.nonneg('absorbed', n - o + S.lit(Fraction(1, 50)))
    return body


def illuminant(k):
    def body(S):
        """the built-in white, at every intensity, is the published one"""
        t = S.inp('t', 0, 100)
        o = S.vals(S.call('t_ill', [t], 3, [k]))
        n, x, z = ILL[k]
        for i, v in enumerate((x, '1', z)):
            S.close('XYZ'[i], o[i], S.val(t) * S.lit(Fraction(v)), abs='1e-4')
    return body


# chromaticities of D65 for the three observers; of black bodies for the first
WHITE = (('0.3127', '0.3290'), ('0.3144', '0.3319'), ('0.3135', '0.3308'))
BODY = ((2856, '0.4476', '0.4074'), (1667, '0.5646', '0.4029'), (4000, '0.3805', '0.3768'), (6500, '0.3135', '0.3237'), (10000, '0.2807', '0.2884'))


def white(k):
    def body(S):
        """the D65 spectrum, at any intensity, has the chromaticity of D65"""
        o = S.vals(S.call('t_d65', [S.inp('t', 0.01, 100)], 3, [k]))
        s = o[0] + o[1] + o[2]
        for i in range(2):
            S.close('xy'[i], o[i], s * S.lit(Fraction(WHITE[k][i])), rel='1e-3' if k == 0 else '5e-3', scale=s)
    return body


def blackbody(k):
    def body(S):
        """a black body has the published chromaticity of its temperature (2856 K: illuminant A)"""
        T, x, y = BODY[k]
        o = S.vals(S.call('t_bb', [S.inp('t', 0.01, 100)], 3, [T]))
        s = o[0] + o[1] + o[2]
        S.close('x', o[0], s * S.lit(Fraction(x)), rel='1e-3', scale=s)
        S.close('y', o[1], s * S.lit(Fraction(y)), rel='1e-3', scale=s)
    return body


# sRGB of the 24 patches under D65 (ColorChecker, published 8-bit values)
CHART = """115,82,68 194,150,130 98,122,157 87,108,67 133,128,177 103,189,170 214,126,44 80,91,166 193,90,99 94,60,108 157,188,64 224,163,46
56,61,150 70,148,73 175,54,60 231,199,31 187,86,149 8,133,161 243,243,242 200,200,200 160,160,160 122,122,121 85,85,85 52,52,52"""
REC709 = [.4124, .3576, .1805, .2126, .7152, .0722, .0193, .1192, .9505]


def patch(t):
    c = [int(x) / 255 for x in t.split(',')]
    l = [x / 12.92 if x <= .04045 else ((x + .055) / 1.055) ** 2.4 for x in c]
    return [Fraction(round(100000 * sum(REC709[3 * r + k] * l[k] for k in range(3))), 1000) for r in range(3)]


def chart(S):
    """the chart under D65 of any intensity has its published colours, in the published order"""
    t = S.inp('t', 0.0625, 16)
    o = S.vals(S.call('t_chart', [t], 72))
    T = S.val(t)
    for i, c in enumerate(CHART.split()):
        for j, v in enumerate(patch(c)):
            S.close('%d.%s' % (i, 'XYZ'[j]), o[3 * i + j], T * S.lit(v), rel='3', scale=T)


def jobs(tier):
    out = [J('cie.%s.%d' % ('XYZ'[c], CIE[q][0]), published(c, q)) for c in range(3) for q in range(len(CIE) - 1)]
    out += [J('d65.%d' % (380 + 10 * q), d65(q)) for q in range(39)]
    for k, top, tol in ((0, '1.07', '2e-4'), (1, '1.001', '1e-4'), (2, '1.79', '6e-4'), (6, '1.16', '2e-4'), (7, '1.001', '1.5e-4'), (8, '1.94', '9e-4')):
        out.append(J('smooth.%d' % k, smooth(k, str(2 * float(tol)))))
        out += [J('inside.%d.%d' % (k, a), inside(k, a, a + 20 if a < 760 else 779, top)) for a in range(380, 779, 20)]
    for k, top in ((3, '1.06'), (4, '1.001'), (5, '1.63')):
        for a in range(380, 775, 5):
            out.append(J('line.%d.%d' % (k, a), linear(k, a, a + 5, top)))
    for k in range(10, 34):
        for a in range(380, 770, 10):
            out.append(J('line.%d.%d' % (k, a), linear(k, a, a + 10, '1')))
    out += [J('passive.%d' % k, passive(k), max_terms=2000) for k in list(range(10, 34)) + list(range(40, 139))]
    out += [J('illuminant.%s' % ILL[k][0], illuminant(k)) for k in range(12)]
    out += [J('white.%d' % k, white(k)) for k in range(3)] + [J('body.%d' % BODY[k][0], blackbody(k)) for k in range(5)]
    out.append(J('chart', chart, max_terms=2000, max_instr=40_000_000))
    return out
