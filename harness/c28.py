#!/usr/bin/env python3
"""C28: generated programs that evaluate random expressions at compile time and at run time.

Same command line and output format as the pbt.hpp harnesses.
A case is one expression of the library's constexpr operations over random constants.  It is evaluated
at run time first (operands behind volatile); cases whose run-time evaluation divides by zero, overflows
or is invalid are outside the domain of constant expressions and dropped.  The others have to compile as
the initialiser of a constexpr variable and give the run-time value.
"""
import argparse, concurrent.futures as cf, json, math, os, random, re, shutil, struct, subprocess, sys, tempfile, time, zlib

INC = os.environ.get('CS_INCLUDE', '/repo/include')
PER_TU = 140
TOL = 2e-5


class Leaf:
    """A float constant."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = struct.unpack('f', struct.pack('f', v))[0]

    def key(self):
        return float(self.v).hex()


class Raw:
    """A named constant of the library or of the program, behind an opaque pointer at run time."""
    __slots__ = ('t', 's')

    def __init__(self, t, s):
        self.t, self.s = t, s

    def key(self):
        return self.s


class Lit:
    """An integer literal, the same in both programs."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = str(s)

    def key(self):
        return self.s


class Node:
    __slots__ = ('t', 'f', 'a', 'name')

    def __init__(self, t, name, f, a):
        self.t, self.name, self.f, self.a = t, name, f, a

    def key(self):
        return self.f.format(*[x.key() for x in self.a])


def lit(v):
    if v == 0:
        return '-0.f' if math.copysign(1, v) < 0 else '0.f'
    h = float(v).hex()
    return ('(%sf)' if v < 0 else '%sf') % h


def render(x, mode, pool):
    if isinstance(x, Leaf):
        if mode == 'c':
            return lit(x.v)
        pool.append(lit(x.v))
        return 'L(%d)' % (len(pool) - 1)
    if isinstance(x, Raw):
        return x.s if mode == 'c' else '(*opq(&%s))' % x.s
    if isinstance(x, Lit):
        return x.s
    return x.f.format(*[render(y, mode, pool) for y in x.a])


# ---------------------------------------------------------------- generator
GAMUTS = 'AdobeRGB Rec709 Rec2020 DCI_P3 S_Gamut S_Gamut3_Cine ACEScg ACES2065 LMS XYZ'.split()
ILLUM = ['Illuminant_' + s for s in 'A B C D50 D55 D60 D65 D75 E F2 F7 F11'.split()]
SPEC = ['CIE1931_X', 'CIE1931_Y', 'CIE1931_Z', 'CIE2012_X', 'CIE2012_Y', 'CIE2012_Z', 'CIE1931_JuddVos_X', 'CIE1931_JuddVos_Y',
        'CIE1931_JuddVos_Z', 'CIE_D65', 'S0', 'S1', 'S2']
OBS = ['CIE1931', 'CIE31JV', 'CIE2012']


# Helpers that are public but secondary: an operation using one that the tree does not offer (renamed, made
# private, removed) is left out, because the property is about operations usable in a constant expression.
HELPERS = {
    'Gamut::diag': 'Gamut::diag(Vector3(1, 2, 3))', 'Gamut::mulDiag': 'Gamut::mulDiag(Matrix3(), Vector3(1, 2, 3))',
    'Gamut::primMat': 'Gamut::primMat(.6f, .3f, .3f, .6f, .1f, .1f)', 'Tristimulus::mod360': 'Tristimulus::mod360(1.f)',
    'Spectrum::lerp': 'Spectrum::lerp(1.f, 2.f, .5f)', 'normalize_': 'CIE1931.normalize_',
    'Tristimulus::mini': 'Tristimulus::mini(1.f, 2.f)', 'Tristimulus::maxi': 'Tristimulus::maxi(1.f, 2.f)',
    'Tristimulus::abs_f': 'Tristimulus::abs_f(1.f)', 'Tristimulus::z_from_xy': 'Tristimulus::z_from_xy(.3f, .3f)',
    'Tristimulus::X_from_Yxy': 'Tristimulus::X_from_Yxy(1.f, .3f, .3f)', 'Tristimulus::Y_from_Yxy': 'Tristimulus::Y_from_Yxy(1.f, .3f, .3f)',
    'Tristimulus::Z_from_Yxy': 'Tristimulus::Z_from_Yxy(1.f, .3f, .3f)', 'Tristimulus::Y_from_XYZ': 'Tristimulus::Y_from_XYZ(1.f, .3f, .3f)',
    'Tristimulus::x_from_XYZ': 'Tristimulus::x_from_XYZ(1.f, .3f, .3f)', 'Tristimulus::y_from_XYZ': 'Tristimulus::y_from_XYZ(1.f, .3f, .3f)',
    'Tristimulus::u_from_xy': 'Tristimulus::u_from_xy(.3f, .3f)', 'Tristimulus::v_from_xy': 'Tristimulus::v_from_xy(.3f, .3f)',
    'Tristimulus::x_from_uv': 'Tristimulus::x_from_uv(.2f, .3f)', 'Tristimulus::y_from_uv': 'Tristimulus::y_from_uv(.2f, .3f)',
    'Tristimulus::CIELAB_curve': 'Tristimulus::CIELAB_curve(.5f)', 'Tristimulus::CIELAB_decurve': 'Tristimulus::CIELAB_decurve(.5f)',
    'Tristimulus::blackbody_x_approx': 'Tristimulus::blackbody_x_approx(5000.f)',
    'Tristimulus::blackbody_y_approx': 'Tristimulus::blackbody_y_approx(5000.f)',
    'Observer::SpectrumIntegrate(': 'Observer::SpectrumIntegrate(CIE_D65, CIE1931_X, CIE1931_Y, CIE1931_Z)',
    'Observer::SpectrumIntegrate3': 'Observer::SpectrumIntegrate3(CIE_D65, CIE_D65, CIE1931_X, CIE1931_Y, CIE1931_Z)',
}


def uses(x, acc):
    if isinstance(x, Node):
        acc.append(x.f)
        for y in x.a:
            uses(y, acc)
    return acc


class Gen:
    def __init__(self, rng):
        self.r = rng

    def F(self, lo=None, hi=None):
        r = self.r
        if lo is None:
            k = r.random()
            if k < .2:
                return Leaf(r.choice([0, 1, .5, .25, 2, 10, .18, 1 / 3, -1, -.5, 100, .75, 1e-4]))
            if k < .5:
                return Leaf(r.uniform(.02, 1))
            if k < .7:
                return Leaf(r.uniform(-2, 2))
            return Leaf(math.exp(r.uniform(math.log(1e-4), math.log(1e3))) * r.choice([1, 1, -1]))
        if r.random() < .1:
            return Leaf(r.choice([lo, hi]))
        return Leaf(r.uniform(lo, hi))

    def n(self, t, name, f, *a):
        return Node(t, name, f, list(a))

    def vec(self, d):
        r, k = self.r, self.r.random()
        if d <= 0 or k < .5:
            return self.n('V', 'Vector3', 'Vector3({0}, {1}, {2})', self.F(), self.F(), self.F())
        if k < .65:
            return self.n('V', 'row/col', '({0}).%s({1})' % r.choice(['row', 'col']), self.mat(d - 1), Lit(r.randrange(3)))
        if k < .8:
            return self.n('V', 'apply', r.choice(['({0}).apply({1})', 'Matrix3::apply({0}, {1})']), self.mat(d - 1), self.vec(d - 1))
        if k < .9:
            return self.n('V', 'vec3', '({0}).vec3()', self.tri(d - 1))
        return self.n('V', 'primaryVector', '({0}).primaryVector()', self.gam(d - 1))

    def mat(self, d):
        r, k = self.r, self.r.random()
        if d <= 0 or k < .3:
            c = r.random()
            if c < .1:
                return self.n('M', 'Matrix3', 'Matrix3()')
            a = [self.F() for _ in range(9)]
            if c < .7:
                for i in (0, 4, 8):
                    a[i] = Leaf(r.uniform(2, 5))
                for i in (1, 2, 3, 5, 6, 7):
                    a[i] = Leaf(r.uniform(-1, 1))
            return self.n('M', 'Matrix3', 'Matrix3({0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}, {8})', *a)
        o = [
            lambda: self.n('M', 'mul', r.choice(['({0}).mul({1})', 'Matrix3::mul({0}, {1})']), self.mat(d - 1), self.mat(d - 1)),
            lambda: self.n('M', 'mul scalar', r.choice(['({0}).mul({1})', 'Matrix3::mul({0}, {1})']), self.mat(d - 1), self.F()),
            lambda: self.n('M', 'div', r.choice(['({0}).div({1})', 'Matrix3::div({0}, {1})']), self.mat(d - 1), self.F()),
            lambda: self.n('M', 'add', r.choice(['({0}).add({1})', 'Matrix3::add({0}, {1})']), self.mat(d - 1), self.mat(d - 1)),
            lambda: self.n('M', 'invert', r.choice(['({0}).invert()', 'Matrix3::invert({0})']), self.mat(d - 1)),
            lambda: self.n('M', 'transpose', r.choice(['({0}).transpose()', 'Matrix3::transpose({0})']), self.mat(d - 1)),
            lambda: self.n('M', 'diag', r.choice(['Matrix3::diag({0})', 'Gamut::diag({0})']), self.vec(d - 1)),
            lambda: self.n('M', 'crosstalk', 'Matrix3::crosstalk({0})', self.F(0, .3)),
            lambda: self.n('M', 'crosstalkInvert', 'Matrix3::crosstalkInvert({0})', self.F(0, .3)),
            lambda: self.n('M', 'gamut matrix', '({0}).%s()' % r.choice(['toXYZ', 'fromXYZ', 'primaryMatrix']), self.gam(d - 1)),
            lambda: self.n('M', 'GamutConvert', 'GamutConvert({0}, {1})', self.gam(d - 1), self.gam(d - 1)),
            lambda: self.n('M', 'mulDiag', 'Gamut::mulDiag({0}, {1})', self.mat(d - 1), self.vec(d - 1)),
            lambda: self.n('M', 'primMat', 'Gamut::primMat({0}, {1}, {2}, {3}, {4}, {5})', *[self.F(.05, .7) for _ in range(6)]),
            lambda: self.n('M', 'fromPrimaries', 'Gamut::fromPrimaries({0}, {1}, {2}, {3}, {4}, {5}, {6}, {7})', *self.prim()),
        ]
        return r.choice(o)()

    def prim(self):
        r = self.r
        j = lambda v: Leaf(v + r.choice([0, 1]) * r.uniform(-.03, .03))
        return [j(.64), j(.33), j(.3), j(.6), j(.15), j(.06), j(.3127), j(.329)]

    def gam(self, d):
        r, k = self.r, self.r.random()
        if k < .5:
            return Raw('G', r.choice(GAMUTS))
        if k < .8 or d <= 0:
            return self.n('G', 'Gamut(primaries)', 'Gamut("g", {0}, {1}, {2}, {3}, {4}, {5}, {6}, {7})', *self.prim())
        return self.n('G', 'Gamut(matrix)', 'Gamut("g", {0})', self.mat(d - 1))

    def colour(self):
        r, k = self.r, self.r.random()
        if k < .15:
            return Raw('T', r.choice(ILLUM))
        if k < .75:
            return self.n('T', 'Tristimulus', 'Tristimulus({0}, {1}, {2})', self.F(0, 1), self.F(.02, 1), self.F(0, 1))
        if k < .85:
            return self.n('T', 'Tristimulus(v)', 'Tristimulus({0})', self.F(.02, 1))
        return self.n('T', 'Tristimulus', 'Tristimulus({0}, {1}, {2})', self.F(), self.F(), self.F())

    def tri(self, d):
        r, k = self.r, self.r.random()
        if d <= 0 or k < .25:
            return self.colour()
        s = lambda: self.spec()
        o = [
            lambda: self.n('T', 'scale', r.choice(['({0}).scale({1})', 'Tristimulus::scale({0}, {1})', '({0}) * {1}', '({0}) / {1}']),
                           self.tri(d - 1), self.F()),
            lambda: self.n('T', 'apply', r.choice(['({0}).apply({1})', 'Tristimulus::apply({0}, {1})']), self.tri(d - 1), self.mat(d - 1)),
            lambda: self.n('T', 'add', r.choice(['({0}).add({1})', 'Tristimulus::add({0}, {1})', '({0}) + ({1})']), self.tri(d - 1), self.tri(d - 1)),
            lambda: self.n('T', 'mul', r.choice(['({0}).mul({1})', 'Tristimulus::mul({0}, {1})', '({0}) * ({1})']), self.tri(d - 1), self.tri(d - 1)),
            lambda: self.n('T', 'min/max', '({0}).%s({1})' % r.choice(['min', 'max']), self.tri(d - 1), self.tri(d - 1)),
            lambda: self.n('T', 'min/max', 'Tristimulus::%s({0}, {1})' % r.choice(['min', 'max']), self.tri(d - 1), self.tri(d - 1)),
            lambda: self.n('T', 'Yxy and Yuv', 'Tristimulus::%s({0})' % r.choice(
                ['YxyToYuv', 'YuvToYxy', 'toYxy', 'fromYxy', 'toYuv', 'fromYuv', 'toHSV']), self.tri(d - 1)),
            lambda: self.n('T', 'from vector', 'Tristimulus({0})', self.vec(d - 1)),
            lambda: self.n('T', 'clip', r.choice(['({0}).clip({1}, {2})', 'Tristimulus::clip({0}, {1}, {2})']), self.tri(d - 1), self.F(-1, .3), self.F(.3, 2)),
            lambda: self.n('T', 'positive', r.choice(['({0}).positive()', 'Tristimulus::positive({0})']), self.tri(d - 1)),
            lambda: self.n('T', 'Yxy/Yuv', '({0}).%s()' % r.choice(['toYxy', 'fromYxy', 'toYuv', 'fromYuv']), self.tri(d - 1)),
            lambda: self.n('T', 'Yxy/Yuv', 'Tristimulus::%s({0}, {1}, {2})' % r.choice(['toYxy', 'fromYxy', 'toYuv', 'fromYuv']),
                           self.F(.02, 1), self.F(.02, .7), self.F(.02, .7)),
            lambda: self.n('T', 'HSV', '({0}).toHSV()', self.tri(d - 1)),
            lambda: self.n('T', 'HSV inverse', '({0}).fromHSV()', self.n('T', 'Tristimulus', 'Tristimulus({0}, {1}, {2})',
                           r.choice([lambda: self.F(-720, 1080), lambda: Leaf(60 * r.randrange(-6, 13)), lambda: self.F(-3600, 3600)])(), self.F(0, 1), self.F(0, 2))),
            lambda: self.n('T', 'fromCT', 'Tristimulus::fromCT({0}, {1})', self.F(1000, 20000), self.F(.1, 10)),
            lambda: self.n('T', 'fromPlanckianLocus', 'Tristimulus::fromPlanckianLocus({0}, {1})',
                           r.choice([lambda: self.F(1667, 25000), lambda: Leaf(r.choice([2222, 4000, 1667, 25000]))])(), self.F(.1, 10)),
            lambda: self.n('T', 'fromCCT', 'Tristimulus::fromCCT({0}, {1})', self.F(1700, 15000), self.F(-.02, .02)),
            lambda: self.n('T', 'gamut colour', '({0}).%s({1})' % r.choice(['toXYZ', 'fromXYZ']), self.gam(d - 1), self.tri(d - 1)),
            lambda: self.n('T', 'gamut primaries', '({0}).primary%s()' % r.choice(['White', 'Red', 'Green', 'Blue']), self.gam(d - 1)),
        ]
        return r.choice(o)()

    def spec(self):
        r, k = self.r, self.r.random()
        if k < .7:
            return Raw('S', r.choice(SPEC))
        if k < .85:
            return Raw('S', 'TM_30_15::sample[%d]' % r.randrange(99))
        return Raw('S', 'Macbeth::Patch[%d]' % r.randrange(24))

    def obs(self):
        if self.r.random() < .7:
            return Raw('O', self.r.choice(OBS))
        return self.n('O', 'Observer', 'Observer({0}, {1}, {2})', self.spec(), self.spec(), self.spec())

    def spectral(self):
        r = self.r
        wl = lambda: r.choice([lambda: self.F(380, 779), lambda: Leaf(r.randrange(380, 780)), lambda: self.F(300, 900)])()
        o = [
            lambda: self.n('F', 'spectrum sum', r.choice(['({0}).sum()', 'Spectrum::sum({0})']), self.spec()),
            lambda: self.n('F', 'spectrum dot', r.choice(['({0}).dot({1})', 'Spectrum::dot({0}, {1})']), self.spec(), self.spec()),
            lambda: self.n('F', 'spectrum dot3', 'Spectrum::dot3({0}, {1}, {2})', self.spec(), self.spec(), self.spec()),
            lambda: self.n('F', 'spectrum fetch', '({0}).fetch({1})', self.spec(), wl()),
            lambda: self.n('F', 'spectrum sample', '({0})[{1}]', self.spec(), Lit(r.randrange(400))),
            lambda: self.n('T', 'fromSpectrum', '({0}).fromSpectrum({1})', self.obs(), self.spec()),
            lambda: self.n('T', 'fromReflectanceAndLight', '({0}).fromReflectanceAndLight({1}, {2})', self.obs(), self.spec(), self.spec()),
            lambda: self.n('F', 'lumens', '({0}).lumensFromMonochromaticFlux({1}, {2})', self.obs(), wl(), self.F(.01, 10)),
            lambda: self.n('T', 'candellas', '({0}).candellasFromMonochromaticRadiance({1}, {2})', self.obs(), wl(), self.F(.01, 10)),
            lambda: self.n('T', 'observer xyz', '({0}).xyz({1})', self.obs(), wl()),
            lambda: self.n('T', 'normalize', '({0}).normalize_', self.obs()),
            lambda: self.n('T', 'SpectrumIntegrate', 'Observer::SpectrumIntegrate({0}, {1}, {2}, {3})', *[self.spec() for _ in range(4)]),
            lambda: self.n('T', 'SpectrumIntegrate3', 'Observer::SpectrumIntegrate3({0}, {1}, {2}, {3}, {4})', *[self.spec() for _ in range(5)]),
        ]
        return r.choice(o)()

    def scalar(self, d):
        r = self.r
        o = [
            lambda: self.n('F', 'det', r.choice(['({0}).det()', 'Matrix3::det({0})']), self.mat(d - 1)),
            lambda: self.n('F', 'dot', r.choice(['({0}).dot({1})', 'Tristimulus::dot({0}, {1})']), self.tri(d - 1), self.tri(d - 1)),
            lambda: self.n('F', 'vector dot', r.choice(['({0}).dot({1})', 'Vector3::dot({0}, {1})']), self.vec(d - 1), self.vec(d - 1)),
            lambda: self.n('F', 'min3/max3', '({0}).%s()' % r.choice(['min3', 'max3']), self.tri(d - 1)),
            lambda: self.n('B', 'hasNegative', '({0}).hasNegative()', self.tri(d - 1)),
            lambda: self.n('F', 'component', '({0})[{1}]', self.tri(d - 1), Lit(r.randrange(3))),
            lambda: self.n('F', 'matrix element', '({0})[{1}]', self.mat(d - 1), Lit(r.randrange(9))),
            lambda: self.n('F', 'sqrtf', 'util::sqrtf({0})', self.sq()),
            lambda: self.n('F', 'sqrtf', 'util::sqrtf({0})', self.sq()),
            lambda: self.n('F', 'mod360', 'Tristimulus::mod360({0})', self.F(-3600, 3600)),
            lambda: self.n('F', 'lerp', 'Spectrum::lerp({0}, {1}, {2})', self.F(), self.F(), self.F(0, 1)),
            lambda: self.n('F', 'mini/maxi', 'Tristimulus::%s({0}, {1})' % r.choice(['mini', 'maxi']), self.F(), self.F()),
            lambda: self.n('F', 'abs_f', 'Tristimulus::abs_f({0})', self.F()),
            lambda: self.n('F', 'Yxy helpers', 'Tristimulus::%s({0}, {1}, {2})' % r.choice(
                ['X_from_Yxy', 'Y_from_Yxy', 'Z_from_Yxy', 'Y_from_XYZ', 'x_from_XYZ', 'y_from_XYZ']), self.F(.02, 1), self.F(.02, .7), self.F(.02, .7)),
            lambda: self.n('F', 'xy/uv helpers', 'Tristimulus::%s({0}, {1})' % r.choice(
                ['z_from_xy', 'u_from_xy', 'v_from_xy', 'x_from_uv', 'y_from_uv']), self.F(.02, .7), self.F(.02, .4)),
            lambda: self.n('F', 'blackbody helpers', 'Tristimulus::blackbody_%s_approx({0})' % r.choice('xy'), self.F(1000, 20000)),
            lambda: self.n('F', 'vector component', '({0}).%s()' % r.choice('xyz'), self.vec(d - 1)),
            lambda: self.n('F', 'colour component', '({0}).%s()' % r.choice('abc'), self.tri(d - 1)),
            lambda: self.n('F', 'size', '(float)({0}).size()', r.choice([self.vec, self.tri, self.mat])(d - 1)),
            lambda: self.n('B', 'hasNegative', 'Tristimulus::hasNegative({0})', self.tri(d - 1)),
        ]
        return r.choice(o)()

    def sq(self):
        r, k = self.r, self.r.random()
        if k < .2:
            return Leaf(float(r.randrange(0, 200)) ** 2)
        if k < .4:
            return Leaf(math.ldexp(1, r.randrange(-140, 127)))
        if k < .7:
            return Leaf(struct.unpack('f', struct.pack('I', r.randrange(1, 0x7f800000)))[0])
        return self.F(0, 4)

    def lab(self):
        # powf: compiler and run-time library may differ by rounding, so never nested in something else
        r = self.r
        t = self.n('T', 'Tristimulus', 'Tristimulus({0}, {1}, {2})', self.F(0, 1), self.F(0, 1), self.F(0, 1))
        l = self.n('T', 'Tristimulus', 'Tristimulus({0}, {1}, {2})', self.F(0, 100), self.F(-80, 80), self.F(-80, 80))
        w = self.n('T', 'Tristimulus', 'Tristimulus({0}, {1}, {2})', self.F(.7, 1.2), self.F(.9, 1), self.F(.3, 1.3))
        return r.choice([
            lambda: self.n('T', 'toCIELAB', r.choice(['({0}).toCIELAB({1})', 'Tristimulus::toCIELAB({0}, {1})']), t, w),
            lambda: self.n('T', 'toCIELAB', '({0}).toCIELAB()', t),
            lambda: self.n('T', 'fromCIELAB', r.choice(['({0}).fromCIELAB({1})', 'Tristimulus::fromCIELAB({0}, {1})']), l, w),
            lambda: self.n('F', 'Lab curve', 'Tristimulus::CIELAB_%s({0})' % r.choice(['curve', 'decurve']), self.F(0, 1.5)),
            lambda: self.n('T', 'fromCIELAB', '({0}).fromCIELAB()', l)])()

    missing = ()

    def expr(self):
        while True:
            e = self.expr_()
            if not any(h in f for f in uses(e, []) for h in self.missing):
                return e

    def expr_(self):
        k = self.r.random()
        d = self.r.choice([1, 1, 2, 2, 3])
        if k < .15:
            return self.spectral()
        if k < .25:
            return self.lab()
        if k < .45:
            return self.scalar(d)
        if k < .7:
            return self.tri(d)
        if k < .9:
            return self.mat(d)
        if k < .95:
            return self.gam(d)
        return self.vec(d)


# ---------------------------------------------------------------- programs
PRE = r'''#include <cstdint>
#include <cstring>
#include <cfenv>
#include <cstdio>
#include <colorsystem.hpp>
using namespace ColorSystem;
template <class T> static const T *opq(const T *p) { const T *volatile q = p; return q; }
static void o1(float f) { uint32_t u; memcpy(&u, &f, 4); printf(" %08x", u); }
static void o(const float &f) { o1(f); }
static void o(const bool &b) { o1(b ? 1.f : 0.f); }
static void o(const Vector3 &v) { for (int i = 0; i < 3; i++) o1(v[i]); }
static void o(const Tristimulus &v) { for (int i = 0; i < 3; i++) o1(v[i]); }
static void o(const Matrix3 &v) { for (int i = 0; i < 9; i++) o1(v[i]); }
static void o(const Gamut &v) { o(v.toXYZ()); o(v.fromXYZ()); }
static void o(const Spectrum &v) { for (int i = 0; i < 400; i++) o1(v[i]); }
static void o(const Observer &v) { o(v.fromSpectrum(CIE_D65)); o(v.xyz(450.f)); o(v.xyz(555.f)); o(v.xyz(610.f)); }
'''


def spectra(rng):
    s = ''
    for k in range(3):
        if k == 0:
            v = [rng.random() for _ in range(400)]
        elif k == 1:
            c, w = rng.uniform(400, 700), rng.uniform(5, 100)
            v = [math.exp(-.5 * ((380 + i - c) / w) ** 2) for i in range(400)]
        else:
            v = [0.0] * 400
            for _ in range(rng.randrange(1, 6)):
                v[rng.randrange(400)] = rng.uniform(.1, 2)
        s += 'static constexpr Spectrum S%d({%s});\n' % (k, ', '.join(lit(struct.unpack('f', struct.pack('f', x))[0]) for x in v))
    return s


# the compilers that evaluate the constants; only the first has to accept every one of them
EVALUATORS = {
    'g++ C++17': ['g++', '-O1', '-std=gnu++17', '-w', '-fmax-errors=0', '-fconstexpr-depth=1024'],
    'g++ C++20': ['g++', '-O2', '-std=gnu++20', '-w', '-fmax-errors=0', '-fconstexpr-depth=1024'],
    'clang++ C++17': ['clang++', '-O1', '-std=gnu++17', '-w', '-Wno-invalid-constexpr', '-ferror-limit=0', '-fconstexpr-depth=4096', '-fconstexpr-steps=400000000'],
}


class Work:
    def __init__(self, d, specsrc, jobs, evaluator='g++ C++17'):
        self.d, self.spec, self.jobs, self.evaluator = d, specsrc, jobs, evaluator
        self.strict = evaluator == 'g++ C++17'
        self.refused = 0
        self.n = 0
        self.compiles = 0

    def build(self, body, tag):
        self.n += 1
        self.compiles += 1
        src = os.path.join(self.d, 'p%s%d_%s.cpp' % (re.sub(r'\W', '', self.evaluator), self.n, tag))
        exe = src[:-4]
        with open(src, 'w') as f:
            f.write(body)
        p = subprocess.run(EVALUATORS[self.evaluator] + ['-I' + INC, src, '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        return p.returncode, p.stdout, src, exe

    def program(self, exprs, compile_time):
        pool, body, lines = [], '', {}
        rtsrc = ''
        for i, e in enumerate(exprs):
            r = render(e, 'r', pool)
            rtsrc += '__attribute__((noinline)) static auto rt_%d() { return %s; }\n' % (i, r)
        head = PRE + self.spec + 'static volatile float rt[] = {%s0.f};\nstatic inline float L(int i) { return rt[i]; }\n' % ''.join(x + ', ' for x in pool)
        body = head + rtsrc
        if not self.strict:
            lines.update({head.count('\n') + i + 1: i for i in range(len(exprs))})
        ct = ''
        if compile_time:
            base = body.count('\n')
            for i, e in enumerate(exprs):
                lines[base + i + 1] = i
                ct += 'constexpr auto ct_%d = %s;\n' % (i, render(e, 'c', None))
        body += ct + 'int main() {\n'
        for i in range(len(exprs)):
            body += ' { std::feclearexcept(FE_ALL_EXCEPT); auto r = rt_%d(); int x = std::fetestexcept(FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID); printf("%d %%d R", x); o(r);' % (i, i)
            if compile_time:
                body += ' printf(" C"); o(ct_%d);' % i
            body += ' printf("\\n"); }\n'
        return body + '}\n', lines

    def run(self, exe):
        try:
            p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, text=True)
        except subprocess.TimeoutExpired:
            return None
        return p.stdout if p.returncode == 0 else None

    def runtime(self, exprs):
        """indices whose run-time evaluation is regular and finite"""
        body, _ = self.program(exprs, False)
        rc, msg, src, exe = self.build(body, 'r')
        if rc:
            raise RuntimeError('the run-time program does not compile:\n' + msg[:3000])
        out = self.run(exe)
        if out is None:
            raise RuntimeError('the run-time program failed')
        good = []
        for l in out.splitlines():
            w = l.split()
            if w[1] == '0' and all(math.isfinite(f32(x)) for x in w[3:]):
                good.append(int(w[0]))
        os.unlink(src)
        os.unlink(exe)
        return good

    def both(self, exprs):
        """-> list of (index, message) failures and per-index worst ratio"""
        fails, worst = [], {}
        todo = list(range(len(exprs)))
        body, lines = self.program(exprs, True)
        rc, msg, src, exe = self.build(body, 'c')
        if rc and not self.strict:
            name = os.path.basename(src)
            bad = {lines[int(m)] for m in re.findall(re.escape(name) + r':(\d+):\d+: error', msg) if int(m) in lines}
            os.unlink(src)
            keep = [i for i in todo if i not in bad]
            self.refused += len(bad) or len(todo)
            if not bad or not keep:
                return fails, worst
            f, w = self.both([exprs[i] for i in keep])
            return [(keep[i], m) for i, m in f], {keep[i]: q for i, q in w.items()}
        if rc:
            if len(exprs) == 1:
                m = re.search(r'error: (.*)', msg)
                os.unlink(src)
                return [(0, 'not a constant expression: ' + (m.group(1) if m else msg)[:300])], worst
            name = os.path.basename(src)
            sus = sorted({lines[int(m)] for m in re.findall(re.escape(name) + r':(\d+)', msg) if int(m) in lines})
            os.unlink(src)
            bad = set()
            for i in (sus or todo)[:12]:
                f, w = self.both([exprs[i]])
                if f:
                    fails.append((i, f[0][1]))
                    bad.add(i)
                    if len(bad) >= 3:
                        return fails, worst
            if not bad:
                # error not tied to one line: split
                h = len(exprs) // 2
                f1, w1 = self.both(exprs[:h])
                f2, w2 = self.both(exprs[h:])
                return f1 + [(i + h, m) for i, m in f2], worst
            return fails, worst
        out = self.run(exe)
        os.unlink(src)
        os.unlink(exe)
        if out is None:
            raise RuntimeError('a generated program failed to run')
        for l in out.splitlines():
            w = l.split()
            c = w.index('C')
            a = [f32(x) for x in w[3:c]]
            b = [f32(x) for x in w[c + 1:]]
            i = int(w[0])
            m = max([abs(x) for x in a] + [1e-30])
            for k, (x, y) in enumerate(zip(a, b)):
                d = abs(x - y)
                q = d / (TOL * m)
                if not q <= 1:
                    fails.append((i, 'value %d is %.9g at run time and %.9g at compile time' % (k, x, y)))
                    break
                worst[i] = max(worst.get(i, 0), q)
        return fails, worst


def f32(h):
    return struct.unpack('f', struct.pack('I', int(h, 16)))[0]


def names(x, acc):
    if isinstance(x, Node):
        acc.add(x.name)
        for y in x.a:
            names(y, acc)
    return acc


# ---------------------------------------------------------------- shrinking
def variants(x):
    """simpler expressions of the same type"""
    if isinstance(x, Leaf):
        for v in (0, 1, .5, 2, -1, round(x.v), round(x.v, 1), round(x.v, 2)):
            l = Leaf(v)
            if len(repr(l.v)) < len(repr(x.v)) or abs(l.v) in (0, 1) and abs(x.v) not in (0, 1):
                yield l
        return
    if not isinstance(x, Node):
        return
    for y in x.a:
        if isinstance(y, (Node, Raw)) and y.t == x.t:
            yield y
    if x.t == 'M' and x.a:
        yield Node('M', 'Matrix3', 'Matrix3()', [])
    if x.t == 'G':
        yield Raw('G', 'XYZ')
        yield Raw('G', 'Rec709')
    for i, y in enumerate(x.a):
        for v in variants(y):
            a = list(x.a)
            a[i] = v
            yield Node(x.t, x.name, x.f, a)


def shrink(work, e, msg, budget):
    steps = 0
    end = time.time() + budget
    while time.time() < end:
        cand, seen = [], set()
        for v in variants(e):
            k = v.key()
            if k not in seen and k != e.key():
                seen.add(k)
                cand.append(v)
            if len(cand) >= 60:
                break
        if not cand:
            break
        try:
            ok = [cand[i] for i in Work(work.d, work.spec, 1).runtime(cand)]
            if not ok:
                break
            fails, _ = work.both(ok)
        except RuntimeError:
            break
        steps += 1
        fails.sort(key=lambda f: len(ok[f[0]].key()))
        if not fails:
            break
        e, msg = ok[fails[0][0]], fails[0][1]
    return e, msg, steps


# ---------------------------------------------------------------- driver
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--scale', type=float, default=1)
    ap.add_argument('--jobs', type=int, default=os.cpu_count())
    ap.add_argument('--out')
    ap.add_argument('--replays')
    ap.add_argument('--property', default='C28')
    ap.add_argument('--build', default='plain')
    ap.add_argument('--sub')
    ap.add_argument('--replay')
    a = ap.parse_args()
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='c28_')
    try:
        return replay(a, d) if a.replay else campaign(a, d, t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(a, d):
    ct = rt = sp = pool = None
    ev = 'g++ C++17'
    for l in open(a.replay):
        if l.startswith('constant '):
            ct = l[9:].strip()
        elif l.startswith('runtime '):
            rt = l[8:].strip()
        elif l.startswith('operands '):
            pool = l[9:].strip()
        elif l.startswith('evaluator '):
            ev = l[10:].strip()
        elif l.startswith('spectra '):
            sp = int(l[8:])
    w = Work(d, spectra(random.Random(sp)), 1, ev)
    body = PRE + w.spec + 'static volatile float rt[] = {%s0.f};\nstatic inline float L(int i) { return rt[i]; }\n' % (pool + ', ' if pool else '') + \
        '__attribute__((noinline)) static auto rt_0() { return %s; }\n' % rt + 'constexpr auto ct_0 = %s;\n' % ct + \
        'int main() { auto r = rt_0(); printf("0 0 R"); o(r); printf(" C"); o(ct_0); printf("\\n"); }\n'
    rc, msg, src, exe = w.build(body, 'p')
    if rc:
        print('%s FAILS: not a constant expression: %s' % (ct, msg[:600]))
        return 1
    l = w.run(exe).split()
    c = l.index('C')
    x, y = [f32(v) for v in l[3:c]], [f32(v) for v in l[c + 1:]]
    m = max([abs(v) for v in x] + [1e-30])
    bad = not all(abs(p - q) <= TOL * m for p, q in zip(x, y))
    print('%s\n run time     %s\n compile time %s\n%s' % (ct, x, y, 'FAILS' if bad else 'holds'))
    return 1 if bad else 0


def probe(d, text, tag):
    src = os.path.join(d, 'probe%s.cpp' % tag)
    with open(src, 'w') as f:
        f.write(PRE + 'void probe() { %s }\n' % ' '.join('(void)(%s);' % t for t in text))
    return subprocess.run(['g++', '-std=gnu++17', '-w', '-fsyntax-only', '-I' + INC, src], stdout=subprocess.DEVNULL,
                          stderr=subprocess.DEVNULL).returncode == 0


def campaign(a, d, t0):
    if not probe(d, HELPERS.values(), 'all'):
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            hs = list(HELPERS)
            there = list(ex.map(lambda i: probe(d, [HELPERS[hs[i]]], i), range(len(hs))))
        if any(there):
            Gen.missing = tuple(h for h, t in zip(hs, there) if not t)
    tus = max(1, int((24 if a.tier == 'quick' else 420) * a.scale))
    specseed = a.seed * 7919 + 13
    seen, cases = set(), []
    for t in range(tus):
        rng = random.Random('%d/%d' % (a.seed, t))
        g = Gen(rng)
        es = []
        while len(es) < PER_TU:
            es.append(g.expr())
        # every built-in constant is used as a compile-time constant in some program
        allc = [Raw('G', x) for x in GAMUTS] + [Raw('T', x) for x in ILLUM] + [Raw('O', x) for x in OBS]
        es.append(allc[t % len(allc)])
        es.append(allc[(t * 7 + 3) % len(allc)])
        cases.append(es)
    spec = spectra(random.Random(specseed))
    works = {n: Work(d, spec, a.jobs, n) for n in EVALUATORS}
    order = ['g++ C++17', 'g++ C++17', 'g++ C++20', 'g++ C++17', 'clang++ C++17', 'g++ C++17']
    stats = dict(evals=0, nontriv=0, dropped=0, worst=0.0)
    labels, samples, viol, errors = {}, [], [], []

    def one(t, es):
        work = works[order[t % len(order)]]
        good = works['g++ C++17'].runtime(es)
        ok = [es[i] for i in good]
        f, w = work.both(ok) if ok else ([], {})
        return work, es, ok, f, w

    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for fut in [ex.submit(one, t, es) for t, es in enumerate(cases)]:
            try:
                work, es, ok, f, w = fut.result()
            except RuntimeError as x:
                errors.append(str(x))
                continue
            stats['dropped'] += len(es) - len(ok)
            for e in ok:
                stats['evals'] += 1
                k = e.key()
                nn = names(e, set())
                for n in nn:
                    labels[n] = labels.get(n, 0) + 1
                if k not in seen and (isinstance(e, Node) and e.a):
                    seen.add(k)
                    stats['nontriv'] += 1
            if w:
                stats['worst'] = max(stats['worst'], max(w.values()))
            if len(samples) < 6 and ok:
                samples += ['constexpr auto v = %s;' % render(e, 'c', None)[:300] for e in ok[5:200:70]]
            for i, m in f:
                viol.append((work, ok[i], m))
    steps = 0
    out = []
    viol.sort(key=lambda v: (not v[0].strict, len(v[1].key())))
    done = set()
    for work, e, m in viol:
        kind = 'does not compile' if m.startswith('not a constant') else 'value'
        if kind in done:
            continue
        done.add(kind)
        # confirm alone, then shrink
        f, _ = work.both([e])
        if not f:
            continue
        e, m, s = shrink(work, e, f[0][1], 60 if a.tier == 'quick' else 180)
        steps += s
        pool = []
        rt = render(e, 'r', pool)
        ct = render(e, 'c', None)
        os.makedirs(a.replays, exist_ok=True)
        path = os.path.join(a.replays, '%s-%s-%08x.replay' % (a.property, kind.replace(' ', '_'), zlib.crc32(ct.encode())))
        with open(path, 'w') as fo:
            fo.write('property %s\nsub programs\nconstant %s\nruntime %s\noperands %s\nspectra %d\nevaluator %s\n# %s\n' % (a.property, ct, rt, ', '.join(pool), specseed, work.evaluator, m))
        out.append(dict(sub='programs', kind=kind, message=m, case='constexpr auto v = %s;' % ct, replay=path))
    res = dict(subs=[dict(
        name='programs', rule='programs of %d random typed expressions (matrices, vectors, colours, gamuts, spectra, observers, square root, '
        'built-in constants; depth 1..3) that evaluate regularly at run time: each has to compile as a constexpr initialiser and equal the '
        'run-time value within 2e-5 of its largest component (two programs of three with g++ in C++17, the others with g++ in C++20 and clang++, which need not accept every constant); distinct non-trivial: distinct expressions with at least one operation on constants' % PER_TU,
        planned=sum(map(len, cases)), evaluations=stats['evals'], nontrivial=stats['nontriv'], distinct=stats['nontriv'], cpu_s=time.time() - t0,
        exhaustive=False, labels=dict(labels, **{'outside the domain, dropped': stats['dropped'], 'programs compiled': sum(w.compiles for w in works.values()), 'not accepted as constants by another compiler or C++ version, not judged': sum(w.refused for w in works.values())}),
        worst_error_over_tolerance={'compile time against run time': stats['worst']}, samples=samples)],
        violations=out, unconfirmed=errors, shrink_steps=steps, wall_s=time.time() - t0)
    with open(a.out, 'w') as f:
        json.dump(res, f)
    return 1 if out else 2 if errors else 0


sys.exit(main())
