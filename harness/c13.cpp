// C13: CIEDE2000
#include "cs.hpp"

struct Ref
{
    double e, h1, h2, C1, C2, Rt, dc, dh, dl;
};
// Sharma, Wu, Dalal 2005; branch: which side of a hue difference of exactly 180 degrees is taken
static Ref e00(const D3 &p, const D3 &q, double kl, double kc, double kh, double hueSlack)
{
    Ref    r;
    double C1 = std::hypot(p[1], p[2]), C2 = std::hypot(q[1], q[2]), Cb = (C1 + C2) / 2;
    double P7 = std::pow(25.0, 7), G = 0.5 * (1 - std::sqrt(std::pow(Cb, 7) / (std::pow(Cb, 7) + P7)));
    double a1 = (1 + G) * p[1], a2 = (1 + G) * q[1];
    r.C1 = std::hypot(a1, p[2]), r.C2 = std::hypot(a2, q[2]);
    auto hue = [](double b, double a) {
        if (a == 0 && b == 0)
            return 0.0;
        double h = std::atan2(b, a) * 180 / M_PI;
        return h < 0 ? h + 360 : h;
    };
    r.h1 = hue(p[2], a1), r.h2 = hue(q[2], a2);
    double dL = q[0] - p[0], dC = r.C2 - r.C1, dh, hb;
    bool   zero = r.C1 * r.C2 == 0;
    double diff = r.h2 - r.h1;
    if (zero)
        dh = 0, hb = r.h1 + r.h2;
    else
    {
        bool far = std::fabs(diff) > 180 + hueSlack;
        dh       = far ? (diff > 0 ? diff - 360 : diff + 360) : diff;
        if (far)
            hb = r.h1 + r.h2 < 360 ? (r.h1 + r.h2 + 360) / 2 : (r.h1 + r.h2 - 360) / 2;
        else
            hb = (r.h1 + r.h2) / 2;
    }
    double dH = 2 * std::sqrt(r.C1 * r.C2) * std::sin(dh / 2 * M_PI / 180);
    double Lb = (p[0] + q[0]) / 2, Cpb = (r.C1 + r.C2) / 2;
    auto   cs = [](double d) { return std::cos(d * M_PI / 180); };
    double T  = 1 - 0.17 * cs(hb - 30) + 0.24 * cs(2 * hb) + 0.32 * cs(3 * hb + 6) - 0.20 * cs(4 * hb - 63);
    double th = 30 * std::exp(-std::pow((hb - 275) / 25, 2));
    double Rc = 2 * std::sqrt(std::pow(Cpb, 7) / (std::pow(Cpb, 7) + P7));
    double l2 = (Lb - 50) * (Lb - 50);
    double Sl = 1 + 0.015 * l2 / std::sqrt(20 + l2), Sc = 1 + 0.045 * Cpb, Sh = 1 + 0.015 * Cpb * T;
    r.Rt = -std::sin(2 * th * M_PI / 180) * Rc;
    r.dl = dL / (kl * Sl), r.dc = dC / (kc * Sc), r.dh = dH / (kh * Sh);
    r.e = std::sqrt(std::max(0.0, r.dl * r.dl + r.dc * r.dc + r.dh * r.dh + r.Rt * r.dc * r.dh));
    return r;
}
static Tri genLab(Src &s)
{
    float L, a, b;
    L = s.draw(4) ? (float)s.uniform(0, 100) : (s.draw(3) ? (float)(s.draw(101)) : 50.f);
    switch (s.draw(8))
    {
    case 0:
        a = b = 0;
        break;
    case 1: { // on an axis
        float v = (float)s.uniform(-128, 128);
        a = s.coin() ? v : 0.f;
        b = a == 0.f ? v : 0.f;
        break;
    }
    case 2: { // by hue and chroma, multiples of 15 degrees included
        double h = s.coin() ? s.uniform(0, 360) : 15.0 * s.draw(24), C = s.logu(1e-3, 128);
        a = (float)(C * std::cos(h * M_PI / 180)), b = (float)(C * std::sin(h * M_PI / 180));
        break;
    }
    case 3: // nearly achromatic
        a = (float)(s.uniform(-1, 1) * s.logu(1e-4, 1)), b = (float)(s.uniform(-1, 1) * s.logu(1e-4, 1));
        break;
    case 4: // integers
        a = (float)s.range(-128, 128), b = (float)s.range(-128, 128);
        break;
    default:
        a = (float)s.uniform(-128, 128), b = (float)s.uniform(-128, 128);
    }
    if (s.draw(12) == 0)
    { // beyond the usual box: imaginary and HDR colours
        double k = s.logu(1, 50);
        L        = (float)s.uniform(-50, 400);
        a *= (float)k, b *= (float)k;
    }
    return Tri(L, a, b);
}
static Tri genSecond(Src &s, const Tri &p)
{
    switch (s.draw(8))
    {
    case 0:
        return p;
    case 1: { // close by
        double e = s.logu(1e-4, 10);
        return Tri((float)std::min(100.0, std::max(0.0, p[0] + e * s.uniform(-1, 1))), (float)(p[1] + e * s.uniform(-1, 1)),
            (float)(p[2] + e * s.uniform(-1, 1)));
    }
    case 2: { // about the opposite hue
        double k = s.logu(0.1, 2);
        double t = s.uniform(-10, 10) * M_PI / 180 * (s.coin() ? 1 : 0.01);
        return Tri(p[0], (float)(-k * (p[1] * std::cos(t) - p[2] * std::sin(t))),
            (float)(-k * (p[1] * std::sin(t) + p[2] * std::cos(t))));
    }
    case 3: // exactly opposite, or mirrored at an axis
        return s.coin() ? Tri((float)s.uniform(0, 100), -p[1], -p[2]) : (s.coin() ? Tri(p[0], p[1], -p[2]) : Tri(p[0], -p[1], p[2]));
    case 4: // only one coordinate differs
    {
        Tri q = genLab(s);
        u64 k = s.draw(3);
        return Tri(k == 0 ? q[0] : p[0], k == 1 ? q[1] : p[1], k == 2 ? q[2] : p[2]);
    }
    default:
        return genLab(s);
    }
}
static float genK(Src &s) { return s.draw(3) ? 1.f : (s.coin() ? 2.f : (float)s.logu(0.2, 5)); }
static bool within(double got, const Ref &r, double kl, double kc, double kh, double *ratio)
{
    double km  = std::min(kl, std::min(kc, kh));
    double C   = std::max(r.C1, r.C2);
    double tol = (1.5e-5 + 2e-6 * C) / km + 1e-5 * r.e;
    *ratio     = std::fabs(got - r.e) / tol;
    return *ratio <= 1;
}
static void compare(Ctx &c, double got, const Tri &p, const Tri &q, double kl, double kc, double kh)
{
    Ref    r = e00(d3(p), d3(q), kl, kc, kh, 0);
    double ra;
    if (within(got, r, kl, kc, kh, &ra))
    {
        c.ratio(std::fabs(std::fabs(r.h1 - r.h2) - 180) < 1e-2 ? "Delta E 2000 at 180 degrees" : "Delta E 2000", ra);
        return;
    }
    // a hue difference of 180 degrees up to rounding may be resolved either way
    double d = std::fabs(std::fabs(r.h1 - r.h2) - 180);
    if (d < 1e-3 && r.C1 * r.C2 > 0)
    {
        Ref u = e00(d3(p), d3(q), kl, kc, kh, 1e-2), v = e00(d3(p), d3(q), kl, kc, kh, -1e-2);
        if (within(got, u, kl, kc, kh, &ra) || within(got, v, kl, kc, kh, &ra))
            return;
    }
    c.fail("Delta E 2000: got %.9g, want %.9g", got, r.e);
}
PROPERTY(formula, 12000000, 250000000, 0.03,
    "pair of Lab colours (same, close, opposite hue, mirrored, achromatic, axis-aligned, one coordinate different, free; sometimes far outside the usual box) "
    "and weights; compared with the CIEDE2000 formula in double, in both orders, with and without explicit weights; "
    "non-trivial: the colours differ")
{
    Tri   p = genLab(c.s), q = genSecond(c.s, p);
    float kl = genK(c.s), kc = genK(c.s), kh = genK(c.s);
    c.note3("lab1", p);
    c.note3("lab2", q);
    c.notef("k=(%.6g,%.6g,%.6g)", kl, kc, kh);
    if (p[0] != q[0] || p[1] != q[1] || p[2] != q[2])
        c.nontrivial();
    else
        c.label("equal colours");
    double h1 = std::atan2(p[2], p[1]), h2 = std::atan2(q[2], q[1]);
    if (std::fabs((h1 < 0 ? h1 + 2 * M_PI : h1) - (h2 < 0 ? h2 + 2 * M_PI : h2)) > M_PI)
        c.label("hue difference wraps");
    float e = Delta::E00(p, q, kl, kc, kh), b = Delta::E00(q, p, kl, kc, kh), d = Delta::E00(p, q);
    c.note("E00", e);
    c.check(e >= 0 && b >= 0 && d >= 0, "negative or NaN");
    compare(c, e, p, q, kl, kc, kh);
    compare(c, b, q, p, kl, kc, kh);
    compare(c, d, p, q, 1, 1, 1);
    if (p[0] == q[0] && p[1] == q[1] && p[2] == q[2])
        c.check(e == 0 && d == 0, "difference of a colour with itself is not zero");
    double km = std::min(kl, std::min(kc, kh));
    c.near("symmetry", e, b, (2e-5 + 2e-6 * 360) / km + 2e-5 * e);
}
SWEEP(published, 34, 1, 1, 1, "the 34 pairs published by Sharma et al. with their four-decimal differences; non-trivial: all")
{
    static const double T[34][7] = {{50, 2.6772, -79.7751, 50, 0, -82.7485, 2.0425}, {50, 3.1571, -77.2803, 50, 0, -82.7485, 2.8615},
        {50, 2.8361, -74.0200, 50, 0, -82.7485, 3.4412}, {50, -1.3802, -84.2814, 50, 0, -82.7485, 1.0000},
        {50, -1.1848, -84.8006, 50, 0, -82.7485, 1.0000}, {50, -0.9009, -85.5211, 50, 0, -82.7485, 1.0000},
        {50, 0, 0, 50, -1, 2, 2.3669}, {50, -1, 2, 50, 0, 0, 2.3669}, {50, 2.4900, -0.0010, 50, -2.4900, 0.0009, 7.1792},
        {50, 2.4900, -0.0010, 50, -2.4900, 0.0010, 7.1792}, {50, 2.4900, -0.0010, 50, -2.4900, 0.0011, 7.2195},
        {50, 2.4900, -0.0010, 50, -2.4900, 0.0012, 7.2195}, {50, -0.0010, 2.4900, 50, 0.0009, -2.4900, 4.8045},
        {50, -0.0010, 2.4900, 50, 0.0010, -2.4900, 4.8045}, {50, -0.0010, 2.4900, 50, 0.0011, -2.4900, 4.7461},
        {50, 2.5, 0, 50, 0, -2.5, 4.3065}, {50, 2.5, 0, 73, 25, -18, 27.1492}, {50, 2.5, 0, 61, -5, 29, 22.8977},
        {50, 2.5, 0, 56, -27, -3, 31.9030}, {50, 2.5, 0, 58, 24, 15, 19.4535}, {50, 2.5, 0, 50, 3.1736, 0.5854, 1.0000},
        {50, 2.5, 0, 50, 3.2972, 0, 1.0000}, {50, 2.5, 0, 50, 1.8634, 0.5757, 1.0000}, {50, 2.5, 0, 50, 3.2592, 0.3350, 1.0000},
        {60.2574, -34.0099, 36.2677, 60.4626, -34.1751, 39.4387, 1.2644}, {63.0109, -31.0961, -5.8663, 62.8187, -29.7946, -4.0864, 1.2630},
        {61.2901, 3.7196, -5.3901, 61.4292, 2.2480, -4.9620, 1.8731}, {35.0831, -44.1164, 3.7933, 35.0232, -40.0716, 1.5901, 1.8645},
        {22.7233, 20.0904, -46.6940, 23.0331, 14.9730, -42.5619, 2.0373}, {36.4612, 47.8580, 18.3852, 36.2715, 50.5065, 21.2231, 1.4146},
        {90.8027, -2.0831, 1.4410, 91.1528, -1.6435, 0.0447, 1.4441}, {90.9257, -0.5406, -0.9208, 88.6381, -0.8985, -0.7239, 1.5381},
        {6.7747, -0.2908, -2.4247, 5.8714, -0.0985, -2.2286, 0.6377}, {2.0776, 0.0795, -1.1350, 0.9033, -0.0636, -0.5514, 0.9082}};
    u64           k = c.s.draw(34);
    const double *t = T[k];
    Tri p((float)t[0], (float)t[1], (float)t[2]), q((float)t[3], (float)t[4], (float)t[5]);
    c.note3("lab1", p);
    c.note3("lab2", q);
    c.nontrivial();
    double tie = k == 9 || k == 13 ? 0.07 : 0; // hue difference of exactly 180 degrees
    c.near("published value", Delta::E00(p, q), t[6], 1.2e-4 + tie);
    c.near("published value", Delta::E00(q, p), t[6], 1.2e-4 + tie);
}
