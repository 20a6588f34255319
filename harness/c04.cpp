// C04: CIELAB
#include "cs.hpp"

static const double TH = 216.0 / 24389.0, KAP = 24389.0 / 27.0;
static double f(double r) { return r > 1 ? 1 : r > TH ? std::cbrt(r) : (KAP * r + 16) / 116; }
static double finv(double g)
{
    return g > 1 ? 1 : g > 6.0 / 29 ? g * g * g : (116 * g - 16) * std::pow(3.0 / 29, 3);
}
static Tri whiteAny(Src &s)
{
    Tri w = white(s);
    return s.draw(8) ? w : w * (float)s.logu(1e-6, 1e6);
}
static float ratioGen(Src &s)
{
    switch (s.draw(10))
    {
    case 0:
        return s.ulps((float)TH, 40);
    case 1:
        return (float)(TH * s.uniform(0.5, 2));
    case 2:
        return s.ulps(1.f, 40);
    case 3:
        return (float)s.logu(1e-9, 1);
    case 4:
        return s.draw(4) ? (float)-s.uniform(0, 0.5) : (float)-s.logu(0.5, 1e4);
    case 5:
        return s.draw(4) ? (float)s.uniform(1, 4) : (float)s.logu(1, 1e6);
    case 6:
        return nice(s) > 4 ? 1.f : nice(s);
    case 7:
        return 0.f;
    default:
        return (float)s.uniform(0, 1);
    }
}
// error of f at ratio r when r itself is off by a few eps (relative)
static double ef(double r)
{
    double slope = r > 1 ? 1.0 / 3 : r > TH ? 1 / (3 * std::pow(r, 2.0 / 3)) : KAP / 116;
    return 4 * EPS * std::fabs(r) * slope + 6 * EPS * std::max(0.14, std::fabs(f(r)));
}
static Tri genXYZ(Ctx &c, const Tri &w, bool inside)
{
    float v[3];
    for (int i = 0; i < 3; i++)
    {
        float r = ratioGen(c.s);
        if (inside && r > 1)
            r = 1;
        v[i] = r * w[i];
        if (r == 1.f)
            v[i] = w[i];
    }
    switch (c.s.draw(6))
    {
    case 0: // neutral
        v[0] = v[1] / w[1] * w[0];
        v[2] = v[1] / w[1] * w[2];
        break;
    default:;
    }
    return Tri(v[0], v[1], v[2]);
}
static void checkLab(Ctx &c, const Tri &lab, const Tri &t, const D3 &w)
{
    double r[3], g[3], e[3];
    for (int i = 0; i < 3; i++)
    {
        r[i] = t[i] / w[i];
        g[i] = f(r[i]);
        e[i] = ef(r[i]);
    }
    c.near("L*", lab[0], 116 * g[1] - 16, 116 * e[1] + 16 * EPS * 4);
    c.near("a*", lab[1], 500 * (g[0] - g[1]), 500 * (e[0] + e[1]) + 2 * EPS * std::fabs(500 * (g[0] - g[1])));
    c.near("b*", lab[2], 200 * (g[1] - g[2]), 200 * (e[2] + e[1]) + 2 * EPS * std::fabs(200 * (g[1] - g[2])));
    c.check(lab[0] <= 100.f + 2e-5f, "L* exceeds 100");
}
PROPERTY(forward, 12000000, 200000000, 0.03,
    "white (named, arbitrary, any luminance, or the default D50) and a colour whose channel ratios lie below, at, around "
    "(ulps) and above the linear/cubic breakpoint and the white, from -0.5 to 4, sometimes -1e4 to 1e6; Lab compared with the CIE formula in "
    "double; non-trivial: channel ratios not all equal")
{
    bool def = c.s.draw(3) == 0;
    Tri  w   = def ? Tri(0.9642f, 1.0f, 0.8249f) : whiteAny(c.s);
    Tri  t   = genXYZ(c, w, false);
    c.note3("XYZ", t);
    c.note3("white", w);
    double r0 = t[0] / w[0], r1 = t[1] / w[1], r2 = t[2] / w[2];
    if (std::fabs(r0 - r1) > 1e-6 || std::fabs(r2 - r1) > 1e-6)
        c.nontrivial();
    for (double r : {r0, r1, r2})
        c.label(r < 0 ? "ratio<0" : r <= TH ? "linear" : r <= 1 ? "cubic" : "above white");
    checkLab(c, Tri::toCIELAB(t, w), t, d3(w));
    checkLab(c, t.toCIELAB(w), t, d3(w));
    if (def)
        checkLab(c, t.toCIELAB(), t, d3(w));
    Tri W = w.toCIELAB(w);
    c.near("white L", W[0], 100, 2e-5);
    c.near("white a", W[1], 0, 2e-5);
    c.near("white b", W[2], 0, 2e-5);
    // monotone in Y
    float y2 = (float)(t[1] + std::fabs((double)w[1]) * c.s.logu(1e-7, 1));
    Tri   l1 = t.toCIELAB(w), l2 = Tri(t[0], y2, t[2]).toCIELAB(w);
    c.check(l2[0] >= l1[0] - 1e-5f * std::max(1.f, std::fabs(l1[0])), "L* decreases with Y");
}
PROPERTY(inverse, 8000000, 150000000, 0.03,
    "Lab triples (L -20..110, a,b -150..150, sometimes up to 20 times as much, and points around the breakpoint) and a white converted to XYZ, compared with "
    "the inverse CIE formula in double; non-trivial: a or b not zero")
{
    Src  &s   = c.s;
    bool  def = s.draw(3) == 0;
    Tri   w   = def ? Tri(0.9642f, 1.0f, 0.8249f) : whiteAny(s);
    float L, a, b;
    switch (s.draw(6))
    {
    case 0:
        L = s.ulps(8.f, 60);
        break;
    case 1:
        L = (float)s.uniform(-20, 12);
        break;
    case 2:
        L = s.ulps(100.f, 20);
        break;
    default:
        L = (float)s.uniform(0, 110);
    }
    double k = s.draw(5) ? 1 : s.logu(1, 20);
    L *= (float)(k > 1 && s.coin() ? k : 1);
    a = s.draw(6) ? (float)(s.uniform(-150, 150) * k) : 0.f;
    b = s.draw(6) ? (float)(s.uniform(-150, 150) * k) : 0.f;
    if (s.draw(6) == 0)
    { // aim fx or fz at the breakpoint
        a = (float)(500 * (6.0 / 29 - (L + 16) / 116.0 + s.uniform(-1e-3, 1e-3)));
        b = (float)(-200 * (6.0 / 29 - (L + 16) / 116.0 + s.uniform(-1e-3, 1e-3)));
    }
    Tri lab(L, a, b);
    c.note3("Lab", lab);
    c.note3("white", w);
    if (a != 0 || b != 0)
        c.nontrivial();
    double fy = ((double)L + 16) / 116, fx = fy + (double)a / 500, fz = fy - (double)b / 200;
    double ff[3] = {fx, fy, fz};
    auto   chk   = [&](const Tri &x) {
        for (int i = 0; i < 3; i++)
        {
            double v  = finv(ff[i]) * w[i];
            double de = EPS * 6 * (std::fabs(fy) + std::fabs(ff[i]) + 0.2);
            double sl = ff[i] > 6.0 / 29 ? 3 * std::max(ff[i], 0.21) * std::max(ff[i], 0.21) : 0.1285;
            c.near(i == 0 ? "X" : i == 1 ? "Y" : "Z", x[i], v, w[i] * de * sl * 2 + 8 * EPS * std::fabs(v));
        }
    };
    chk(Tri::fromCIELAB(lab, w));
    chk(lab.fromCIELAB(w));
    if (def)
        chk(lab.fromCIELAB());
}
PROPERTY(round_trip, 8000000, 150000000, 0.03,
    "colours with every channel ratio at most 1 (down to -0.5, sometimes -1e4) converted to Lab and back with the same white; "
    "non-trivial: some ratio strictly between 0 and 1")
{
    bool def = c.s.draw(3) == 0;
    Tri  w   = def ? Tri(0.9642f, 1.0f, 0.8249f) : whiteAny(c.s);
    Tri  t   = genXYZ(c, w, true);
    c.note3("XYZ", t);
    c.note3("white", w);
    Tri b1 = Tri::fromCIELAB(Tri::toCIELAB(t, w), w), b2 = t.toCIELAB(w).fromCIELAB(w);
    Tri b3 = def ? t.toCIELAB().fromCIELAB() : b1;
    double fm = 0;
    for (int i = 0; i < 3; i++)
        fm = std::max(fm, std::fabs(f(t[i] / w[i])));
    for (int i = 0; i < 3; i++)
    {
        double r = (double)t[i] / w[i];
        if (r > 0 && r < 1)
            c.nontrivial();
        double g  = f(r);
        double de = 3 * ef(r) + EPS * 24 * (fm + 0.2);
        double sl = g > 6.0 / 29 ? 3 * g * g : 0.1285;
        double tol = w[i] * (de * sl * 1.5 + 4 * EPS * std::fabs(r));
        c.near("round trip (static)", b1[i], t[i], tol);
        c.near("round trip (member)", b2[i], t[i], tol);
        c.near("round trip (default white)", b3[i], t[i], tol);
    }
}
