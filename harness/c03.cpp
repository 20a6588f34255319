// C03: XYZ <-> Yxy <-> Yuv
#include "cs.hpp"

static Tri xyz(Ctx &c)
{
    Src &s = c.s;
    switch (s.draw(9))
    {
    case 8:
        return s.coin() ? colour(s, 3e-9, 1e-6) : colour(s, 1e6, 1e12);
    case 0: // imaginary: one or two negative channels, sum not cancelling too far
    {
        Tri t = svec(s, 1e-7, 1e6);
        return t;
    }
    case 1: // built from a chromaticity
    {
        double Y = s.logu(1e-7, 1e6), x = s.uniform(0, 0.8), y = s.uniform(0.001, 0.9);
        return Tri((float)(x / y * Y), (float)Y, (float)((1 - x - y) / y * Y));
    }
    case 2: { // saturated / boundary
        Tri   t = colour(s, 1e-7, 1e6);
        float v[3] = {t[0], t[1], t[2]};
        v[s.draw(3)] *= 1e-4f;
        return Tri(v[0], v[1], v[2]);
    }
    case 3: // white
        return white(s).scale((float)s.logu(1e-6, 1e2));
    default:
        return colour(s, 1e-7, 1e6);
    }
}
// luminance of a chromaticity triple: zero and negative values included
static float lum(Src &s)
{
    switch (s.draw(8))
    {
    case 0:
        return 0.f;
    case 1:
        return -mag(s, 1e-7, 1e6);
    default:
        return mag(s, 1e-7, 1e6);
    }
}
static void toYxyChecks(Ctx &c, const Tri &t, const Tri &r, const char *w)
{
    double s = (double)t[0] + t[1] + t[2], sa = std::fabs(t[0]) + std::fabs(t[1]) + std::fabs(t[2]);
    if (!(r[0] == t[1]))
        c.fail("%s: Y %.9g not kept (%.9g)", w, r[0], t[1]);
    double cn = sa / std::fabs(s);
    c.near("x", r[1], t[0] / s, (std::fabs(t[0] / s)) * EPS * (4 + 4 * cn) + 1e-38);
    c.near("y", r[2], t[1] / s, (std::fabs(t[1] / s)) * EPS * (4 + 4 * cn) + 1e-38);
}
PROPERTY(forward_back, 5000000, 80000000, 0.05,
    "XYZ colours from 3e-9 to 1e12 (dark, HDR, saturated, imaginary, white) through Yxy and Yuv and back, in every "
    "overload; judged where |X+Y+Z| >= 1.001e-8 and not dominated by cancellation; non-trivial: not a grey, Y != 0")
{
    Tri    t = xyz(c);
    double s = (double)t[0] + t[1] + t[2], sa = std::fabs(t[0]) + std::fabs(t[1]) + std::fabs(t[2]);
    c.note3("XYZ", t);
    if (std::fabs(s) < 1.001e-8 || sa / std::fabs(s) > 50)
    {
        c.label("skipped");
        return;
    }
    if (hasVarietyD(t) && t[1] != 0)
        c.nontrivial();
    c.label(s < 1e-5 ? "dark (sum<1e-5)" : s > 1e3 ? "bright (sum>1e3)" : "normal");
    Tri a1 = Tri::toYxy(t), a2 = t.toYxy(), a3 = Tri::toYxy(t[0], t[1], t[2]);
    toYxyChecks(c, t, a1, "toYxy(t)");
    toYxyChecks(c, t, a2, "t.toYxy()");
    toYxyChecks(c, t, a3, "toYxy(X,Y,Z)");
    double cn = sa / std::fabs(s), x = t[0] / s, y = t[1] / s;
    // back: X = xY/y, Z = (1-x-y)Y/y.  relative error of x,y amplified
    double ex = EPS * (8 + 8 * cn);
    bool   ok = std::fabs(y) > 1.001e-8;
    if (ok)
    {
        for (const Tri &b : {Tri::fromYxy(a1), a2.fromYxy(), Tri::fromYxy(a3[0], a3[1], a3[2])})
        {
            double tol = std::fabs(s) * ex * (1 + std::fabs(x) + std::fabs(y));
            c.near("back from Yxy: X", b[0], t[0], std::fabs(t[0]) * 3 * ex + 1e-38);
            c.near("back from Yxy: Y", b[1], t[1], 0);
            c.near("back from Yxy: Z", b[2], t[2], tol + std::fabs(t[2]) * 2 * ex + 1e-38);
        }
    }
    double d = -2 * x + 12 * y + 3, da = 2 * std::fabs(x) + 12 * std::fabs(y) + 3;
    if (std::fabs(d) > 0.2)
    {
        double eu = EPS * 8 * da / std::fabs(d) + ex * da / std::fabs(d);
        double u = 4 * x / d, v = 6 * y / d;
        for (const Tri &q : {Tri::toYuv(t), t.toYuv(), Tri::toYuv(t[0], t[1], t[2])})
        {
            c.near("Yuv: Y", q[0], t[1], 0);
            c.near("u", q[1], u, std::fabs(u) * (eu + 2 * ex) + 1e-38);
            c.near("v", q[2], v, std::fabs(v) * (eu + 2 * ex) + 1e-38);
        }
        double e = 2 * u - 8 * v + 4, ea = 2 * std::fabs(u) + 8 * std::fabs(v) + 4;
        if (std::fabs(e) > 0.05 && ok)
        {
            double er = eu * 2 + (EPS * 8 + 2 * eu) * ea / std::fabs(e);
            Tri    q1 = Tri::toYuv(t);
            for (const Tri &b : {Tri::fromYuv(q1), q1.fromYuv(), Tri::fromYuv(q1[0], q1[1], q1[2])})
            {
                double tol = std::fabs(s) * er * (1 + std::fabs(x) + std::fabs(y)) * 2;
                c.near("back from Yuv: X", b[0], t[0], std::fabs(t[0]) * 3 * er + 1e-38);
                c.near("back from Yuv: Y", b[1], t[1], 0);
                c.near("back from Yuv: Z", b[2], t[2], tol + std::fabs(t[2]) * 3 * er + 1e-38);
            }
        }
    }
}
PROPERTY(backward_forward, 4000000, 60000000, 0.05,
    "chromaticities (Y 0, 1e-7..1e6 or negative, x -0.2..1, y 0.0001..1 or tiny or negative) converted from Yxy to XYZ, to Yuv and back; "
    "non-trivial: |y| >= 1e-8")
{
    Src   &s = c.s;
    float  Y = lum(s), x, y;
    x        = s.draw(8) ? (float)s.uniform(0, 0.8) : (float)s.uniform(-0.2, 1);
    switch (s.draw(8))
    {
    case 0:
        y = smag(s, 1e-12, 1e-4);
        break;
    case 1:
        y = nice(s);
        break;
    case 2:
        y = (float)-s.uniform(0.01, 0.2);
        break;
    default:
        y = (float)s.uniform(0.005, 0.9);
    }
    if (y > 1)
        y = 1;
    Tri p(Y, x, y);
    c.note3("Yxy", p);
    if (std::fabs(std::fabs((double)y) - 1e-8) < 1e-13)
        return; // exactly at the threshold: either
    if (std::fabs(y) < 1e-8)
    {
        c.label("|y| < 1e-8");
        for (const Tri &b : {Tri::fromYxy(p), p.fromYxy(), Tri::fromYxy(Y, x, y)})
            c.check(b[0] == 0.f && b[1] == Y && b[2] == 0.f, "y ~ 0 must give X=Z=0 and keep Y");
        return;
    }
    c.nontrivial();
    double k = (double)Y / y, zz = 1 - (double)x - y, za = 1 + std::fabs(x) + std::fabs(y);
    if (std::fabs(k) > 1e30)
        return;
    for (const Tri &b : {Tri::fromYxy(p), p.fromYxy(), Tri::fromYxy(Y, x, y)})
    {
        c.near("X", b[0], x * k, std::fabs(x * k) * 6 * EPS + 1e-38);
        c.near("Y", b[1], Y, 0);
        c.near("Z", b[2], zz * k, std::fabs(k) * za * 6 * EPS + 1e-38);
    }
    double d = -2.0 * x + 12.0 * y + 3, da = 2 * std::fabs(x) + 12 * std::fabs(y) + 3;
    if (std::fabs(d) > 0.2)
    {
        double u = 4 * x / d, v = 6 * y / d, eu = EPS * (6 + 6 * da / std::fabs(d));
        Tri    q = Tri::YxyToYuv(p);
        c.near("YxyToYuv: Y", q[0], Y, 0);
        c.near("YxyToYuv: u", q[1], u, std::fabs(u) * eu + 1e-40);
        c.near("YxyToYuv: v", q[2], v, std::fabs(v) * eu + 1e-40);
        double e = 2 * u - 8 * v + 4, ea = 2 * std::fabs(u) + 8 * std::fabs(v) + 4;
        if (std::fabs(e) > 0.05)
        {
            double er = eu + (EPS * 6 + 2 * eu) * ea / std::fabs(e);
            Tri    r  = Tri::YuvToYxy(q);
            c.near("YuvToYxy: Y", r[0], Y, 0);
            c.near("YuvToYxy: x", r[1], x, std::fabs(x) * er * 2 + 1e-40);
            c.near("YuvToYxy: y", r[2], y, std::fabs(y) * er * 2 + 1e-40);
        }
    }
}
PROPERTY(yuv_any, 2000000, 30000000, 0.05,
    "Yuv triples (u 0..0.65, v 0.001..0.42, Y 0, 1e-7..1e6 or negative) converted to Yxy and XYZ; non-trivial: all (denominator bounded "
    "away from zero)")
{
    Src  &s = c.s;
    float Y = lum(s), u = (float)s.uniform(0, 0.65), v = (float)s.uniform(0.001, 0.42);
    Tri   q(Y, u, v);
    c.note3("Yuv", q);
    double e = 2.0 * u - 8.0 * v + 4, ea = 2.0 * u + 8.0 * v + 4, x = 3 * u / e, y = 2 * v / e;
    if (e < 0.1)
        return;
    c.nontrivial();
    double er = EPS * (6 + 8 * ea / e);
    Tri    r  = Tri::YuvToYxy(q);
    c.near("x", r[1], x, x * er + 1e-40);
    c.near("y", r[2], y, y * er + 1e-40);
    c.near("Y", r[0], Y, 0);
    double k = Y / y;
    for (const Tri &b : {Tri::fromYuv(q), q.fromYuv(), Tri::fromYuv(Y, u, v)})
    {
        c.near("fromYuv X", b[0], x * k, std::fabs(x * k) * er * 4 + 1e-38);
        c.near("fromYuv Y", b[1], Y, 0);
        c.near("fromYuv Z", b[2], (1 - x - y) * k, std::fabs(k) * (1 + x + y) * er * 4 + 1e-38);
    }
}
PROPERTY(black, 2000000, 20000000, 0.05,
    "black and near-black: |X+Y+Z| < 0.999e-8 including exact zero, subnormals and cancelling signs; must give the D65 "
    "chromaticity and keep Y; non-trivial: not exactly zero")
{
    Src   &s = c.s;
    float  v[3];
    if (s.draw(4) == 0)
        v[0] = v[1] = v[2] = 0;
    else if (s.draw(3) == 0)
    { // cancelling
        float a = smag(s, 1e-6, 1e3);
        v[0] = a;
        v[1] = s.coin() ? -a : 0;
        v[2] = v[1] == 0 ? -a : 0;
    }
    else
    {
        double k = s.coin() ? s.logu(1e-40, 3.3e-9) : 3.3e-9;
        for (float &x : v)
            x = (float)(k * s.unitIncl());
        if (s.draw(4) == 0)
            v[s.draw(3)] *= -1;
    }
    Tri    t(v[0], v[1], v[2]);
    double sum = (double)v[0] + v[1] + v[2];
    c.note3("XYZ", t);
    if (std::fabs(sum) >= 0.999e-8)
        return;
    if (v[0] != 0 || v[1] != 0 || v[2] != 0)
        c.nontrivial();
    for (const Tri &r : {Tri::toYxy(t), t.toYxy(), Tri::toYxy(v[0], v[1], v[2])})
        c.check(r[0] == v[1] && r[1] == 0.3127f && r[2] == 0.3290f, "black must get D65 chromaticity and keep Y");
    double d = -2 * 0.3127 + 12 * 0.3290 + 3;
    for (const Tri &r : {Tri::toYuv(t), t.toYuv(), Tri::toYuv(v[0], v[1], v[2])})
    {
        c.near("black Y", r[0], v[1], 0);
        c.near("black u", r[1], 4 * 0.3127 / d, 1e-6);
        c.near("black v", r[2], 6 * 0.3290 / d, 1e-6);
    }
}
