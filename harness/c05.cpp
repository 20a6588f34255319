// C05: HSV
#include "cs.hpp"

struct HSV
{
    double h, s, v;
};
static HSV ref(const Tri &t)
{
    double r = t[0], g = t[1], b = t[2], mx = std::max(r, std::max(g, b)), mn = std::min(r, std::min(g, b)), d = mx - mn;
    HSV    o;
    o.v = mx;
    o.s = mx == 0 ? 0 : d / mx;
    if (d == 0)
        o.h = 0;
    else if (mx == r)
        o.h = 60 * ((g - b) / d);
    else if (mx == g)
        o.h = 60 * ((b - r) / d) + 120;
    else
        o.h = 60 * ((r - g) / d) + 240;
    if (o.h < 0)
        o.h += 360;
    return o;
}
static D3 rgbRef(double h, double s, double v)
{
    h = std::fmod(h, 360.0);
    if (h < 0)
        h += 360;
    auto k = [&](double n) {
        double q = std::fmod(n + h / 60, 6.0);
        return v - v * s * std::max(0.0, std::min(std::min(q, 4 - q), 1.0));
    };
    return D3{{k(5), k(3), k(1)}};
}
static double circ(double a, double b)
{
    double d = std::fmod(std::fabs(a - b), 360.0);
    return std::min(d, 360 - d);
}
PROPERTY(forward, 12000000, 200000000, 0.03,
    "RGB >= 0 from 1e-30 to 1e6 (greys, ties of two channels, zeros, one to three ulps from grey, wildly different "
    "channels); hue, saturation, value compared with the hexcone in double and converted back; non-trivial: not grey")
{
    Tri t = c.s.draw(6) ? colour(c.s, 1e-6, 1e6) : colour(c.s, 1e-30, 1e-6);
    c.note3("RGB", t);
    HSV o = ref(t);
    if (o.s > 0)
        c.nontrivial();
    c.label(o.s == 0 ? "grey" : o.h < 60 ? "sextant 0" : o.h < 120 ? "sextant 1" : o.h < 180 ? "sextant 2"
            : o.h < 240                                                 ? "sextant 3"
            : o.h < 300                                                 ? "sextant 4"
                                                                        : "sextant 5");
    for (const Tri &h : {Tri::toHSV(t), t.toHSV()})
    {
        c.near("value", h[2], o.v, 0);
        c.near("saturation", h[1], o.s, 4 * EPS * o.s);
        c.check(h[0] >= 0.f && h[0] <= 360.f, "hue outside [0,360]");
        c.check(h[1] >= 0.f && h[1] <= 1.f, "saturation outside [0,1]");
        if (o.s == 0)
            c.check(h[0] == 0.f && h[1] == 0.f, "grey must have hue 0 and saturation 0");
        c.near("hue", circ(h[0], o.h), 0, EPS * (360 * 2 + 60 * 8));
        Tri b1 = Tri::fromHSV(h), b2 = h.fromHSV();
        for (int i = 0; i < 3; i++)
        {
            c.near("back to RGB (static)", b1[i], t[i], o.v * EPS * 48 + 1e-40);
            c.near("back to RGB (member)", b2[i], t[i], o.v * EPS * 48 + 1e-40);
        }
    }
    double x = 2.0 * t[0] - t[1] - t[2], y = std::sqrt(3.0) * ((double)t[1] - t[2]), hy = std::hypot(x, y);
    double ha = std::atan2(y, x) * 180 / M_PI;
    for (const Tri &h : {Tri::toHSV_atan(t), t.toHSV_atan()})
    {
        c.near("value (atan)", h[2], o.v, 0);
        c.near("saturation (atan)", h[1], o.s, 4 * EPS * o.s);
        c.check(h[0] >= 0.f && h[0] <= 360.f, "hue (atan) outside [0,360]");
        if (hy > 0)
        {
            double tol = 57.3 * 12 * EPS * o.v / hy + 360 * 6 * EPS;
            if (tol < 90)
                c.near("hue (atan)", circ(h[0], ha), 0, tol);
        }
    }
}
PROPERTY(negative_channels, 4000000, 60000000, 0.03,
    "RGB with one, two or three negative channels, the largest in value not zero and at least 1e-3 of the others in magnitude; the same "
    "formulas (saturation above 1) and back; non-trivial: all")
{
    Src  &s = c.s;
    float v[3], k = mag(s, 1e-6, 1e6);
    int   m = (int)s.draw(3);
    for (int i = 0; i < 3; i++)
        v[i] = i == m ? k : (float)(k * (s.draw(4) ? s.uniform(-3, 1) : -s.logu(1e-4, 900)));
    if (s.draw(4) == 0)
        v[(m + 1) % 3] = v[(m + 2) % 3];
    if (v[(m + 1) % 3] >= 0 && v[(m + 2) % 3] >= 0)
        v[(m + 1) % 3] = -k;
    if (s.draw(4) == 3) // all three: value and saturation are negative
    {
        v[m] = -k;
        for (int i = 0; i < 3; i++)
            if (i != m)
                v[i] = (float)(-k * (s.draw(4) ? s.uniform(1, 4) : s.logu(1, 900)));
    }
    Tri t(v[0], v[1], v[2]);
    c.note3("RGB", t);
    c.nontrivial();
    HSV o = ref(t);
    for (const Tri &h : {Tri::toHSV(t), t.toHSV()})
    {
        c.near("value", h[2], o.v, 0);
        c.near("saturation", h[1], o.s, 4 * EPS * std::fabs(o.s));
        c.check(h[0] >= 0.f && h[0] <= 360.f, "hue outside [0,360]");
        c.near("hue", circ(h[0], o.h), 0, EPS * (360 * 2 + 60 * 8));
        for (const Tri &b : {Tri::fromHSV(h), h.fromHSV()})
            for (int i = 0; i < 3; i++)
                c.near("back to RGB", b[i], t[i], std::fabs(o.v) * (1 + std::fabs(o.s)) * EPS * 48 + 1e-40);
    }
}
PROPERTY(atan_any_sign, 1000000, 20000000, 0.03,
    "RGB with channels of any sign: hue, saturation and value of the arctangent variant; non-trivial: not grey")
{
    Src  &s = c.s;
    float v[3], k = mag(s, 1e-6, 1e6);
    for (int i = 0; i < 3; i++)
        v[i] = i && s.draw(5) == 0 ? v[s.draw(i)] : (float)(k * s.uniform(-2, 2));
    Tri t(v[0], v[1], v[2]);
    c.note3("RGB", t);
    HSV o = ref(t);
    if (o.s != 0)
        c.nontrivial();
    double x = 2.0 * t[0] - t[1] - t[2], y = std::sqrt(3.0) * ((double)t[1] - t[2]), hy = std::hypot(x, y);
    double ha = std::atan2(y, x) * 180 / M_PI, mx = std::max(std::fabs(t[0]), std::max(std::fabs(t[1]), std::fabs(t[2])));
    for (const Tri &h : {Tri::toHSV_atan(t), t.toHSV_atan()})
    {
        c.near("value (atan)", h[2], o.v, 0);
        c.near("saturation (atan)", h[1], o.s, 4 * EPS * std::fabs(o.s));
        c.check(h[0] >= 0.f && h[0] <= 360.f, "hue (atan) outside [0,360]");
        if (hy > 0)
        {
            double tol = 57.3 * 12 * EPS * mx / hy + 360 * 6 * EPS;
            if (tol < 90)
                c.near("hue (atan)", circ(h[0], ha), 0, tol);
        }
    }
}
PROPERTY(from_any_hue, 8000000, 150000000, 0.03,
    "hue from -36000 to 36000 degrees (multiples of 60 and 360 with ulps around them, fractions) or of any magnitude up to "
    "3e38, saturation 0..1 (sometimes up to 4), value "
    "0..1e6; compared with the hexcone in double and with the hue shifted by whole turns; non-trivial: s > 0 and v > 0")
{
    Src  &s = c.s;
    float h;
    switch (s.draw(8))
    {
    case 6:
        h = (float)s.logu(36000, 3.4e38) * (s.coin() ? -1.f : 1.f);
        break;
    case 0:
        h = s.ulps(60.f * s.range(-12, 12), 3);
        break;
    case 1:
        h = 60.f * s.range(-600, 600);
        break;
    case 2:
        h = (float)s.uniform(-36000, 36000);
        break;
    case 3:
        h = (float)s.uniform(-720, 720);
        break;
    default:
        h = (float)s.uniform(0, 360);
    }
    if (std::fabs(h) < 1e-3f && h != 0)
        h = 0.5f;
    float S = s.draw(6) ? (float)s.unitIncl() : (s.coin() ? 1.f : 0.f), V = mag(s, 1e-6, 1e6);
    if (s.draw(16) == 0)
        V = 0;
    if (s.draw(8) == 0)
        S = (float)s.uniform(1, 4);
    Tri t(h, S, V);
    c.note3("HSV", t);
    if (S > 0 && V > 0)
        c.nontrivial();
    D3     w   = rgbRef(h, S, V);
    double tol = V * std::max(1.f, S) * EPS * (24 + 360.0 / 60 * 8) + 1e-40;
    // a large hue may be reduced with the rounding its own size implies
    double huge = std::fabs(h) > 36000 ? V * std::max(1.f, S) * std::fabs(h) * 8 * EPS / 60 : 0;
    for (const Tri &r : {Tri::fromHSV(t), t.fromHSV()})
        for (int i = 0; i < 3; i++)
        {
            c.near(huge > 0 ? "fromHSV, large hue" : "fromHSV", r[i], w[i], tol + huge);
            c.check(S > 1 || (r[i] >= -tol && r[i] <= V + tol), "fromHSV outside [0,value]");
        }
    // whole turns: hues that are multiples of 1/64 degree so that adding turns is exact
    float q  = (float)(s.draw(360 * 64) / 64.0);
    int   n  = s.range(-9, 9);
    Tri   r1 = Tri::fromHSV(Tri(q, S, V)), r2 = Tri::fromHSV(Tri(q + 360.f * n, S, V));
    for (int i = 0; i < 3; i++)
        c.near("periodic in 360 degrees", r2[i], r1[i], tol);
}
