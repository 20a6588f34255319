// C15: colour temperature
#include "cs.hpp"
#include "ref_tables.inc"

struct XY
{
    double x, y;
};
// CIE 1931 chromaticity of Planck's law (c2 = 1.438777e-2), from the published matching functions
static XY locus(double T)
{
    double X = 0, Y = 0, Z = 0;
    for (int i = 0; i < 400; i++)
    {
        double l = (380.0 + i) * 1e-9, m = std::pow(l * 1e9 / 560, -5) / std::expm1(1.438777e-2 / (l * T));
        X += m * REF_CIE1931_X[i], Y += m * REF_CIE1931_Y[i], Z += m * REF_CIE1931_Z[i];
    }
    return {X / (X + Y + Z), Y / (X + Y + Z)};
}
static const double GRID0 = 1000, GRID1 = 25100;
// locus tabulated every 2 K (error of linear interpolation < 1e-6)
static XY locusT(double T)
{
    static std::vector<XY> g;
    if (g.empty())
        for (double t = GRID0; t <= GRID1 + 4; t += 2)
            g.push_back(locus(t));
    double p = (T - GRID0) / 2;
    int    i = (int)p;
    double f = p - i;
    return {g[i].x + f * (g[i + 1].x - g[i].x), g[i].y + f * (g[i + 1].y - g[i].y)};
}
static XY kim(double T)
{
    double x = T <= 4000 ? -0.2661239e9 / (T * T * T) - 0.2343589e6 / (T * T) + 0.8776956e3 / T + 0.179910
                         : -3.0258469e9 / (T * T * T) + 2.1070379e6 / (T * T) + 0.2226347e3 / T + 0.240390;
    double y = T <= 2222   ? -1.1063814 * x * x * x - 1.34811020 * x * x + 2.18555832 * x - 0.20219683
               : T <= 4000 ? -0.9549476 * x * x * x - 1.37418593 * x * x + 2.09137015 * x - 0.16748867
                           : 3.0817580 * x * x * x - 5.87338670 * x * x + 3.75112997 * x - 0.37001483;
    return {x, y};
}
static XY chroma(const Tri &t)
{
    double s = (double)t[0] + t[1] + t[2];
    return {t[0] / s, t[1] / s};
}
static XY uv(const XY &p)
{
    double d = -2 * p.x + 12 * p.y + 3;
    return {4 * p.x / d, 6 * p.y / d};
}
static float genY(Src &s)
{
    float y = s.draw(3) ? 1.f : (float)s.logu(1e-6, 1e6);
    return s.draw(8) ? y : -y;
}
static float genT(Src &s, double lo, double hi)
{
    static const float K[] = {1000, 1500, 1667, 2000, 2222, 2500, 2856, 3000, 3200, 4000, 5000, 5003, 5500, 6000, 6500, 6504,
        7000, 7500, 8000, 9300, 10000, 15000, 20000, 25000};
    float              T;
    switch (s.draw(6))
    {
    case 0:
        T = s.ulps(K[s.draw(24)], 20);
        break;
    case 1:
        T = (float)(K[s.draw(24)] + s.uniform(-5, 5));
        break;
    case 2:
        T = (float)s.range((int)std::ceil(lo), (int)hi);
        break;
    case 3:
        T = (float)s.logu(lo, hi);
        break;
    default:
        T = (float)s.uniform(lo, hi);
    }
    return T < lo ? (float)lo : T > hi ? (float)hi : T;
}
PROPERTY(polynomial, 6000000, 80000000, 0.03,
    "temperature 1000..10000 K (uniform, logarithmic, integer, around round values) and Y: chromaticity within 0.004 of "
    "the Planckian locus integrated in double, Y exact, default Y is 1; non-trivial: all")
{
    float T = genT(c.s, 1000, 10000), Y = genY(c.s);
    c.note("T", T);
    c.note("Y", Y);
    c.nontrivial();
    Tri t = Tri::fromCT(T, Y);
    c.note3("XYZ", t);
    c.check(t[1] == Y, "Y is not the requested one");
    XY p = chroma(t), q = locusT(T);
    c.near("x", p.x, q.x, 0.004);
    c.near("y", p.y, q.y, 0.004);
    Tri u = Tri::fromCT(T);
    XY  v = chroma(u);
    c.check(u[1] == 1.f, "default Y is not 1");
    c.near("x (default Y)", v.x, p.x, 1e-6);
    c.near("y (default Y)", v.y, p.y, 1e-6);
}
PROPERTY(spline, 6000000, 80000000, 0.03,
    "temperature 1667..25000 K, joints 2222 K and 4000 K to the ulp included, and Y: equals the published Kim et al. "
    "cubics (either side at a joint) to 1e-5 and the integrated locus to 0.001, Y exact; non-trivial: all")
{
    float T = genT(c.s, 1667, 25000), Y = genY(c.s);
    c.note("T", T);
    c.note("Y", Y);
    c.nontrivial();
    Tri t = Tri::fromPlanckianLocus(T, Y);
    c.note3("XYZ", t);
    c.check(t[1] == Y, "Y is not the requested one");
    XY p = chroma(t), q = locusT(T), k = kim(T), o = kim(T > 3000 ? (T > 4000 ? 4000 : 4000.0001) : (T > 2222 ? 2222 : 2222.0001));
    bool joint = std::fabs(T - 2222) < 1e-3 || std::fabs(T - 4000) < 1e-3;
    if (!joint)
        o = k;
    else
        c.label("at a joint");
    auto both = [&](const char *n, double g, double a, double b) {
        c.near(n, g, std::fabs(g - a) < std::fabs(g - b) ? a : b, 1e-5);
    };
    both("x spline", p.x, k.x, o.x);
    both("y spline", p.y, k.y, o.y);
    c.near("x", p.x, q.x, 0.001);
    c.near("y", p.y, q.y, 0.001);
    Tri u = Tri::fromPlanckianLocus(T);
    XY  v = chroma(u);
    c.check(u[1] == 1.f, "default Y is not 1");
    c.near("x (default Y)", v.x, p.x, 1e-6);
    c.near("y (default Y)", v.y, p.y, 1e-6);
}
PROPERTY(continuity, 6000000, 80000000, 0.03,
    "two temperatures d apart (1e-3..5 K), joints included: the chromaticities of either white differ by at most "
    "3.5e-4 per K (plus 1e-4 at the joints of the published spline); non-trivial: all")
{
    bool   pl = c.s.coin();
    float  T  = pl ? genT(c.s, 1667, 25000) : genT(c.s, 1000, 10000);
    double d  = c.s.logu(1e-3, 5);
    float  U  = (float)(T + d);
    if (U > (pl ? 25000 : 10000))
        return;
    c.notef("%s T=%.9g T2=%.9g", pl ? "fromPlanckianLocus" : "fromCT", T, U);
    c.nontrivial();
    XY p = chroma(pl ? Tri::fromPlanckianLocus(T) : Tri::fromCT(T)), q = chroma(pl ? Tri::fromPlanckianLocus(U) : Tri::fromCT(U));
    double tol = 3.5e-4 * ((double)U - T) + 2e-6 + (pl && ((T < 2223 && U > 2221) || (T < 4001 && U > 3999)) ? 1e-4 : 0); // published joints
    c.near("x", p.x, q.x, tol);
    c.near("y", p.y, q.y, tol);
}
// direction of the locus of the library's polynomial point, from whites 8 K apart
static void tangent(double T, double &du, double &dv, double &slope)
{
    double h = 8;
    float  a = (float)(T - h), b = (float)(T + h);
    XY     p = uv(chroma(Tri::fromCT(a))), q = uv(chroma(Tri::fromCT(b)));
    du = (p.x - q.x), dv = (p.y - q.y);
    double l = std::hypot(du, dv);
    slope    = l / ((double)b - a);
    du /= l, dv /= l;
}
PROPERTY(duv, 6000000, 80000000, 0.03,
    "temperature 1010..10000 K, |Duv| <= 0.05 of both signs (0 included) and Y: uv distance from the polynomial white is "
    "|Duv|, the offset is perpendicular to the locus (to the float noise of its direction), positive is the green side; "
    "non-trivial: Duv is not 0")
{
    float T = genT(c.s, 1010, 9990), Y = genY(c.s), D;
    switch (c.s.draw(5))
    {
    case 0:
        D = 0.f;
        break;
    case 1:
        D = (float)((c.s.coin() ? 1 : -1) * c.s.logu(1e-5, 0.05));
        break;
    case 2:
        D = (c.s.coin() ? 1.f : -1.f) * 0.003f;
        break;
    default:
        D = (float)c.s.uniform(-0.05, 0.05);
    }
    c.notef("T=%.9g Duv=%.9g Y=%.9g", T, D, Y);
    Tri t = Tri::fromCCT(T, D, Y);
    c.note3("XYZ", t);
    c.check(t[1] == Y, "Y is not the requested one");
    XY base = uv(chroma(Tri::fromCT(T, Y))), p = uv(chroma(t));
    double du = p.x - base.x, dv = p.y - base.y;
    c.near("uv distance", std::hypot(du, dv), std::fabs(D), 2e-6 + 2e-5 * std::fabs(D));
    if (D == 0)
        return;
    c.nontrivial();
    double tu, tv, slope;
    tangent(T, tu, tv, slope);
    double along = du * tu + dv * tv;
    double noise = std::min(0.9, 5e-7 / slope + 0.01);
    c.near("component along the locus", along, 0, std::fabs(D) * noise + 3e-6);
    if (std::fabs(D) > 1e-4)
        c.check(D > 0 ? dv > 0 : dv < 0, "positive Duv must lie on the green side");
    Tri u = Tri::fromCCT(T, D);
    c.check(u[1] == 1.f, "default Y is not 1");
    XY w = uv(chroma(u));
    c.near("default Y", std::hypot(w.x - p.x, w.y - p.y), 0, 1e-6);
}
