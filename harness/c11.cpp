// C11: ICtCp
#include "ictcp.hpp"
using namespace ictcp;

static float lightGen(Src &s, bool inside)
{
    switch (s.draw(9))
    {
    case 0:
        return nice(s) > 100 ? 100.f : nice(s);
    case 1:
        return 0.f;
    case 2:
        return inside ? 100.f : s.ulps(100.f, 20);
    case 3:
        return (float)s.uniform(0, 100);
    case 4:
        return (float)s.logu(1e-9, 1e-4);
    case 5:
        return inside ? 1.f : (float)s.uniform(-10, 400);
    default:
        return (float)s.logu(1e-4, 100);
    }
}
// a colour from XYZ or from its cone responses
static Tri genXYZ(Ctx &c, bool inside)
{
    static const D9 MI = dinv(M);
    switch (c.s.draw(5))
    {
    case 0: { // neutral
        Tri   w = white(c.s, true);
        float k = lightGen(c.s, true) * 0.7f;
        return Tri(w[0] * k, w[1] * k, w[2] * k);
    }
    case 1:
        if (!inside)
            return svec(c.s, 1e-4, 300);
        // fall through
    case 2:
    default: { // cone responses, each anywhere
        D3 l;
        for (int i = 0; i < 3; i++)
            l[i] = lightGen(c.s, inside);
        if (c.s.draw(4) == 0)
            l[1] = l[0];
        if (c.s.draw(4) == 0)
            l[2] = l[1];
        D3 x = dapply(MI, l);
        return Tri((float)x[0], (float)x[1], (float)x[2]);
    }
    case 4: {
        Tri y(1.f, (float)c.s.uniform(0.05, 0.7), (float)c.s.uniform(0.05, 0.7));
        float k = lightGen(c.s, true) * 0.3f;
        return Tri(k, y[1], y[2]).fromYxy();
    }
    }
}
PROPERTY(forward, 12000000, 200000000, 0.03,
    "XYZ colour (neutral, chromaticity with luminance, from cone responses 1e-9..100 with ties and zeros, or signed and "
    "beyond the PQ peak); ICtCp compared with the published transform in double; non-trivial: not black")
{
    Tri t = genXYZ(c, false);
    c.note3("XYZ", t);
    if (t[0] != 0 || t[1] != 0 || t[2] != 0)
        c.nontrivial();
    Tri got = XYZ_to_ICtCp(t);
    c.note3("ICtCp", got);
    D3  lms = dapply(M, d3(t));
    for (int i = 0; i < 3; i++)
        if (lms[i] <= 0)
            c.label("a cone response at or below zero");
        else if (lms[i] >= 100)
            c.label("a cone response at or above the peak");
    Val w = forward(d3(t));
    static const char *N[3] = {"I", "Ct", "Cp"};
    for (int i = 0; i < 3; i++)
        c.near(N[i], got[i], w.v[i], w.tol[i]);
}
PROPERTY(roundtrip, 8000000, 150000000, 0.03,
    "XYZ colour with all cone responses in 0..100 (10000 cd/m2), zeros and the peak included, converted to ICtCp and "
    "back; non-trivial: not black")
{
    Tri t   = genXYZ(c, true);
    D3  lms = dapply(M, d3(t)), la = dapply(dabs9(M), dabs3(d3(t)));
    for (int i = 0; i < 3; i++)
        if (lms[i] < -3 * EPS * la[i] || lms[i] > 100 * (1 + 1e-6))
            return;
    c.note3("XYZ", t);
    if (t[0] != 0 || t[1] != 0 || t[2] != 0)
        c.nontrivial();
    Tri icc  = XYZ_to_ICtCp(t);
    Tri back = ICtCp_to_XYZ(icc);
    c.note3("ICtCp", icc);
    c.note3("back", back);
    Val f = forward(d3(t)), b = inverse(f.v, f.tol);
    static const D9 MI = dinv(M);
    static const char *N[3] = {"X", "Y", "Z"};
    for (int i = 0; i < 3; i++)
    {
        double slack = 0; // responses clipped at 0 or 100
        for (int k = 0; k < 3; k++)
            slack += std::fabs(MI[i * 3 + k]) * 6 * EPS * la[k];
        c.near(N[i], back[i], t[i], 1.2 * b.tol[i] + slack);
    }
}
PROPERTY(inverse_, 8000000, 150000000, 0.03,
    "ICtCp triple made from three independent PQ signals in 0..1, some below zero (no light); XYZ compared with the published inverse in double, and "
    "converted to ICtCp again; non-trivial: signals not all zero")
{
    D3 p;
    for (int i = 0; i < 3; i++)
        p[i] = c.s.draw(6) ? c.s.unitIncl() : (double)nice(c.s);
    for (int i = 0; i < 3; i++)
        p[i] = c.s.draw(12) == 11 ? -c.s.uniform(0, 0.6) : std::min(1.0, p[i]);
    if (c.s.draw(4) == 0)
        p[1] = p[2] = p[0];
    D3  id = dapply(O, p);
    Tri icc((float)id[0], (float)id[1], (float)id[2]);
    c.note3("pq", p);
    c.note3("ICtCp", icc);
    if (p[0] > 0 || p[1] > 0 || p[2] > 0)
        c.nontrivial();
    Tri got = ICtCp_to_XYZ(icc);
    c.note3("XYZ", got);
    D3 ex;
    for (int i = 0; i < 3; i++)
        ex[i] = EPS * std::fabs(id[i]);
    Val w = inverse(id, ex);
    static const char *N[3] = {"X", "Y", "Z"};
    for (int i = 0; i < 3; i++)
        c.near(N[i], got[i], w.v[i], w.tol[i]);
}
