// C12: OKLab
#include "cs.hpp"

static const D9 M1 = {{0.8189330101, 0.3618667424, -0.1288597137, 0.0329845436, 0.9293118715, 0.0361456387, 0.0482003018,
    0.2643662691, 0.6338517070}};
static const D9 M2 = {{0.2104542553, 0.7936177850, -0.0040720468, 1.9779984951, -2.4285922050, 0.4505937099, 0.0259040371,
    0.7827717662, -0.8086757660}};
struct Val
{
    D3 v, tol, cb, dcb;
};
static Val fwd(const D3 &x)
{
    D3  l = dapply(M1, x), la = dapply(dabs9(M1), dabs3(x));
    Val r;
    for (int i = 0; i < 3; i++)
    {
        double e = 5 * EPS * la[i] + 1e-44;
        r.cb[i]  = std::cbrt(l[i]);
        r.dcb[i] = std::max(std::cbrt(l[i] + e) - r.cb[i], r.cb[i] - std::cbrt(l[i] - e)) + 4 * EPS * std::fabs(r.cb[i]);
    }
    r.v  = dapply(M2, r.cb);
    D3 t = dapply(dabs9(M2), r.dcb), m = dapply(dabs9(M2), dabs3(r.cb));
    for (int i = 0; i < 3; i++)
        r.tol[i] = t[i] + 5 * EPS * m[i];
    return r;
}
static Val inv(const D3 &lab, const D3 &extra)
{
    static const D9 I1 = dinv(M1), I2 = dinv(M2);
    // the library inverts its float matrices; element error of the inverses
    static const double E1 = 1e-6, E2 = 1e-6;
    D3  d = dapply(I2, lab), da = dapply(dabs9(I2), dabs3(lab)), de = dapply(dabs9(I2), extra), l, dl;
    for (int i = 0; i < 3; i++)
    {
        double sum = std::fabs(lab[0]) + std::fabs(lab[1]) + std::fabs(lab[2]);
        double e   = de[i] + 5 * EPS * da[i] + E2 * sum;
        l[i]       = d[i] * d[i] * d[i];
        dl[i]      = 3 * d[i] * d[i] * e + 3 * std::fabs(d[i]) * e * e + e * e * e + 4 * EPS * std::fabs(l[i]);
    }
    Val r;
    r.v  = dapply(I1, l);
    D3 t = dapply(dabs9(I1), dl), m = dapply(dabs9(I1), dabs3(l));
    for (int i = 0; i < 3; i++)
        r.tol[i] = t[i] + 5 * EPS * m[i] + E1 * (std::fabs(l[0]) + std::fabs(l[1]) + std::fabs(l[2])) + 1e-40;
    return r;
}
static Tri genXYZ(Ctx &c)
{
    static const D9 I1 = dinv(M1);
    switch (c.s.draw(6))
    {
    case 0: {
        Tri   w = white(c.s, true);
        float k = mag(c.s, 1e-6, 1e4);
        return Tri(w[0] * k, w[1] * k, w[2] * k);
    }
    case 1:
        return colour(c.s, 1e-6, 1e4);
    case 2:
        return svec(c.s, 1e-6, 1e4);
    case 3:
        return Tri(mag(c.s, 1e-6, 1e3), (float)c.s.uniform(0.05, 0.7), (float)c.s.uniform(0.05, 0.7)).fromYxy();
    default: { // cone responses of any sign, zeros included
        D3     l;
        double k = mag(c.s, 1e-6, 1e4);
        for (int i = 0; i < 3; i++)
            l[i] = c.s.draw(6) ? k * (c.s.coin() ? c.s.uniform(-1, 1) : c.s.logu(1e-6, 1)) : 0;
        D3 x = dapply(I1, l);
        return Tri((float)x[0], (float)x[1], (float)x[2]);
    }
    }
}
PROPERTY(forward, 12000000, 200000000, 0.03,
    "XYZ colour (neutral, chromaticity with luminance, signed, or from cone responses of any sign with zeros), scale 1e-6 "
    "to 1e4; OKLab compared with the published definition in double; non-trivial: not black")
{
    Tri t = genXYZ(c);
    c.note3("XYZ", t);
    D3 l = dapply(M1, d3(t));
    if (l[0] < 0 || l[1] < 0 || l[2] < 0)
        c.label("a negative cone response");
    if (t[0] != 0 || t[1] != 0 || t[2] != 0)
        c.nontrivial();
    Tri got = XYZ_to_OKLAB(t);
    c.note3("OKLab", got);
    Val w = fwd(d3(t));
    static const char *N[3] = {"L", "a", "b"};
    for (int i = 0; i < 3; i++)
        c.near(N[i], got[i], w.v[i], w.tol[i]);
}
PROPERTY(roundtrip, 10000000, 200000000, 0.03,
    "the same colours converted to OKLab and back must be restored; non-trivial: not black")
{
    Tri t = genXYZ(c);
    c.note3("XYZ", t);
    if (t[0] != 0 || t[1] != 0 || t[2] != 0)
        c.nontrivial();
    Tri lab = XYZ_to_OKLAB(t), back = OKLAB_to_XYZ(lab);
    c.note3("OKLab", lab);
    c.note3("back", back);
    Val f = fwd(d3(t)), b = inv(f.v, f.tol);
    static const char *N[3] = {"X", "Y", "Z"};
    for (int i = 0; i < 3; i++)
        c.near(N[i], back[i], t[i], 1.2 * b.tol[i] + 2 * EPS * std::fabs(t[i]));
}
PROPERTY(inverse_, 10000000, 200000000, 0.03,
    "OKLab triple L in 0..20 (or negative), a and b up to the size of L, greys included; XYZ compared with the published "
    "inverse in double; non-trivial: not all zero")
{
    float k = mag(c.s, 1e-3, 20);
    float a = (float)(k * c.s.uniform(-1, 1)), b = (float)(k * c.s.uniform(-1, 1));
    switch (c.s.draw(5))
    {
    case 0:
        a = b = 0;
        break;
    case 1:
        a = 0;
        break;
    case 2:
        a *= 0.1f, b *= 0.1f;
        break;
    }
    Tri lab(c.s.draw(8) ? k : -k, a, b);
    if (c.s.draw(10) == 0)
        lab = Tri(0, a, b);
    c.note3("OKLab", lab);
    if (lab[0] != 0 || a != 0 || b != 0)
        c.nontrivial();
    Tri got = OKLAB_to_XYZ(lab);
    c.note3("XYZ", got);
    Val w = inv(d3(lab), D3{{0, 0, 0}});
    static const char *N[3] = {"X", "Y", "Z"};
    for (int i = 0; i < 3; i++)
        c.near(N[i], got[i], w.v[i], w.tol[i]);
}
PROPERTY(scaling, 5000000, 80000000, 0.02,
    "colour and a power of two k: XYZ times k^3 gives OKLab times k; D65 white at any luminance is neutral to 3e-4 L; "
    "non-trivial: k is not 1")
{
    Tri   t = genXYZ(c);
    int   e = c.s.range(-4, 4);
    float k = std::ldexp(1.f, e), k3 = std::ldexp(1.f, 3 * e);
    c.note3("XYZ", t);
    c.note("k", k);
    if (e)
        c.nontrivial();
    Tri a = XYZ_to_OKLAB(t), b = XYZ_to_OKLAB(Tri(t[0] * k3, t[1] * k3, t[2] * k3));
    Val w = fwd(d3(t));
    for (int i = 0; i < 3; i++)
        c.near("homogeneity", b[i], (double)a[i] * k, k * (2 * w.tol[i]) + 1e-30);
    float Y = mag(c.s, 1e-4, 1e4);
    Tri   g = XYZ_to_OKLAB(Tri(0.95047f * Y, Y, 1.08883f * Y));
    double L = std::cbrt((double)Y);
    c.near("white L", g[0], L, 5e-4 * L);
    c.near("white a", g[1], 0, 5e-4 * L);
    c.near("white b", g[2], 0, 5e-4 * L);
}
PROPERTY(silent, 40000, 400000, 0.1,
    "both conversions of a random colour with standard output and error redirected to a file that must stay empty; "
    "non-trivial: not black")
{
    Tri t = genXYZ(c);
    c.note3("XYZ", t);
    if (t[0] != 0 || t[1] != 0 || t[2] != 0)
        c.nontrivial();
    std::string out = captured([&]() {
        Tri l = XYZ_to_OKLAB(t);
        OKLAB_to_XYZ(l);
        OKLAB_to_XYZ(t);
    });
    if (!out.empty())
        c.fail("wrote to the program's output: %.100s", out.c_str());
}
