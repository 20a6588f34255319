// C07: named gamuts and gamut conversion
#include "cs.hpp"

struct Std
{
    const char  *n;
    const Gamut *g;
    double       p[8];
};
static const Std STD[] = {{"AdobeRGB", &AdobeRGB, {0.64, 0.33, 0.21, 0.71, 0.15, 0.06, 0.3127, 0.3290}},
    {"Rec.709", &Rec709, {0.64, 0.33, 0.30, 0.60, 0.15, 0.06, 0.3127, 0.3290}},
    {"Rec.2020", &Rec2020, {0.708, 0.292, 0.170, 0.797, 0.131, 0.046, 0.3127, 0.3290}},
    {"DCI-P3", &DCI_P3, {0.680, 0.320, 0.265, 0.690, 0.150, 0.060, 0.314, 0.351}},
    {"S-Gamut", &S_Gamut, {0.730, 0.280, 0.140, 0.855, 0.100, -0.050, 0.3127, 0.3290}},
    {"S-Gamut3.Cine", &S_Gamut3_Cine, {0.766, 0.275, 0.225, 0.800, 0.089, -0.087, 0.3127, 0.3290}},
    {"ACEScg (AP1)", &ACEScg, {0.713, 0.293, 0.165, 0.830, 0.128, 0.044, 0.32168, 0.33767}},
    {"ACES2065-1 (AP0)", &ACES2065, {0.7347, 0.2653, 0.0, 1.0, 0.0001, -0.0770, 0.32168, 0.33767}}};
static D9 refTo(const double *p)
{
    D9 m;
    for (int i = 0; i < 3; i++)
    {
        m[i]     = p[2 * i];
        m[3 + i] = p[2 * i + 1];
        m[6 + i] = 1 - p[2 * i] - p[2 * i + 1];
    }
    D3 w{{p[6] / p[7], 1, (1 - p[6] - p[7]) / p[7]}};
    D3 k = dapply(dinv(m), w);
    D9 o;
    for (int i = 0; i < 9; i++)
        o[i] = m[i] * k[i % 3];
    return o;
}
static const D9 BRAD{{0.8951, 0.2664, -0.1614, -0.7502, 1.7135, 0.0367, 0.0389, -0.0685, 1.0296}};
static const D9 IDENT{{1, 0, 0, 0, 1, 0, 0, 0, 1}};
// toXYZ reference of gamut number i (0..9)
static D9 refGamut(int i)
{
    if (i < 8)
        return refTo(STD[i].p);
    return i == 8 ? dinv(BRAD) : IDENT;
}
static const Gamut &gam(int i) { return i < 8 ? *STD[i].g : i == 8 ? ColorSystem::LMS : ColorSystem::XYZ; }
static const char  *gname(int i) { return i < 8 ? STD[i].n : i == 8 ? "LMS" : "XYZ"; }

SWEEP(standards, 10, 1, 1, 1.0,
    "every named gamut: both matrices, reported primaries and white compared with the published chromaticities in double; "
    "non-trivial: all")
{
    int i = (int)c.s.draw(10);
    c.nontrivial();
    c.notef("gamut %s", gname(i));
    D9           M = refGamut(i), I = dinv(M);
    const Gamut &g = gam(i);
    double       k = dnorm9(M) * dnorm9(I);
    for (int j = 0; j < 9; j++)
    {
        c.near("toXYZ", g.toXYZ()[j], M[j], 24 * EPS * k * dnorm9(M));
        c.near("fromXYZ", g.fromXYZ()[j], I[j], 24 * EPS * k * dnorm9(I));
    }
    if (i < 8)
    {
        const double *p = STD[i].p;
        Tri           pr[3] = {g.primaryRed(), g.primaryGreen(), g.primaryBlue()};
        for (int j = 0; j < 3; j++)
        {
            c.near("primary x", pr[j][0], p[2 * j], 2e-6);
            c.near("primary y", pr[j][1], p[2 * j + 1], 2e-6);
            c.near("primary z", pr[j][2], 1 - p[2 * j] - p[2 * j + 1], 2e-6);
        }
        Tri w = g.primaryWhite();
        c.near("white X", w[0], p[6] / p[7], 6e-6);
        c.near("white Y", w[1], 1, 6e-6);
        c.near("white Z", w[2], (1 - p[6] - p[7]) / p[7], 6e-6);
        Tri wc = g.toXYZ(Tri(1, 1, 1)).toYxy();
        c.near("white x of (1,1,1)", wc[1], p[6], 4e-6);
        c.near("white y of (1,1,1)", wc[2], p[7], 4e-6);
    }
}
// a named gamut, or one made from generated primaries / a generated matrix
struct G
{
    Gamut g;
    D9    to;
    int   named;
};
static G pickG(Ctx &c)
{
    Src &s = c.s;
    int  i = (int)s.draw(13);
    if (i < 10)
    {
        c.notef("gamut %s", gname(i));
        return G{gam(i), refGamut(i), i};
    }
    if (i == 10)
    {
        float m[9];
        for (int j = 0; j < 9; j++)
            m[j] = (float)((j % 4 == 0) + 0.3 * s.uniform(-1, 1));
        Mat f(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]);
        c.note9("gamut from matrix", f);
        return G{Gamut("m", f), dinv(d9(f)), -1};
    }
    const double *q = STD[s.draw(8)].p;
    float         f[8];
    double        d[8];
    for (int j = 0; j < 8; j++)
    {
        f[j] = (float)(q[j] + s.uniform(-0.03, 0.03));
        d[j] = f[j];
    }
    c.notef("gamut from primaries (%.6g,%.6g)(%.6g,%.6g)(%.6g,%.6g)(%.6g,%.6g)", d[0], d[1], d[2], d[3], d[4], d[5], d[6],
        d[7]);
    return G{Gamut("p", f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7]), refTo(d), -1};
}
PROPERTY(convert, 4000000, 80000000, 0.04,
    "source, destination and third gamut drawn from the ten named ones and from generated primaries or matrices, and a "
    "device colour of any sign, 1e-4..1e3; non-trivial: source and destination differ and the colour is not grey")
{
    G   a = pickG(c), b = pickG(c), d = pickG(c);
    Tri t = svec(c.s, 1e-4, 1e3);
    c.note3("colour", t);
    if (hasVarietyD(t) && !(a.named >= 0 && a.named == b.named))
        c.nontrivial();
    Mat    m  = GamutConvert(a.g, b.g);
    D9     Ib = dinv(b.to), Ia = dinv(a.to), Id = dinv(d.to);
    D9     R  = dmul(Ib, a.to);
    double ka = dnorm9(a.to) * dnorm9(Ia), kb = dnorm9(b.to) * dnorm9(Ib), kd = dnorm9(d.to) * dnorm9(Id);
    double nr = dnorm9(Ib) * dnorm9(a.to);
    for (int i = 0; i < 9; i++)
        c.near("conversion matrix", m[i], R[i], 16 * EPS * (ka + kb) * nr);
    double mx = dmax3(d3(t));
    Tri    o  = t.apply(m);
    Tri    x1 = a.g.toXYZ(t), x2 = b.g.toXYZ(o);
    for (int i = 0; i < 3; i++)
        c.near("same XYZ", x2[i], x1[i], 16 * EPS * (ka + kb) * nr * dnorm9(b.to) * mx + TINY);
    Tri back = o.apply(GamutConvert(b.g, a.g));
    for (int i = 0; i < 3; i++)
        c.near("there and back", back[i], t[i], 16 * EPS * (ka + kb) * ka * kb * mx + TINY);
    Mat id = GamutConvert(a.g, a.g);
    for (int i = 0; i < 9; i++)
        c.near("to itself", id[i], i % 4 ? 0 : 1, 16 * EPS * ka * ka);
    Tri    via = t.apply(GamutConvert(a.g, d.g)).apply(GamutConvert(d.g, b.g));
    double nv  = dnorm9(Ib) * dnorm9(d.to) * dnorm9(Id) * dnorm9(a.to);
    for (int i = 0; i < 3; i++)
        c.near("through a third gamut", via[i], o[i], 16 * EPS * (ka + kb + 2 * kd) * nv * mx + TINY);
}
