// C20: built-in spectral data
#include "cs.hpp"
#include "ref_tables.inc"

static const int NT = 133;
static const Spectrum *direct(int k)
{
    static const Spectrum *T[NT];
    static bool            done = false;
    if (!done)
    {
        int n = 0;
        const Spectrum *C[] = {&CIE1931_X, &CIE1931_Y, &CIE1931_Z, &CIE2012_X, &CIE2012_Y, &CIE2012_Z, &CIE1931_JuddVos_X,
            &CIE1931_JuddVos_Y, &CIE1931_JuddVos_Z, &CIE_D65};
        for (auto p : C)
            T[n++] = p;
        using namespace TM_30_15;
#define D(a) &CES##a##1, &CES##a##2, &CES##a##3, &CES##a##4, &CES##a##5, &CES##a##6, &CES##a##7, &CES##a##8, &CES##a##9
        const Spectrum *S[] = {D(0), &CES10, D(1), &CES20, D(2), &CES30, D(3), &CES40, D(4), &CES50, D(5), &CES60, D(6), &CES70,
            D(7), &CES80, D(8), &CES90, D(9)};
        for (auto p : S)
            T[n++] = p;
        using namespace Macbeth;
#define R(a) &Macbeth##a##1, &Macbeth##a##2, &Macbeth##a##3, &Macbeth##a##4, &Macbeth##a##5, &Macbeth##a##6
        const Spectrum *M[] = {R(0), R(1), R(2), R(3)};
        for (auto p : M)
            T[n++] = p;
        done = true;
    }
    return T[k];
}
// the same table through a list or an observer
static const Spectrum *other(int k)
{
    if (k < 10)
        return direct(k);
    if (k < 109)
        return &TM_30_15::sample[k - 10];
    return &Macbeth::Patch[k - 109];
}
// the observer's matching function at a wavelength: candela per W/sr/m2 over 683
static double through(int k, float t)
{
    static const Observer *O[3] = {&CIE1931, &CIE2012, &CIE31JV};
    return O[k / 3]->candellasFromMonochromaticRadiance(t, 1.f)[k % 3] / 683.0;
}
// largest neighbour difference around sample i, times the position error of a float wavelength
static double slope(const float *v, int i)
{
    double d = 0;
    for (int j = std::max(0, i - 1); j < std::min(399, i + 2); j++)
        d = std::max(d, std::fabs((double)v[j + 1] - v[j]));
    return d * EPS * 16 * 800;
}
static double kind(int k) { return k < 9 ? 3 : k == 9 ? 200 : 1; } // largest plausible value
SWEEP(entries, NT * 400, 1, 1, 1,
    "every entry of every built-in table through the spectrum, its array, fetch at the wavelength, the observer or the sample / "
    "patch list, against the reference copy; 0 <= value <= 1 for reflectances; non-trivial: all")
{
    u64   n = c.s.draw(NT * 400);
    int   k = (int)(n / 400), i = (int)(n % 400);
    float w = REF_TABLES[k].v[i];
    c.notef("%s[%dnm]=%.9g", REF_TABLES[k].name, 380 + i, w);
    c.nontrivial();
    const Spectrum &d = *direct(k), &o = *other(k);
    double          tol = 2 * EPS * w;
    c.near("table", d[i], w, tol);
    c.near("array", d.s()[i], w, tol);
    c.near("fetch", d.fetch(380.f + i), w, tol + slope(REF_TABLES[k].v, i));
    c.near("list", o[i], w, tol);
    if (k < 9)
        c.near("observer", through(k, 380.f + i), w, 8 * EPS * w + slope(REF_TABLES[k].v, i));
    c.check(d[i] >= 0 && d[i] <= kind(k), "value out of range");
}
PROPERTY(between, 6000000, 80000000, 0.03,
    "table, access path and any wavelength 300..900 nm: linear interpolation of the reference copy; non-trivial: inside "
    "380..779 and off the grid")
{
    int   k = (int)c.s.draw(NT);
    bool  ot = c.s.coin();
    float t = c.s.draw(6) ? (float)c.s.uniform(380, 779) : (float)c.s.uniform(300, 900);
    c.notef("%s lambda=%.9g", REF_TABLES[k].name, t);
    const Spectrum &s = ot ? *other(k) : *direct(k);
    const float    *v = REF_TABLES[k].v;
    double          w, tol;
    if (t <= 380 || t >= 779)
        w = t <= 380 ? v[0] : v[399], tol = 8 * EPS * w;
    else
    {
        c.nontrivial();
        int    i = std::min(398, (int)(t - 380));
        double f = (double)t - 380 - i;
        w        = v[i] * (1 - f) + v[i + 1] * f;
        tol      = slope(v, i) + 4 * EPS * (v[i] + v[i + 1]);
    }
    c.near("interpolated", s.fetch(t), w, tol);
    if (k < 9 && ot)
        c.near("through the observer", through(k, t), w, tol + 8 * EPS * w);
}
SWEEP(lists, 3, 1, 1, 1, "list sizes and published landmarks (CIE 1931 at 450..650 nm, D65 = 100 at 560 nm, peaks); non-trivial: all")
{
    c.nontrivial();
    switch (c.s.draw(3))
    {
    case 0:
        c.notef("list sizes");
        c.check(TM_30_15::sample.size() == 99 && Macbeth::Patch.size() == 24, "list size");
        break;
    case 1: {
        c.notef("CIE 1931 five-digit values");
        static const double P[][4] = {{400, 0.01431, 0.000396, 0.06785}, {450, 0.3362, 0.038, 1.77211}, {500, 0.0049, 0.323, 0.272},
            {550, 0.433449, 0.99495, 0.00875}, {555, 0.51205, 1, 0.00575}, {600, 1.0622, 0.631, 0.0008}, {650, 0.2835, 0.107, 0},
            {700, 0.01135916, 0.004102, 0}};
        for (auto &p : P)
        {
            c.near("x", CIE1931_X.fetch((float)p[0]), p[1], 2e-5);
            c.near("y", CIE1931_Y.fetch((float)p[0]), p[2], 2e-5);
            c.near("z", CIE1931_Z.fetch((float)p[0]), p[3], 2e-5);
        }
        break;
    }
    default:
        c.notef("D65 landmarks");
        c.near("D65 560", CIE_D65.fetch(560.f), 100, 1e-4);
        c.near("D65 400", CIE_D65.fetch(400.f), 82.7549, 1e-3);
        c.near("D65 700", CIE_D65.fetch(700.f), 71.6091, 1e-3);
        c.near("D65 450", CIE_D65.fetch(450.f), 117.008, 1e-3);
    }
}
