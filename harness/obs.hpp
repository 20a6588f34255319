// Observers and lights for the spectral properties.
#pragma once
#include "cs.hpp"
#include "ref_tables.inc"

struct Obs
{
    const Observer *o;
    const char     *name;
    int             builtin; // 0 CIE1931, 1 Judd-Vos, 2 CIE2012, -1 custom
    Observer        own;
    const float    *m[3];    // matching functions (reference copies for the built-in ones)
    Obs() : o(nullptr), name(""), builtin(-1), own(Spectrum::E(), Spectrum::E(), Spectrum::E()) {}
};
// matching function with a positive sum
static inline Spectrum matching(Src &s)
{
    Spectrum a = spectrum(s, true);
    SpecArr  v = a.s();
    if (s.draw(4) == 0) // with a negative lobe, as RGB matching functions have
    {
        int x = (int)s.draw(400), n = s.range(1, 60);
        for (int i = x; i < std::min(400, x + n); i++)
            v[i] = -0.2f * std::fabs(v[i]);
    }
    double t = 0, ta = 0;
    for (float f : v)
        t += f, ta += std::fabs(f);
    if (!(t > 0.3 * ta) || ta < 1e-4)
        v[s.draw(400)] += (float)(ta + 1);
    return Spectrum(v);
}
static inline void genObs(Src &s, Obs &b)
{
    int k = (int)s.draw(6);
    if (k < 3)
    {
        static const Observer *O[3] = {&CIE1931, &CIE31JV, &CIE2012};
        static const char     *N[3] = {"CIE1931", "CIE31JV", "CIE2012"};
        static const float    *R[3][3] = {{REF_CIE1931_X, REF_CIE1931_Y, REF_CIE1931_Z},
               {REF_CIE1931_JuddVos_X, REF_CIE1931_JuddVos_Y, REF_CIE1931_JuddVos_Z}, {REF_CIE2012_X, REF_CIE2012_Y, REF_CIE2012_Z}};
        b.o = O[k], b.name = N[k], b.builtin = k;
        for (int i = 0; i < 3; i++)
            b.m[i] = R[k][i];
        return;
    }
    Spectrum x = matching(s), y = matching(s), z = s.draw(5) ? matching(s) : x;
    b.own      = Observer(x, y, z);
    b.o        = &b.own;
    b.name     = "custom";
    b.builtin  = -1;
    static thread_local SpecArr keep[3];
    keep[0] = x.s(), keep[1] = y.s(), keep[2] = z.s();
    for (int i = 0; i < 3; i++)
        b.m[i] = keep[i].data();
}
static inline double msum(const float *m, double *abs = nullptr)
{
    double t = 0, a = 0;
    for (int i = 0; i < 400; i++)
        t += m[i], a += std::fabs(m[i]);
    if (abs)
        *abs = a;
    return t;
}
// sum_i v_i m_i / sum m, with a float error bound; v may be a product of two spectra
static inline double integrate(const double *v, const float *m, double *tol)
{
    double s = 0, sa = 0, ma, ms = msum(m, &ma);
    for (int i = 0; i < 400; i++)
        s += v[i] * m[i], sa += std::fabs(v[i] * m[i]);
    *tol = (450 * EPS * sa + std::fabs(s) * 420 * EPS * ma / std::fabs(ms)) / std::fabs(ms) + 8 * EPS * std::fabs(s / ms) + 1e-30; // products may underflow on the way
    return s / ms;
}
static inline Spectrum light(Src &s)
{
    switch (s.draw(4))
    {
    case 0:
        return Spectrum::blackbody((float)s.logu(1000, 20000)) * (float)s.logu(1e-3, 1e3);
    case 1:
        return CIE_D65;
    default:
        return spectrum(s, true);
    }
}
