// C19: observers
#include "obs.hpp"

static const char *CH[3] = {"X", "Y", "Z"};
PROPERTY(spectrum_, 700000, 10000000, 0.05,
    "observer (built-in or from three random matching functions, negative lobes included) and a spectrum: XYZ equals the "
    "normalised wavelength sums in double; equal energy gives (1,1,1); non-negative for non-negative light; non-trivial: "
    "spectrum not zero")
{
    Obs o;
    genObs(c.s, o);
    Spectrum s = c.s.draw(3) ? spectrum(c.s) : light(c.s);
    c.notef("observer %s", o.name);
    noteSpec(c, "s", s);
    c.label(o.name);
    if (dsumAbs(s) > 0)
        c.nontrivial();
    Tri    t = o.o->fromSpectrum(s), e = o.o->fromSpectrum(Spectrum::E());
    double v[400], one[400];
    bool   neg = false;
    for (int i = 0; i < 400; i++)
        v[i] = s[i], one[i] = 1, neg |= s[i] < 0;
    c.note3("XYZ", t);
    for (int k = 0; k < 3; k++)
    {
        double tol, w = integrate(v, o.m[k], &tol);
        c.near(CH[k], t[k], w, tol);
        integrate(one, o.m[k], &tol);
        c.near("equal energy", e[k], 1, tol);
        bool mneg = false;
        for (int i = 0; i < 400; i++)
            mneg |= o.m[k][i] < 0;
        if (!neg && !mneg)
            c.check(t[k] >= 0, "negative XYZ from non-negative light");
    }
}
PROPERTY(linear, 400000, 6000000, 0.05,
    "observer, two spectra and a factor: XYZ of a sum is the sum of XYZ, XYZ of a multiple is the multiple; non-trivial: "
    "both spectra not zero")
{
    Obs o;
    genObs(c.s, o);
    Spectrum a = spectrum(c.s), b = spectrum(c.s);
    float    k = smag(c.s, 1e-3, 1e3);
    c.notef("observer %s k=%.9g", o.name, k);
    noteSpec(c, "a", a);
    noteSpec(c, "b", b);
    if (dsumAbs(a) > 0 && dsumAbs(b) > 0)
        c.nontrivial();
    Tri    ta = o.o->fromSpectrum(a), tb = o.o->fromSpectrum(b), ts = o.o->fromSpectrum(a + b), tk = o.o->fromSpectrum(a * k);
    double va[400], vb[400];
    for (int i = 0; i < 400; i++)
        va[i] = a[i], vb[i] = b[i];
    for (int j = 0; j < 3; j++)
    {
        double ea, eb, w = integrate(va, o.m[j], &ea);
        integrate(vb, o.m[j], &eb);
        c.near("additive", ts[j], (double)ta[j] + tb[j], 2 * (ea + eb));
        c.near("homogeneous", tk[j], (double)ta[j] * k, 2 * ea * std::fabs(k) + 4 * EPS * std::fabs(w * k) + 1e-30);
    }
}
PROPERTY(reflectance, 500000, 8000000, 0.05,
    "observer, reflectance and light (sometimes the same object, or a matching function of the observer): equals the triple wavelength sum in double, the XYZ of their product, and the "
    "exchanged arguments; non-trivial: product not zero")
{
    Obs o;
    genObs(c.s, o);
    Spectrum r0 = spectrum(c.s, c.s.coin()), l0 = light(c.s);
    // sometimes one object in both places, or a matching function of the observer itself
    u64             same = c.s.draw(12);
    const Spectrum &r = same == 1 ? l0 : same == 2 ? o.o->X_ : same == 3 ? o.o->Y_ : same == 4 ? o.o->Z_ : r0;
    const Spectrum &l = same == 5 ? r0 : same == 6 ? o.o->Y_ : l0;
    c.notef("observer %s%s", o.name, &r == &l ? ", one object in both places" : "");
    noteSpec(c, "r", r);
    noteSpec(c, "l", l);
    Tri    a = o.o->fromReflectanceAndLight(r, l), b = o.o->fromReflectanceAndLight(l, r), d = o.o->fromSpectrum(r * l);
    double v[400];
    bool   nz = false;
    for (int i = 0; i < 400; i++)
        v[i] = (double)r[i] * l[i], nz |= v[i] != 0;
    if (nz)
        c.nontrivial();
    for (int k = 0; k < 3; k++)
    {
        double tol, w = integrate(v, o.m[k], &tol);
        c.near(CH[k], a[k], w, tol);
        c.near("exchanged", b[k], w, tol);
        c.near("product", d[k], w, tol);
    }
}
static double at(const float *m, double t, double *tol)
{
    if (t <= 380)
    {
        *tol = EPS * std::fabs(m[0]) * 4;
        return m[0];
    }
    if (t >= 779)
    {
        *tol = EPS * std::fabs(m[399]) * 4;
        return m[399];
    }
    int    i = std::min(398, (int)(t - 380));
    double f = t - 380 - i, d = std::fabs((double)m[i + 1] - m[i]);
    if (i)
        d = std::max(d, std::fabs((double)m[i] - m[i - 1]));
    if (i < 398)
        d = std::max(d, std::fabs((double)m[i + 2] - m[i + 1]));
    *tol = d * EPS * 16 * 800 + 4 * EPS * (std::fabs(m[i]) + std::fabs(m[i + 1]));
    return m[i] * (1 - f) + m[i + 1] * f;
}
PROPERTY(monochromatic, 2500000, 40000000, 0.05,
    "observer, wavelength (grid, between, outside) and power (1e-9..1e9, either sign): lumens and candelas are 683 times the interpolated matching "
    "function times the power; normalised xyz is the matching function over its sum; non-trivial: inside 380..779")
{
    Obs o;
    if (c.s.draw(4))
    { // built-in observers are cheap to pick
        genObs(c.s, o);
        if (o.builtin < 0 && c.s.draw(4))
            return;
    }
    else
        genObs(c.s, o);
    float t = c.s.coin() ? 380.f + c.s.draw(400) : c.s.draw(8) ? (float)c.s.uniform(380, 779) : (float)c.s.uniform(300, 900);
    float w = c.s.draw(3) ? smag(c.s, 1e-3, 1e3) : c.s.coin() ? 1.f : smag(c.s, 1e-9, 1e9);
    c.notef("observer %s lambda=%.9g power=%.9g", o.name, t, w);
    if (t >= 380 && t <= 779)
        c.nontrivial();
    float lm = o.o->lumensFromMonochromaticFlux(t, w);
    Tri   cd = o.o->candellasFromMonochromaticRadiance(t, w), n = o.o->xyz(t);
    for (int k = 0; k < 3; k++)
    {
        double e, m = at(o.m[k], t, &e), sc = 683.0 * std::fabs(w), ma, ms = msum(o.m[k], &ma);
        c.near("candela", cd[k], m * 683 * w, e * sc + 6 * EPS * std::fabs(m) * sc + 1e-30);
        if (k == 1)
            c.near("lumen", lm, m * 683 * w, e * sc + 6 * EPS * std::fabs(m) * sc + 1e-30);
        c.near("normalised", n[k], m / ms, (e + std::fabs(m) * (8 * EPS + 800 * EPS * ma / ms)) / ms + 1e-30);
    }
}
SWEEP(lines, 3 * 400, 1, 1, 1, "each built-in observer with a single line at each wavelength: the XYZ is the published table value over the sum; non-trivial: all")
{
    u64     k = c.s.draw(1200);
    int     ob = (int)(k / 400), i = (int)(k % 400);
    Obs     o;
    Src     pick;
    pick.replay({(u64)ob});
    genObs(pick, o);
    SpecArr v;
    v.fill(0.f);
    v[i] = 1;
    c.notef("%s %dnm", o.name, 380 + i);
    c.nontrivial();
    Tri t = o.o->fromSpectrum(Spectrum(v));
    for (int j = 0; j < 3; j++)
    {
        double ms = msum(o.m[j]);
        c.near("line", t[j], o.m[j][i] / ms, 450 * EPS * o.m[j][i] / ms);
    }
}
