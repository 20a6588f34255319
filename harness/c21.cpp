// C21: Macbeth chart
#include "obs.hpp"

static const float *patchRef(int i) { return REF_TABLES[109 + i].v; }
PROPERTY(chart, 25000, 400000, 0.1,
    "light (blackbody, D65, lines, blocks, noise, any scale) and observer (built-in, custom or the default): each of the "
    "24 colours equals the triple sum of the reference reflectance, light and matching function in double; non-trivial: "
    "light not zero")
{
    bool def = c.s.draw(5) == 0;
    Obs  o;
    if (def)
    {
        Src p;
        p.replay({0});
        genObs(p, o);
    }
    else
        genObs(c.s, o);
    Spectrum l = light(c.s);
    c.notef("observer %s%s", o.name, def ? " (default)" : "");
    noteSpec(c, "light", l);
    c.label(def ? "default observer" : o.name);
    if (dsumAbs(l) > 0)
        c.nontrivial();
    c.extra = 23;
    std::vector<Tri> r = def ? Macbeth::reference(l) : Macbeth::reference(l, *o.o);
    c.check(r.size() == 24, "not 24 colours");
    static const char *CH[3] = {"X", "Y", "Z"};
    for (int p = 0; p < 24; p++)
    {
        double v[400];
        for (int i = 0; i < 400; i++)
            v[i] = (double)patchRef(p)[i] * l[i];
        for (int k = 0; k < 3; k++)
        {
            double tol, w = integrate(v, o.m[k], &tol);
            c.near(CH[k], r[p][k], w, tol);
        }
    }
    // neutral row
    bool nonneg = true;
    for (int k = 0; k < 3; k++)
        for (int i = 0; i < 400; i++)
            nonneg &= o.m[k][i] >= 0;
    if (nonneg)
        for (int p = 18; p < 23; p++)
            for (int k = 0; k < 3; k++)
                c.check(r[p][k] >= r[p + 1][k] * (1 - 1e-4f), "neutral patches are not ordered from white to black");
}
PROPERTY(linear, 10000, 200000, 0.1,
    "two lights and a factor: the chart of a sum of lights is the sum of the charts, and scales with the light; "
    "non-trivial: both lights not zero")
{
    Obs o;
    genObs(c.s, o);
    Spectrum a = light(c.s), b = light(c.s);
    float    k = (float)c.s.logu(1e-3, 1e3);
    c.notef("observer %s k=%.9g", o.name, k);
    noteSpec(c, "a", a);
    noteSpec(c, "b", b);
    if (dsumAbs(a) > 0 && dsumAbs(b) > 0)
        c.nontrivial();
    c.extra = 23;
    std::vector<Tri> ra = Macbeth::reference(a, *o.o), rb = Macbeth::reference(b, *o.o), rs = Macbeth::reference(a + b, *o.o),
                     rk = Macbeth::reference(a * k, *o.o);
    for (int p = 0; p < 24; p++)
    {
        double va[400], vb[400];
        for (int i = 0; i < 400; i++)
            va[i] = (double)patchRef(p)[i] * a[i], vb[i] = (double)patchRef(p)[i] * b[i];
        for (int j = 0; j < 3; j++)
        {
            double ea, eb, w = integrate(va, o.m[j], &ea);
            integrate(vb, o.m[j], &eb);
            c.near("additive", rs[p][j], (double)ra[p][j] + rb[p][j], 2 * (ea + eb));
            c.near("homogeneous", rk[p][j], (double)ra[p][j] * k, 2 * ea * k + 4 * EPS * std::fabs(w * k) + 1e-30);
        }
    }
}
SWEEP(lines, 400, 1, 1, 0.3, "unit line light at each wavelength with CIE 1931: 24 x 3 values exact; non-trivial: all")
{
    int     i = (int)c.s.draw(400);
    SpecArr v;
    v.fill(0.f);
    v[i] = 1;
    c.notef("%dnm", 380 + i);
    c.nontrivial();
    c.extra            = 23;
    std::vector<Tri> r = Macbeth::reference(Spectrum(v));
    const float     *m[3] = {REF_CIE1931_X, REF_CIE1931_Y, REF_CIE1931_Z};
    for (int p = 0; p < 24; p++)
        for (int k = 0; k < 3; k++)
        {
            double w = (double)patchRef(p)[i] * m[k][i] / msum(m[k]);
            c.near("line", r[p][k], w, 450 * EPS * w);
        }
}
