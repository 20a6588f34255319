// C06: gamut from primaries
#include "cs.hpp"

struct Prim
{
    float p[8];
};
static double area(const float *p)
{
    return ((double)p[2] - p[0]) * ((double)p[5] - p[1]) - ((double)p[4] - p[0]) * ((double)p[3] - p[1]);
}
static bool gen(Ctx &c, Prim &o)
{
    Src &s = c.s;
    static const Prim KNOWN[] = {{{0.64f, 0.33f, 0.21f, 0.71f, 0.15f, 0.06f, 0.3127f, 0.3290f}},
        {{0.708f, 0.292f, 0.17f, 0.797f, 0.131f, 0.046f, 0.3127f, 0.3290f}},
        {{0.68f, 0.32f, 0.265f, 0.69f, 0.15f, 0.06f, 0.314f, 0.351f}},
        {{0.73470f, 0.26530f, 0.f, 1.f, 0.0001f, -0.077f, 0.32168f, 0.33767f}},
        {{0.766f, 0.275f, 0.225f, 0.800f, 0.089f, -0.087f, 0.3127f, 0.3290f}},
        {{0.67f, 0.33f, 0.21f, 0.71f, 0.14f, 0.08f, 0.310f, 0.316f}},
        {{1.f, 0.f, 0.f, 1.f, 0.f, 0.f, 1.f / 3, 1.f / 3}}};
    switch (s.draw(4))
    {
    case 0:
        o = KNOWN[s.draw(7)];
        break;
    case 1: // perturbed real gamut
        o = KNOWN[s.draw(6)];
        for (int i = 0; i < 6; i++)
            o.p[i] += (float)s.uniform(-0.04, 0.04);
        break;
    default: // any triangle, possibly reaching outside the locus
        for (int i = 0; i < 6; i++)
            o.p[i] = (float)s.uniform(-0.1, 1.0);
    }
    if (s.coin())
    { // relabel the primaries
        int k = (int)s.draw(3), l = (int)s.draw(3);
        std::swap(o.p[2 * k], o.p[2 * l]);
        std::swap(o.p[2 * k + 1], o.p[2 * l + 1]);
    }
    if (s.draw(3))
    { // white strictly inside
        double a = s.uniform(0.08, 1), b = s.uniform(0.08, 1), d = s.uniform(0.08, 1), t = a + b + d;
        o.p[6] = (float)((a * o.p[0] + b * o.p[2] + d * o.p[4]) / t);
        o.p[7] = (float)((a * o.p[1] + b * o.p[3] + d * o.p[5]) / t);
    }
    bool outside = s.draw(4) == 0; // a white outside the triangle is unusual but well defined
    // keep non-degenerate triangles whose white is inside and has y clearly positive
    double A = area(o.p);
    if (std::fabs(A) < 0.002 || o.p[7] < 0.05f)
        return false;
    for (int i = 0; i < 3; i++)
    {
        float q[6];
        memcpy(q, o.p, sizeof q);
        q[2 * i]     = o.p[6];
        q[2 * i + 1] = o.p[7];
        if (area(q) / A < 0.01 && !(outside && area(q) / A < -0.01 && area(q) / A > -3))
            return false;
    }
    return true;
}
static D9 refMatrix(const float *p, double &cond)
{
    D9     m;
    for (int i = 0; i < 3; i++)
    {
        m[i]     = p[2 * i];
        m[3 + i] = p[2 * i + 1];
        m[6 + i] = 1 - (double)p[2 * i] - p[2 * i + 1];
    }
    cond = dcond(m);
    D3 w{{(double)p[6] / p[7], 1, (1 - (double)p[6] - p[7]) / p[7]}};
    D3 k = dapply(dinv(m), w);
    D9 o;
    for (int i = 0; i < 9; i++)
        o[i] = m[i] * k[i % 3];
    return o;
}
PROPERTY(primaries, 3000000, 50000000, 0.05,
    "primary triangles (real gamuts, perturbed ones, arbitrary ones outside the locus, relabelled) with the white inside, sometimes outside, "
    "and a device colour; degenerate triangles are discarded; non-trivial: every kept triangle")
{
    Prim p;
    bool ok = gen(c, p);
    Tri  t  = svec(c.s, 1e-4, 1e3);
    c.notef("primaries R(%.7g,%.7g) G(%.7g,%.7g) B(%.7g,%.7g) W(%.7g,%.7g)", p.p[0], p.p[1], p.p[2], p.p[3], p.p[4],
        p.p[5], p.p[6], p.p[7]);
    c.note3("colour", t);
    if (!ok)
    {
        c.label("discarded: degenerate");
        return;
    }
    c.nontrivial();
    const float *q = p.p;
    const char  *name = "generated";
    Gamut        g(name, q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]);
    c.check(g.name() == std::string(name), "name");
    double cond;
    D9     M = refMatrix(q, cond);
    double nm = dnorm9(M), tol = 24 * EPS * cond * nm;
    Mat    m = g.toXYZ();
    for (int i = 0; i < 9; i++)
    {
        c.near("toXYZ matrix", m[i], M[i], tol);
        c.near("fromPrimaries matrix", Mat(Gamut::fromPrimaries(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]))[i],
            M[i], tol);
    }
    // white and primaries of the conversion
    Tri    w  = g.toXYZ(Tri(1.f, 1.f, 1.f));
    double wx = (double)q[6] / q[7], wz = (1 - (double)q[6] - q[7]) / q[7];
    c.near("white X", w[0], wx, tol * 2);
    c.near("white Y", w[1], 1, tol * 2);
    c.near("white Z", w[2], wz, tol * 2);
    Tri rep[3] = {g.primaryRed(), g.primaryGreen(), g.primaryBlue()};
    for (int i = 0; i < 3; i++)
    {
        Tri    e = g.toXYZ(Tri(i == 0, i == 1, i == 2));
        double s = (double)e[0] + e[1] + e[2];
        double rt = tol * 4 / std::fabs(M[i] + M[3 + i] + M[6 + i]) + 8 * EPS;
        if (rt < 1e-2)
        {
            c.near("primary x", e[0] / s, q[2 * i], rt);
            c.near("primary y", e[1] / s, q[2 * i + 1], rt);
            c.near("reported primary x", rep[i][0], q[2 * i], rt);
            c.near("reported primary y", rep[i][1], q[2 * i + 1], rt);
            c.near("reported primary z", rep[i][2], 1 - (double)q[2 * i] - q[2 * i + 1], rt);
        }
    }
    Tri rw = g.primaryWhite();
    c.near("reported white X", rw[0], wx, tol * 6);
    c.near("reported white Y", rw[1], 1, tol * 6);
    c.near("reported white Z", rw[2], wz, tol * 6);
    // inverse directions
    D9     I  = dinv(M);
    double ct = dnorm9(M) * dnorm9(I);
    Mat    f  = g.fromXYZ();
    if (ct * EPS * cond < 1e-3)
    {
        D9 P1 = dmul(d9(m), d9(f)), P2 = dmul(d9(f), d9(m));
        for (int i = 0; i < 9; i++)
        {
            c.near("toXYZ*fromXYZ = identity", P1[i], i % 4 ? 0 : 1, 16 * EPS * ct * (1 + cond));
            c.near("fromXYZ*toXYZ = identity", P2[i], i % 4 ? 0 : 1, 16 * EPS * ct * (1 + cond));
        }
        double mx = dmax3(d3(t));
        Tri    a = g.fromXYZ(g.toXYZ(t)), b = g.toXYZ(g.fromXYZ(t));
        for (int i = 0; i < 3; i++)
        {
            c.near("fromXYZ(toXYZ(c))", a[i], t[i], mx * 32 * EPS * ct * (1 + cond));
            c.near("toXYZ(fromXYZ(c))", b[i], t[i], mx * 32 * EPS * ct * (1 + cond));
        }
    }
    // colour overload applies the matrix
    D3 x1 = dapply(d9(m), d3(t)), x2 = dapply(d9(f), d3(t));
    D3 s1 = dapply(dabs9(d9(m)), dabs3(d3(t))), s2 = dapply(dabs9(d9(f)), dabs3(d3(t)));
    Tri y1 = g.toXYZ(t), y2 = g.fromXYZ(t);
    for (int i = 0; i < 3; i++)
    {
        c.near("toXYZ(colour) is matrix times colour", y1[i], x1[i], 8 * EPS * s1[i] + TINY);
        c.near("fromXYZ(colour) is matrix times colour", y2[i], x2[i], 8 * EPS * s2[i] + TINY);
    }
}
PROPERTY(from_matrix, 2000000, 40000000, 0.05,
    "gamut from an invertible XYZ-to-device matrix of any shape (scale 1e-3..1e3); non-trivial: inverted and not diagonal")
{
    Mat    m = matrix(c.s, 1e-3, 1e3);
    Tri    t = svec(c.s, 1e-3, 1e3);
    c.note9("fromXYZ", m);
    c.note3("colour", t);
    D9     M   = d9(m);
    double det = ddet(M), rel = std::fabs(det) > 0 ? 16 * EPS * dperm(M) / std::fabs(det) : 1e9;
    if (!(rel < 1e-3))
    {
        c.label("skipped: near singular");
        return;
    }
    bool diag = true;
    for (int i = 0; i < 9; i++)
        if (i % 4 && M[i] != 0)
            diag = false;
    if (!diag)
        c.nontrivial();
    Gamut  g("device", m);
    Mat    f = g.fromXYZ(), x = g.toXYZ();
    D9     I = dinv(M);
    double cond = dnorm9(M) * dnorm9(I);
    c.check(g.name() == std::string("device"), "name");
    for (int i = 0; i < 9; i++)
    {
        c.check(f[i] == m[i], "fromXYZ is not the given matrix");
        c.near("toXYZ is the inverse", x[i], I[i], std::fabs(I[i]) * rel + 16 * EPS * cond * dnorm9(I));
    }
    // it reports the primaries and white of its own conversion, whatever their luminance
    D9  X  = d9(x);
    Tri rw = g.primaryWhite(), rep[3] = {g.primaryRed(), g.primaryGreen(), g.primaryBlue()};
    double wabs[3] = {0, 0, 0}, amp = 1;
    bool   okp = true;
    for (int i = 0; i < 3; i++)
    {
        double sum = X[i] + X[3 + i] + X[6 + i], as = std::fabs(X[i]) + std::fabs(X[3 + i]) + std::fabs(X[6 + i]);
        if (std::fabs(sum) < 1e-3 * as || as == 0)
        {
            okp = false;
            continue;
        }
        double a = as / std::fabs(sum);
        amp      = std::max(amp, a);
        for (int k = 0; k < 3; k++)
            c.near("reported primary of a matrix gamut", rep[i][k], X[3 * k + i] / sum,
                8 * EPS * a * std::fabs(X[3 * k + i] / sum) + 1e-30);
    }
    if (okp)
        for (int k = 0; k < 3; k++)
        {
            wabs[k] = std::fabs(X[3 * k]) + std::fabs(X[3 * k + 1]) + std::fabs(X[3 * k + 2]);
            c.near("reported white of a matrix gamut", rw[k], X[3 * k] + X[3 * k + 1] + X[3 * k + 2],
                16 * EPS * amp * wabs[k] + 1e-30);
        }
    Tri    b  = g.fromXYZ(g.toXYZ(t));
    double mx = dmax3(d3(t));
    for (int i = 0; i < 3; i++)
        c.near("there and back", b[i], t[i], mx * (48 * EPS * cond * cond + 4 * rel * cond));
}
