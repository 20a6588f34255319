// C17: spectrum arithmetic
#include "cs.hpp"

static bool varied(const Spectrum &a) { return dsumAbs(a) > 0; }
PROPERTY(elementwise, 400000, 6000000, 0.1,
    "two spectra (lines, blocks, ramps, bumps, noise) and a number: sum, product and scaling, static and operator form, "
    "compared at each of the 400 wavelengths; equal-energy spectrum; arguments unchanged; non-trivial: both spectra not "
    "zero")
{
    Spectrum a = spectrum(c.s), b = spectrum(c.s);
    float    k = smag(c.s, 0, 1e3);
    noteSpec(c, "a", a);
    noteSpec(c, "b", b);
    c.note("k", k);
    if (varied(a) && varied(b))
        c.nontrivial();
    c.extra    = 399;
    Spectrum a0 = a, b0 = b;
    Spectrum s = Spectrum::add(a, b), s2 = a + b, p = Spectrum::mul(a, b), p2 = a * b, q = Spectrum::mul(a, k), q2 = a * k,
             aa = Spectrum::add(a, a), aa2 = a + a, qq = Spectrum::mul(a, a), qq2 = a * a, e = Spectrum::E(k), e1 = Spectrum::E(), z;
    for (int i = 0; i < 400; i++)
    {
        double x = a0[i], y = b0[i];
        c.check(a[i] == a0[i] && b[i] == b0[i], "argument changed");
        c.near("add", s[i], x + y, 2 * EPS * std::fabs(x + y) + TINY);
        c.near("mul", p[i], x * y, 2 * EPS * std::fabs(x * y) + TINY);
        c.near("scale", q[i], x * k, 2 * EPS * std::fabs(x * k) + TINY);
        c.check(s[i] == s2[i] && p[i] == p2[i] && q[i] == q2[i], "operator form differs");
        c.near("a + a", aa[i], 2 * x, 2 * EPS * std::fabs(2 * x) + TINY);
        c.near("a * a", qq[i], x * x, 2 * EPS * x * x + TINY);
        c.check(aa[i] == aa2[i] && qq[i] == qq2[i], "operator form differs (same object twice)");
        c.check(e[i] == k && e1[i] == 1.f && z[i] == 0.f, "constant spectrum wrong");
    }
}
PROPERTY(integrals, 1500000, 25000000, 0.05,
    "three spectra: sum, dot product (static and member) and triple product compared with double sums (420 roundings of "
    "the absolute terms), symmetric in the arguments; non-trivial: the terms are not all zero")
{
    Spectrum a = spectrum(c.s), b = spectrum(c.s), d = spectrum(c.s);
    if (c.s.draw(4) == 0)
        b = Spectrum::E((float)c.s.uniform(-2, 2));
    if (c.s.draw(4) == 0)
        d = Spectrum::E();
    noteSpec(c, "a", a);
    noteSpec(c, "b", b);
    noteSpec(c, "d", d);
    double s = 0, sa = 0, t = 0, ta = 0, u = 0, ua = 0;
    for (int i = 0; i < 400; i++)
    {
        double x = a[i], y = b[i], z = d[i];
        s += x, sa += std::fabs(x), t += x * y, ta += std::fabs(x * y), u += x * y * z, ua += std::fabs(x * y * z);
    }
    if (ta > 0)
        c.nontrivial();
    double k = 420 * EPS, big = 1, under = 400 * TINY; // a product of two may underflow before the third factor
    for (int i = 0; i < 400; i++)
        big = std::max({big, std::fabs((double)a[i]), std::fabs((double)b[i]), std::fabs((double)d[i])});
    under *= big;
    c.near("sum", Spectrum::sum(a), s, k * sa + TINY);
    c.near("sum member", a.sum(), s, k * sa + TINY);
    c.near("dot", Spectrum::dot(a, b), t, k * ta + 400 * TINY);
    c.near("dot member", a.dot(b), t, k * ta + 400 * TINY);
    c.near("dot reversed", b.dot(a), t, k * ta + 400 * TINY);
    double v = 0, w3 = 0, wa = 0;
    for (int i = 0; i < 400; i++)
    {
        double x = a[i];
        v += x * x, w3 += x * x * x, wa += std::fabs(x * x * x);
    }
    c.near("dot with itself", Spectrum::dot(a, a), v, k * v + 400 * TINY);
    c.near("dot with itself (member)", a.dot(a), v, k * v + 400 * TINY);
    c.near("dot3 with itself", Spectrum::dot3(a, a, a), w3, k * wa + under);
    c.near("dot3", Spectrum::dot3(a, b, d), u, k * ua + under);
    c.near("dot3 rotated", Spectrum::dot3(d, a, b), u, k * ua + under);
    c.near("dot3 swapped", Spectrum::dot3(b, a, d), u, k * ua + under);
}
SWEEP(every_line, 400 * 4, 1, 1, 1,
    "single-line spectra at each of the 400 wavelengths (exact results), four weights each; non-trivial: all")
{
    u64   k = c.s.draw(1600);
    int   i = (int)(k % 400);
    float w = k / 400 == 0 ? 1.f : k / 400 == 1 ? -0.75f : k / 400 == 2 ? 1e-3f : 1234.5f;
    SpecArr arr;
    arr.fill(0.f);
    arr[i] = w;
    Spectrum a(arr), one = Spectrum::E();
    SpecArr  r;
    for (int j = 0; j < 400; j++)
        r[j] = (float)(j + 1);
    Spectrum ramp(r);
    c.notef("line %dnm weight %.6g", 380 + i, w);
    c.nontrivial();
    auto ex = [&](const char *n, double g, double want) { c.near(n, g, want, 3 * EPS * std::fabs(want)); };
    ex("sum", a.sum(), w);
    ex("dot E", a.dot(one), w);
    ex("dot ramp", Spectrum::dot(a, ramp), (double)w * (i + 1));
    ex("dot ramp rev", Spectrum::dot(ramp, a), (double)w * (i + 1));
    ex("dot3 0", Spectrum::dot3(a, ramp, one), (double)w * (i + 1));
    ex("dot3 1", Spectrum::dot3(ramp, a, ramp), (double)w * (i + 1) * (i + 1));
    ex("dot3 2", Spectrum::dot3(ramp, ramp, a), (double)w * (i + 1) * (i + 1));
}
