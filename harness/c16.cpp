// C16: sampling a spectrum
#include "cs.hpp"

static double interp(const float *v, int n, double lo, double hi, double t, double *tol)
{
    int    cnt = n - 1;
    double mx = 0;
    if (t <= lo || t >= hi)
    {
        double w = t <= lo ? v[0] : v[cnt];
        // one rounding of the position away from the end
        double pe = EPS * (std::fabs(t) + std::fabs(lo) + std::fabs(hi)) * 3 * cnt / (hi - lo);
        double nb = t <= lo ? v[1] : v[cnt - 1];
        bool   at = t <= lo ? t == lo : t == hi;
        *tol      = at ? std::fabs(nb - w) * pe + 4 * EPS * (std::fabs(w) + std::fabs(nb)) : 0;
        return w;
    }
    double p = cnt * (t - lo) / (hi - lo);
    int    i = (int)std::floor(p);
    if (i >= cnt)
        i = cnt - 1;
    double f = p - i, w = v[i] * (1 - f) + v[i + 1] * f;
    double pe = EPS * (std::fabs(t) + std::fabs(lo) + std::fabs(hi)) * 4 * cnt / (hi - lo) + 4 * EPS * p;
    double d  = std::fabs(v[i + 1] - v[i]);
    if (i > 0)
        d = std::max(d, std::fabs((double)v[i] - v[i - 1]));
    if (i + 2 < n)
        d = std::max(d, std::fabs((double)v[i + 2] - v[i + 1]));
    mx   = std::fabs(v[i]) + std::fabs(v[i + 1]);
    *tol = d * pe + 4 * EPS * mx + 1e-40;
    return w;
}
static void samples(Ctx &c, std::vector<float> &v, int n)
{
    v.resize(n);
    double k    = c.s.draw(3) ? 1 : c.s.logu(1e-3, 1e4);
    int    kind = (int)c.s.draw(5);
    u64    w    = kind >= 3 ? c.s.draw(1ull << 32) : 0;
    int    line = kind == 0 ? (int)c.s.draw(n) : 0;
    for (int i = 0; i < n; i++)
        switch (kind)
        {
        case 0:
            v[i] = i == line ? (float)k : 0.f;
            break;
        case 1:
            v[i] = (float)(k * (i + 1));
            break;
        case 2:
            v[i] = (float)(i & 1 ? k : -k);
            break;
        default:
            w    = pbt::mix(w + i);
            v[i] = (float)(k * ((double)(w >> 40) / (1 << 23) - 1.0));
        }
}
static int count(Src &s)
{
    if (s.draw(400) == 399) // more samples than any built-in table, past 16-bit counts
        return s.coin() ? s.range(501, 5000) : s.range(32000, 70000);
    static const int N[] = {2, 3, 4, 5, 8, 16, 31, 36, 40, 41, 81, 100, 399, 400, 401, 471, 500};
    return s.draw(3) == 0 ? N[s.draw(17)] : s.coin() ? s.range(2, 20) : s.range(2, 500);
}
static void interval(Src &s, float &lo, float &hi)
{
    static const float L[] = {380, 400, 360, 300, 390, 200, 0, 779, 800, 1000, -100, 379, 381}, H[] = {779, 780, 700, 730, 830, 720, 1000, 400, 381};
    if (s.draw(3) == 0)
        lo = 380, hi = 779;
    else if (s.coin())
    {
        lo = L[s.draw(13)];
        hi = H[s.draw(9)];
        if (hi <= lo)
            hi = lo + (float)s.range(1, 400);
    }
    else
    {
        lo = (float)s.uniform(-100, 1000);
        hi = lo + (float)s.logu(0.5, 1500);
    }
}
PROPERTY(fetch, 10000000, 150000000, 0.05,
    "2..500, sometimes up to 70000 samples (line, ramp, alternating, noise; in a heap block of exactly that size), interval of any width and "
    "position, and a wavelength at a knot (and ulps beside it), in the first or last interval, inside, at the ends, "
    "outside, or as far as 1e30; compared with linear interpolation in double; non-trivial: strictly inside the interval")
{
    int                n = count(c.s);
    std::vector<float> tmp;
    samples(c, tmp, n);
    std::unique_ptr<float[]> v(new float[n]);
    std::copy(tmp.begin(), tmp.end(), v.get());
    float lo, hi, t;
    interval(c.s, lo, hi);
    double w = (double)hi - lo;
    switch (c.s.draw(10))
    {
    case 0:
    case 1: // a knot
        t = (float)(lo + w * c.s.draw(n) / (n - 1));
        t = c.s.ulps(t, 3);
        break;
    case 2: // first interval
        t = (float)(lo + w / (n - 1) * c.s.unitIncl());
        break;
    case 3: // last interval
        t = (float)(hi - w / (n - 1) * c.s.unitIncl());
        break;
    case 4:
        t = c.s.ulps(c.s.coin() ? lo : hi, 3);
        break;
    case 5: // outside
        t = (float)(c.s.coin() ? lo - c.s.logu(1e-3, 1e3) : hi + c.s.logu(1e-3, 1e3));
        break;
    case 6:
        t = (float)((c.s.coin() ? 1 : -1) * c.s.logu(1e3, 1e30));
        break;
    default:
        t = (float)(lo + w * c.s.unitIncl());
    }
    c.notef("n=%d lo=%.9g hi=%.9g t=%.9g", n, lo, hi, t);
    if (t > lo && t < hi)
        c.nontrivial();
    else
        c.label("outside or at an end");
    double got = Spectrum::fetch(v.get(), n, lo, hi, t), tol, want = interp(v.get(), n, lo, hi, t, &tol);
    c.note("value", got);
    c.near("interpolation", got, want, tol);
}
PROPERTY(own, 8000000, 120000000, 0.05,
    "built-in-grid spectrum (lines, blocks, noise) read at integer wavelengths, between them, and "
    "outside; non-trivial: between two different samples or on the grid")
{
    Spectrum s = spectrum(c.s);
    noteSpec(c, "s", s);
    bool  grid = c.s.coin();
    int   i    = c.s.draw(4) ? (int)c.s.draw(400) : (c.s.coin() ? 0 : 399);
    float t    = grid ? 380.f + i : (c.s.draw(6) ? (float)c.s.uniform(380, 779) : (float)c.s.uniform(100, 1200));
    c.note("t", t);
    double got = s.fetch(t);
    if (grid)
    {
        c.nontrivial();
        double gt, gw = interp(s.s().data(), 400, 380, 779, t, &gt);
        c.near("grid sample", got, gw, gt + 1e-40);
        c.check(s.s()[i] == s[i], "s() differs from operator[]");
        return;
    }
    double tol, want = interp(s.s().data(), 400, 380, 779, t, &tol);
    if (want != 0)
        c.nontrivial();
    c.near("interpolation", got, want, tol);
}
PROPERTY(resample, 250000, 4000000, 0.1,
    "spectrum constructed from 2..500, sometimes up to 70000 samples over any interval: each of its 400 values compared with the interpolation "
    "at 380+i nm; 400 samples over 380..779 (also by default arguments) must be copied; non-trivial: the interval "
    "overlaps 380..779")
{
    int                n = count(c.s);
    std::vector<float> tmp;
    bool               own = c.s.draw(5) == 0;
    if (own)
        n = 400;
    samples(c, tmp, n);
    std::unique_ptr<float[]> v(new float[n]);
    std::copy(tmp.begin(), tmp.end(), v.get());
    float lo = 380, hi = 779;
    if (!own)
        interval(c.s, lo, hi);
    c.notef("n=%d lo=%.9g hi=%.9g", n, lo, hi);
    if (lo < 779 && hi > 380)
        c.nontrivial();
    c.extra = 399;
    if (own)
    {
        Spectrum a(v.get()), b(v.get(), 400), d(v.get(), 400, 380.f, 779.f);
        for (int i = 0; i < 400; i++)
        {
            double gt, gw = interp(v.get(), 400, 380, 779, 380 + i, &gt);
            c.near("1 nm sample copied", a[i], gw, gt);
            c.near("1 nm sample copied", b[i], gw, gt);
            c.near("1 nm sample copied", d[i], gw, gt);
        }
        return;
    }
    Spectrum s(v.get(), n, lo, hi);
    for (int i = 0; i < 400; i++)
    {
        double tol, want = interp(v.get(), n, lo, hi, 380 + i, &tol);
        c.near("resampled value", s[i], want, tol);
    }
}
