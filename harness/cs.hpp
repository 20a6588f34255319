// Common ground of the harnesses: the library under test, double precision reference helpers and
// structured generators.
#pragma once
#include <cstdint>
#include <cstring>
#include <memory>

#include <colorsystem.hpp>

#include "pbt.hpp"

using namespace ColorSystem;
using pbt::Ctx;
using pbt::Src;
using pbt::u64;
typedef ColorSystem::Tristimulus Tri;
typedef ColorSystem::Matrix3     Mat;

static const double EPS = 1.0 / (1 << 24); // unit roundoff of float
static const double TINY = 1e-42;          // subnormal slack

struct D3
{
    double v[3];
    double  operator[](int i) const { return v[i]; }
    double &operator[](int i) { return v[i]; }
};
struct D9
{
    double v[9];
    double  operator[](int i) const { return v[i]; }
    double &operator[](int i) { return v[i]; }
};
template <class T> static inline D3 d3(const T &t) { return D3{{(double)t[0], (double)t[1], (double)t[2]}}; }
template <class M> static inline D9 d9(const M &m)
{
    D9 r;
    for (int i = 0; i < 9; i++)
        r[i] = (double)m[i];
    return r;
}
static inline D9 dmul(const D9 &a, const D9 &b)
{
    D9 r;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
        {
            double s = 0;
            for (int k = 0; k < 3; k++)
                s += a[i * 3 + k] * b[k * 3 + j];
            r[i * 3 + j] = s;
        }
    return r;
}
static inline D3 dapply(const D9 &m, const D3 &v)
{
    D3 r;
    for (int i = 0; i < 3; i++)
        r[i] = m[i * 3] * v[0] + m[i * 3 + 1] * v[1] + m[i * 3 + 2] * v[2];
    return r;
}
static inline D9 dabs9(const D9 &a)
{
    D9 r;
    for (int i = 0; i < 9; i++)
        r[i] = std::fabs(a[i]);
    return r;
}
static inline D3 dabs3(const D3 &a) { return D3{{std::fabs(a[0]), std::fabs(a[1]), std::fabs(a[2])}}; }
static inline double ddet(const D9 &m)
{
    return m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
}
static inline double dperm(const D9 &m) // permanent of |m|
{
    D9 a = dabs9(m);
    return a[0] * (a[4] * a[8] + a[5] * a[7]) + a[1] * (a[3] * a[8] + a[5] * a[6]) + a[2] * (a[3] * a[7] + a[4] * a[6]);
}
static inline D9 dinv(const D9 &m)
{
    // Gauss-Jordan with partial pivoting (independent of the cofactor formula under test)
    double a[3][6];
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
        {
            a[i][j]     = m[i * 3 + j];
            a[i][j + 3] = i == j;
        }
    for (int c = 0; c < 3; c++)
    {
        int p = c;
        for (int r = c + 1; r < 3; r++)
            if (std::fabs(a[r][c]) > std::fabs(a[p][c]))
                p = r;
        if (p != c)
            for (int j = 0; j < 6; j++)
                std::swap(a[p][j], a[c][j]);
        double d = a[c][c];
        for (int j = 0; j < 6; j++)
            a[c][j] /= d;
        for (int r = 0; r < 3; r++)
            if (r != c)
            {
                double f = a[r][c];
                for (int j = 0; j < 6; j++)
                    a[r][j] -= f * a[c][j];
            }
    }
    D9 o;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            o[i * 3 + j] = a[i][j + 3];
    return o;
}
static inline double dnorm9(const D9 &m)
{
    double s = 0;
    for (int i = 0; i < 9; i++)
        s += m[i] * m[i];
    return std::sqrt(s);
}
static inline double dcond(const D9 &m) { return dnorm9(m) * dnorm9(dinv(m)); }
static inline double dmax3(const D3 &a) { return std::max(std::fabs(a[0]), std::max(std::fabs(a[1]), std::fabs(a[2]))); }

// ------------------------------------------------------------------ generators
// round values that code likes to special-case
static const float NICE[] = {0.f, 1.f, 0.5f, 0.25f, 2.f, 0.1f, 0.01f, 0.001f, 10.f, 100.f, 0.18f, 0.9f, 0.75f, 3.f, 4.f,
    0.2f, 0.3f, 1.f / 3, 0.3127f, 0.3290f, 1e-4f, 1e-5f, 1e-6f, 1e-7f, 1e-8f, 1000.f, 0.05f, 0.02f, 0.6f, 0.8f};
static inline float nice(Src &s) { return NICE[s.draw(sizeof(NICE) / sizeof(NICE[0]))]; }
// magnitude in [lo,hi], mixing uniform, logarithmic, round and end-point values
static inline float mag(Src &s, double lo, double hi)
{
    switch (s.draw(8))
    {
    case 0: {
        float f = nice(s);
        return f < lo ? (float)lo : f > hi ? (float)hi : f;
    }
    case 1:
        return (float)(s.coin() ? hi : lo);
    case 2:
    case 3:
    case 4: {
        double l = lo > 0 ? lo : hi * 1e-9;
        float  f = (float)s.logu(l, hi);
        return f < (float)lo ? (float)lo : f > (float)hi ? (float)hi : f;
    }
    default:
        return (float)s.uniform(lo, hi);
    }
}
static inline float smag(Src &s, double lo, double hi)
{
    float m = mag(s, lo, hi);
    return s.coin() ? -m : m;
}
// a non-negative colour: common scale, channel pattern (ties, zeros, one dominant channel)
static inline Tri colour(Src &s, double scaleLo, double scaleHi)
{
    float k = mag(s, scaleLo, scaleHi);
    float v[3];
    switch (s.draw(8))
    {
    case 0: // grey
        v[0] = v[1] = v[2] = k;
        break;
    case 1: { // two equal
        float a = (float)(k * s.unitIncl()), b = (float)(k * s.unitIncl());
        v[0] = v[1] = v[2] = a;
        v[s.draw(3)] = b;
        break;
    }
    case 2: { // one or two channels zero
        v[0] = v[1] = v[2] = 0;
        v[s.draw(3)]       = k;
        if (s.coin())
            v[s.draw(3)] = (float)(k * s.unitIncl());
        break;
    }
    case 3: // near grey
        for (float &x : v)
            x = (float)(k * (1.0 - s.unit() * 1e-3));
        break;
    case 4: // within a few ulps of grey
        for (float &x : v)
            x = s.ulps(k, 3);
        break;
    case 5: // wildly different channels
        for (float &x : v)
            x = (float)(k * s.logu(1e-5, 1));
        break;
    default:
        for (float &x : v)
            x = (float)(k * s.unitIncl());
    }
    return Tri(v[0], v[1], v[2]);
}
// signed vector, any pattern
static inline Tri svec(Src &s, double lo, double hi)
{
    Tri t = colour(s, lo, hi);
    u64 m = s.draw(8);
    return Tri(m & 1 ? -t[0] : t[0], m & 2 ? -t[1] : t[1], m & 4 ? -t[2] : t[2]);
}
// a plausible white: x,y near the daylight/blackbody region (or anywhere positive), any luminance
static inline Tri white(Src &s, bool unitY = false)
{
    static const float W[][3] = {{1.09850f, 1.f, 0.35585f}, {0.99072f, 1.f, 0.85223f}, {0.98074f, 1.f, 1.18232f},
        {0.96422f, 1.f, 0.82521f}, {0.95682f, 1.f, 0.92149f}, {0.95265f, 1.f, 1.00883f}, {0.95047f, 1.f, 1.08883f},
        {0.94972f, 1.f, 1.22638f}, {1.f, 1.f, 1.f}, {0.99186f, 1.f, 0.67393f}, {0.95041f, 1.f, 1.08747f},
        {1.00962f, 1.f, 0.64350f}, {0.9642f, 1.f, 0.8249f}};
    float x, y, z;
    if (s.draw(3) == 0)
    {
        const float *w = W[s.draw(13)];
        x = w[0], y = w[1], z = w[2];
    }
    else
    {
        x = (float)s.uniform(0.6, 1.4);
        y = 1.f;
        z = (float)s.uniform(0.2, 1.8);
    }
    float k = 1.f;
    if (!unitY && s.draw(2))
        k = (float)s.logu(1e-3, 1e4);
    return Tri(x * k, y * k, z * k);
}
// 3x3 matrix with a wide range of shapes
static inline Mat matrix(Src &s, double lo = 1e-4, double hi = 1e4)
{
    float  m[9];
    double k = mag(s, lo, hi);
    switch (s.draw(9))
    {
    case 0: // diagonal
        for (int i = 0; i < 9; i++)
            m[i] = (i % 4 == 0) ? (float)(k * s.uniform(-1, 1)) : 0.f;
        break;
    case 1: { // permutation with signs and scale
        int p = (int)s.draw(6);
        static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        for (float &x : m)
            x = 0;
        for (int i = 0; i < 3; i++)
            m[i * 3 + P[p][i]] = (float)(s.coin() ? -k : k) * (s.coin() ? 1.f : (float)s.uniform(0.1, 1));
        break;
    }
    case 2: // small integers
        for (float &x : m)
            x = (float)s.range(-4, 4);
        break;
    case 3: // sparse
        for (float &x : m)
            x = s.draw(3) ? 0.f : (float)(k * s.uniform(-1, 1));
        break;
    case 4: { // triangular
        bool up = s.coin();
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++)
                m[i * 3 + j] = (up ? j >= i : j <= i) ? (float)(k * s.uniform(-1, 1)) : 0.f;
        break;
    }
    case 5: // rows of different scale
        for (int i = 0; i < 3; i++)
        {
            double r = s.logu(1e-2, 1e2);
            for (int j = 0; j < 3; j++)
                m[i * 3 + j] = (float)(k * r * s.uniform(-1, 1));
        }
        break;
    case 6: { // symmetric, or identity plus a small matrix
        for (int i = 0; i < 3; i++)
            for (int j = i; j < 3; j++)
                m[i * 3 + j] = m[j * 3 + i] = (float)(k * s.uniform(-1, 1));
        break;
    }
    case 7: {
        double e = s.logu(1e-4, 0.5);
        for (int i = 0; i < 9; i++)
            m[i] = (float)(k * ((i % 4 == 0) + e * s.uniform(-1, 1)));
        break;
    }
    default:
        for (float &x : m)
            x = (float)(k * s.uniform(-1, 1));
    }
    return Mat(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]);
}
static inline double hasVarietyD(const Tri &t) { return !(t[0] == t[1] && t[1] == t[2]); }

// spectra ---------------------------------------------------------------------------------------
typedef Spectrum::spectrum SpecArr;
static inline Spectrum spectrum(Src &s, bool nonneg = false)
{
    SpecArr a;
    a.fill(0.f);
    double k = s.draw(3) ? 1.0 : s.coin() ? s.logu(1e-3, 1e3) : s.logu(1e-6, 1e6);
    auto   sg = [&](double v) { return (float)(nonneg ? std::fabs(v) : v); };
    switch (s.draw(9))
    {
    case 0: // one line
        a[s.draw(400)] = sg(k * (s.coin() ? 1.0 : s.uniform(-1, 1)));
        break;
    case 1: { // line at an end or next to it
        static const int E[] = {0, 399, 1, 398, 199, 200, 100, 300};
        a[E[s.draw(8)]]      = sg(k);
        break;
    }
    case 2: { // several lines
        int n = s.range(2, 12);
        for (int i = 0; i < n; i++)
            a[s.draw(400)] = sg(k * s.uniform(-1, 1));
        break;
    }
    case 3: { // smooth bump
        double c = s.uniform(370, 790), w = s.logu(2, 200);
        for (int i = 0; i < 400; i++)
            a[i] = (float)(k * std::exp(-0.5 * std::pow((380 + i - c) / w, 2)));
        break;
    }
    case 4: { // block
        int x = (int)s.draw(400), y = (int)s.draw(400);
        if (x > y)
            std::swap(x, y);
        float v = sg(k * s.uniform(-1, 1));
        for (int i = x; i <= y; i++)
            a[i] = v;
        break;
    }
    case 6: { // constant with a band in which it differs
        int x = (int)s.draw(400), y = (int)s.draw(400);
        if (x > y)
            std::swap(x, y);
        float p = sg(k * (s.coin() ? 1 : s.uniform(-1, 1))), q = sg(k * s.uniform(-3, 3));
        for (int i = 0; i < 400; i++)
            a[i] = i >= x && i <= y ? q : p;
        break;
    }
    case 5: { // ramp
        double p = s.uniform(-1, 1), q = s.uniform(-1, 1);
        for (int i = 0; i < 400; i++)
            a[i] = sg(k * (p + (q - p) * i / 399.0));
        break;
    }
    default: { // dense noise from one recorded word (400 independent values)
        u64 w = s.draw(1ull << 32);
        for (int i = 0; i < 400; i++)
        {
            w    = pbt::mix(w + i);
            a[i] = sg(k * ((double)(w >> 40) / (1 << 23) - 1.0));
        }
    }
    }
    return Spectrum(a);
}
static inline void noteSpec(Ctx &c, const char *n, const Spectrum &x)
{
    if (!c.verbose)
        return;
    int  nz = 0, first = -1, last = -1;
    for (int i = 0; i < 400; i++)
        if (x[i] != 0.f)
        {
            nz++;
            if (first < 0)
                first = i;
            last = i;
        }
    if (nz == 0)
        c.notef("%s=spectrum{all zero}", n);
    else if (nz <= 4)
    {
        std::string t;
        for (int i = 0; i < 400; i++)
            if (x[i] != 0.f)
            {
                char b[40];
                snprintf(b, sizeof b, "%dnm:%.9g ", 380 + i, (double)x[i]);
                t += b;
            }
        c.notef("%s=spectrum{%s}", n, t.c_str());
    }
    else
        c.notef("%s=spectrum{%d non-zero, %dnm:%.6g .. %dnm:%.6g}", n, nz, 380 + first, (double)x[first], 380 + last,
            (double)x[last]);
}
static inline double dsum(const Spectrum &a)
{
    double t = 0;
    for (int i = 0; i < 400; i++)
        t += a[i];
    return t;
}
static inline double dsumAbs(const Spectrum &a)
{
    double t = 0;
    for (int i = 0; i < 400; i++)
        t += std::fabs(a[i]);
    return t;
}

// runs f with stdout and stderr redirected to a memory file and returns what was written there
template <class F> static inline std::string captured(F f)
{
    fflush(stdout);
    fflush(stderr);
    int o1 = dup(1), o2 = dup(2);
    int m  = memfd_create("out", 0);
    dup2(m, 1);
    dup2(m, 2);
    auto restore = [&]() {
        fflush(stdout);
        fflush(stderr);
        dup2(o1, 1);
        dup2(o2, 2);
        close(o1);
        close(o2);
    };
    try
    {
        f();
    }
    catch (...)
    {
        restore();
        close(m);
        throw;
    }
    restore();
    char    b[400];
    ssize_t n = pread(m, b, sizeof b - 1, 0);
    close(m);
    return n > 0 ? std::string(b, b + n) : std::string();
}
