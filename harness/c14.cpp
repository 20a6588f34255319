// C14: Euclidean colour differences
#include "ictcp.hpp"

static Tri gen(Src &s, int kind)
{
    switch (kind)
    {
    case 0:
        if (s.draw(10) == 0)
            return svec(s, 1e-3, 1e6);
        return Tri(s.draw(5) ? (float)s.uniform(0, 100) : 50.f, s.draw(4) ? (float)s.uniform(-128, 128) : 0.f,
            s.draw(4) ? (float)s.uniform(-128, 128) : 0.f);
    case 1:
        if (s.draw(10) == 0)
            return svec(s, 1e-3, 1e3);
        return Tri(mag(s, 0, 1000), (float)s.uniform(0, 0.63), (float)s.uniform(0, 0.4));
    default:
        switch (s.draw(4))
        {
        case 0: {
            Tri   w = white(s, true);
            float k = (float)s.logu(1e-4, 90);
            return Tri(w[0] * k, w[1] * k, w[2] * k);
        }
        case 1:
            return svec(s, 1e-4, 150);
        default:
            return colour(s, 1e-4, 90);
        }
    }
}
static Tri second(Src &s, const Tri &p, int kind)
{
    switch (s.draw(6))
    {
    case 0:
        return p;
    case 1: {
        Tri q = gen(s, kind);
        u64 k = s.draw(3);
        return Tri(k == 0 ? q[0] : p[0], k == 1 ? q[1] : p[1], k == 2 ? q[2] : p[2]);
    }
    case 2: {
        double e = s.logu(1e-6, 0.1) * (kind == 0 ? 100 : 1);
        return Tri((float)(p[0] + e * s.uniform(-1, 1)), (float)(p[1] + e * s.uniform(-1, 1)), (float)(p[2] + e * s.uniform(-1, 1)));
    }
    default:
        return gen(s, kind);
    }
}
static double dist(const D3 &p, const D3 &q, const D3 &w)
{
    double t = 0;
    for (int i = 0; i < 3; i++)
        t += w[i] * (p[i] - q[i]) * (p[i] - q[i]);
    return std::sqrt(t);
}
static const char *NM[3] = {"E76", "UV", "ICtCp"};
static double run(int k, const Tri &p, const Tri &q) { return k == 0 ? Delta::E76(p, q) : k == 1 ? Delta::UV(p, q) : Delta::ICtCp(p, q); }
// reference and tolerance
static double want(int k, const Tri &p, const Tri &q, double *tol)
{
    if (k == 0)
    {
        double d = dist(d3(p), d3(q), D3{{1, 1, 1}});
        *tol     = 8 * EPS * d + 1e-30;
        return d;
    }
    if (k == 1)
    {
        double d = dist(d3(p), d3(q), D3{{0, 1, 1}});
        *tol     = 8 * EPS * d + 1e-22;
        return d;
    }
    ictcp::Val a = ictcp::forward(d3(p)), b = ictcp::forward(d3(q));
    D3         w = {{1, 0.25, 1}};
    double     d = dist(a.v, b.v, w), t = 0;
    for (int i = 0; i < 3; i++)
        t += w[i] * std::pow(a.tol[i] + b.tol[i], 2);
    *tol = std::sqrt(t) + 8 * EPS * d;
    return d;
}
PROPERTY(distance, 15000000, 250000000, 0.03,
    "one of the three differences and two colours (same, one coordinate different, close, free); compared with the "
    "weighted Euclidean distance in double, in both orders; non-trivial: the colours differ")
{
    int k = (int)c.s.draw(3);
    Tri p = gen(c.s, k), q = second(c.s, p, k);
    c.notef("%s", NM[k]);
    c.note3("p", p);
    c.note3("q", q);
    c.label(NM[k]);
    bool same = p[0] == q[0] && p[1] == q[1] && p[2] == q[2];
    if (!same)
        c.nontrivial();
    double d = run(k, p, q), e = run(k, q, p), tol, w = want(k, p, q, &tol);
    c.note("difference", d);
    c.check(d >= 0 && e >= 0, "negative or NaN");
    c.near(NM[k], d, w, tol);
    c.check(d == e || std::fabs(d - e) <= 4 * EPS * d, "not symmetric");
    if (same)
        c.check(d == 0, "difference of a colour with itself is not zero");
    if (k == 1)
    {
        Tri q2(mag(c.s, 0, 1e4), q[1], q[2]);
        c.near("UV ignores luminance", run(1, p, q2), d, 4 * EPS * d);
    }
}
PROPERTY(triangle, 8000000, 100000000, 0.03,
    "three colours of one kind: each difference is at most the sum of the other two up to float rounding; non-trivial: all "
    "three differ")
{
    int k = (int)c.s.draw(3);
    Tri p = gen(c.s, k), q = second(c.s, p, k), r = second(c.s, q, k);
    c.notef("%s", NM[k]);
    c.note3("p", p);
    c.note3("q", q);
    c.note3("r", r);
    double a = run(k, p, q), b = run(k, q, r), d = run(k, p, r);
    if (a > 0 && b > 0 && d > 0)
        c.nontrivial();
    double s = 8 * EPS * (a + b + d) + 1e-22;
    c.check(d <= a + b + s && a <= d + b + s && b <= a + d + s, "triangle inequality violated");
}
