// C02: tristimulus and vector arithmetic, channel by channel
#include "cs.hpp"

static Tri any(Src &s)
{
    float v[3];
    int   k = (int)s.draw(8);
    if (k < 4)
        return svec(s, 1e-6, 1e6);
    for (float &x : v)
        switch (s.draw(8))
        {
        case 0:
            x = s.coin() ? -0.f : 0.f;
            break;
        case 1:
            x = (s.coin() ? -1.f : 1.f) * nice(s);
            break;
        case 2: // subnormal
        {
            uint32_t u = (uint32_t)s.draw(1 << 23) | (s.coin() ? 0x80000000u : 0);
            memcpy(&x, &u, 4);
            break;
        }
        case 3:
            x = (float)s.logu(1e-30, 1e30) * (s.coin() ? -1.f : 1.f);
            break;
        default:
            x = smag(s, 1e-3, 1e3);
        }
    return Tri(v[0], v[1], v[2]);
}
static void same(Ctx &c, const char *w, float got, float want)
{
    if (!(got == want))
        c.fail("%s: got %.9g, want %.9g", w, got, want);
}
static void sum3(Ctx &c, const char *w, float got, const Tri &a, const Tri &b)
{
    double s = 0, m = 0;
    for (int i = 0; i < 3; i++)
    {
        double p = (double)a[i] * b[i];
        s += p;
        m += std::fabs(p);
    }
    if (m > 1e37)
        return; // outside float range
    c.near(w, got, s, 6 * EPS * m + 1e-44);
}
PROPERTY(arithmetic, 6000000, 100000000, 0.05,
    "two triples (greys, ties, zeros and -0, subnormals, 1e-30..1e30, negatives) and a scalar; every operation compared "
    "per channel with IEEE arithmetic or double precision; non-trivial: channels of the first triple not all equal")
{
    Tri   a = any(c.s), b = any(c.s);
    float k = any(c.s)[0];
    if (c.s.draw(4) == 0) // shared channels
        b = Tri(a[0], b[1], c.s.coin() ? a[2] : b[2]);
    c.note3("a", a);
    c.note3("b", b);
    c.note("k", k);
    if (hasVarietyD(a))
        c.nontrivial();
    Tri sc1 = Tri::scale(a, k), sc2 = a.scale(k), sc3 = a * k;
    Tri ad1 = Tri::add(a, b), ad2 = a.add(b), ad3 = a + b;
    Tri mu1 = Tri::mul(a, b), mu2 = a.mul(b), mu3 = a * b;
    Tri mi1 = Tri::min(a, b), mi2 = a.min(b), ma1 = Tri::max(a, b), ma2 = a.max(b);
    Tri po1 = Tri::positive(a), po2 = a.positive();
    for (int i = 0; i < 3; i++)
    {
        volatile float p = a[i] * k, s = a[i] + b[i], m = a[i] * b[i];
        same(c, "scale (static)", sc1[i], p);
        same(c, "scale (member)", sc2[i], p);
        same(c, "scale (operator)", sc3[i], p);
        same(c, "add (static)", ad1[i], s);
        same(c, "add (member)", ad2[i], s);
        same(c, "add (operator)", ad3[i], s);
        same(c, "mul (static)", mu1[i], m);
        same(c, "mul (member)", mu2[i], m);
        same(c, "mul (operator)", mu3[i], m);
        same(c, "min (static)", mi1[i], std::min(a[i], b[i]));
        same(c, "min (member)", mi2[i], std::min(a[i], b[i]));
        same(c, "max (static)", ma1[i], std::max(a[i], b[i]));
        same(c, "max (member)", ma2[i], std::max(a[i], b[i]));
        same(c, "positive (static)", po1[i], a[i] < 0 ? 0.f : a[i]);
        same(c, "positive (member)", po2[i], a[i] < 0 ? 0.f : a[i]);
    }
    if (std::fabs(k) > 1e-30 && std::fabs(k) < 1e30)
    {
        Tri dv = a / k;
        for (int i = 0; i < 3; i++)
        {
            double q = (double)a[i] / k;
            if (std::fabs(q) < 1e37)
                c.near("division", dv[i], q, 4 * EPS * std::fabs(q) + 4e-45);
        }
    }
    { // one object in both places
        Tri d1 = Tri::add(a, a), d2 = a.add(a), d3 = a + a, q1 = Tri::mul(a, a), q2 = a.mul(a), q3 = a * a;
        for (int i = 0; i < 3; i++)
        {
            volatile float s = a[i] + a[i], m = a[i] * a[i];
            c.check(d1[i] == s && d2[i] == s && d3[i] == s, "a + a");
            c.check(q1[i] == m && q2[i] == m && q3[i] == m, "a * a");
            c.check(Tri::min(a, a)[i] == a[i] && a.min(a)[i] == a[i], "min(a,a)");
            c.check(Tri::max(a, a)[i] == a[i] && a.max(a)[i] == a[i], "max(a,a)");
        }
        sum3(c, "dot(a,a) (static)", Tri::dot(a, a), a, a);
        sum3(c, "dot(a,a) (member)", a.dot(a), a, a);
        Vector3 v = a.vec3();
        sum3(c, "Vector3 dot(a,a)", Vector3::dot(v, v), a, a);
        sum3(c, "Vector3 a.dot(a)", v.dot(v), a, a);
    }
    sum3(c, "dot (static)", Tri::dot(a, b), a, b);
    sum3(c, "dot (member)", a.dot(b), a, b);
    sum3(c, "Vector3 dot (static)", Vector3::dot(a.vec3(), b.vec3()), a, b);
    sum3(c, "Vector3 dot (member)", a.vec3().dot(b.vec3()), a, b);
    same(c, "min3", a.min3(), std::min(a[0], std::min(a[1], a[2])));
    same(c, "max3", a.max3(), std::max(a[0], std::max(a[1], a[2])));
    bool neg = a[0] < 0 || a[1] < 0 || a[2] < 0;
    c.check(a.hasNegative() == neg && Tri::hasNegative(a) == neg, "hasNegative");
    c.check(!a.positive().hasNegative(), "positive() leaves a negative channel");
    same(c, "a()", a.a(), a[0]);
    same(c, "b()", a.b(), a[1]);
    same(c, "c()", a.c(), a[2]);
    Tri u(k), z, w(a.vec3());
    int n = 0;
    for (float x : w)
    {
        same(c, "copy from vector", x, a[n]);
        same(c, "uniform constructor", u[n], k);
        same(c, "default constructor", z[n], 0.f);
        n++;
    }
    c.check(n == 3 && w.size() == 3, "size");
}
PROPERTY(clip, 4000000, 60000000, 0.05,
    "a triple and bounds lo <= hi (equal, zero, negative, wide, and bounds that coincide with a channel); non-trivial: "
    "some channel outside the interval")
{
    Tri   a = any(c.s);
    float l = any(c.s)[0], h = any(c.s)[0];
    if (c.s.draw(3) == 0)
        l = 0, h = 1;
    if (c.s.draw(4) == 0)
        l = a[(int)c.s.draw(3)];
    if (c.s.draw(4) == 0)
        h = a[(int)c.s.draw(3)];
    if (c.s.draw(8) == 0)
        h = l;
    if (l > h)
        std::swap(l, h);
    c.note3("a", a);
    c.note("lo", l);
    c.note("hi", h);
    Tri r1 = a.clip(l, h), r2 = Tri::clip(a, l, h);
    for (int i = 0; i < 3; i++)
    {
        float w = a[i] < l ? l : a[i] > h ? h : a[i];
        if (w != a[i])
            c.nontrivial();
        same(c, "clip (member)", r1[i], w);
        same(c, "clip (static)", r2[i], w);
    }
}
