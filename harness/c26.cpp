// C26: util::sqrtf over every float
#include "cs.hpp"

static float fromBits(uint32_t u)
{
    float f;
    memcpy(&f, &u, 4);
    return f;
}
// two units in the last place of the result (subnormal results do not occur: sqrt(2^-149) is normal)
static void one(Ctx &c, float x, double &worst)
{
    float r = util::sqrtf(x);
    if (!(x >= 0) || std::isinf(x))
    {
        if (r == r)
            c.fail("sqrtf(%.9g) = %.9g, expected NaN", x, r);
        return;
    }
    if (x == 0)
    {
        if (!(r == 0))
            c.fail("sqrtf(%g) = %.9g, expected 0", x, r);
        return;
    }
    double s = std::sqrt((double)x);
    int    e;
    std::frexp(s, &e);
    double ulp = std::ldexp(1.0, e - 24), d = std::fabs((double)r - s);
    if (!(d <= 2 * ulp))
        c.fail("sqrtf(%.9g) = %.9g, expected %.9g within two ulp (off by %.3g ulp)", x, r, s, d / ulp);
    if (d > worst * ulp)
        worst = d / ulp;
}
SWEEP(every_float, 1u << 24, 1, 1, 0.004,
    "every one of the 2^32 float bit patterns in blocks of 256 (a strided subset under the sanitizers and on machines with few "
    "cores): within two ulp of the correctly rounded double square root, NaN outside the domain, and termination; non-trivial: "
    "finite, positive and not a perfect square of a small integer block (all positive blocks)")
{
    u64 b = c.s.draw(1u << 24);
    c.notef("bit patterns 0x%08x..+255, first %.9g", (unsigned)(b << 8), fromBits((uint32_t)(b << 8)));
    if (b < 0x7f8000)
        c.nontrivial();
    double worst = 0;
    for (u64 i = 0; i < 256; i++)
        one(c, fromBits((uint32_t)(b << 8 | i)), worst);
    c.extra = 255;
    c.ratio("ulp error (limit 2)", worst / 2);
}
PROPERTY(special, 400000, 4000000, 0.1,
    "perfect squares, powers of two and their neighbours, subnormals, the range ends, and uniformly random bit patterns; exact "
    "squares give the exact root up to two ulp; non-trivial: finite and positive")
{
    float x;
    switch (c.s.draw(5))
    {
    case 0: {
        float k = (float)c.s.range(0, 4096);
        x       = c.s.ulps(k * k, 2);
        break;
    }
    case 1:
        x = c.s.ulps(std::ldexp(1.f, c.s.range(-149, 127)), 3);
        break;
    case 2:
        x = fromBits((uint32_t)c.s.draw(0x800000));
        break;
    case 3: {
        static const float E[] = {0.f, -0.f, INFINITY, -INFINITY, NAN, 3.40282347e38f, -3.40282347e38f, 1.17549435e-38f, -1e-45f, -1.f};
        x = E[c.s.draw(10)];
        break;
    }
    default:
        x = c.s.bits32();
    }
    c.note("x", x);
    double w = 0;
    if (x > 0 && std::isfinite(x))
        c.nontrivial();
    one(c, x, w);
    c.ratio("ulp error (limit 2)", w / 2);
}
