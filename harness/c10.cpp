// C10: every transfer function is the published curve
#include "otf.hpp"
using namespace otf;

static void one(Ctx &c, int t, bool encode, const Tri &in, float g, const Tri &out)
{
    static const char *EN[9] = {"encode LINEAR", "encode GAMMA", "encode SRGB", "encode BT709", "encode ST2084",
        "encode SLOG", "encode SLOG2", "encode SLOG3", "encode HLG"};
    static const char *DN[9] = {"decode LINEAR", "decode GAMMA", "decode SRGB", "decode BT709", "decode ST2084",
        "decode SLOG", "decode SLOG2", "decode SLOG3", "decode HLG"};
    for (int i = 0; i < 3; i++)
    {
        double x = in[i], y = encode ? enc(t, x, g) : dec(t, x, g);
        if (TYPES[t] == OTF::GAMMA && y != 0 && !(y > 1e-37 && y < 1e37))
            continue; // not a normal float
        if (encode)
            c.near(EN[t], out[i], enc(t, x, g), encTol(t, x, g));
        else
            c.near(DN[t], out[i], dec(t, x, g), decTol(t, x, g));
    }
}
PROPERTY(curves, 10000000, 200000000, 0.03,
    "curve, direction, gamma exponent 0.2..5 (sometimes 0.01..100) and three independent channel values: around every segment boundary (30 ulps "
    "and wider), logarithmic from 1e-9, uniform, negative, code values n/1023, beyond the clipping range; compared with "
    "the published formula in double; non-trivial: curve is not LINEAR")
{
    int   t  = (int)c.s.draw(9);
    bool  e  = c.s.coin();
    float g  = TYPES[t] == OTF::GAMMA ? genGammaWide(c.s) : (c.s.draw(4) ? 1.f : genGamma(c.s));
    auto  br = e ? lightBreaks(t) : signalBreaks(t);
    float v[3];
    for (float &x : v)
        x = genValue(c.s, br, e ? maxLight(t) : maxSignal(t), e ? negLight(t) : negSignal(t));
    if (c.s.draw(8) == 0)
        v[1] = v[0];
    Tri in(v[0], v[1], v[2]);
    c.notef("%s %s gamma=%.6g", e ? "encode" : "decode", NAMES[t], g);
    c.note3("in", in);
    if (t)
        c.nontrivial();
    c.label(NAMES[t]);
    Tri out = e ? OTF::toScreen(TYPES[t], in, g) : OTF::toScene(TYPES[t], in, g);
    one(c, t, e, in, g, out);
    if (TYPES[t] != OTF::GAMMA)
        one(c, t, e, in, 1.f, e ? OTF::toScreen(TYPES[t], in) : OTF::toScene(TYPES[t], in));
    else
        for (int i = 0; i < 3; i++) // default exponent 1
            c.near("gamma default exponent", (e ? OTF::toScreen(TYPES[t], in) : OTF::toScene(TYPES[t], in))[i], in[i],
                4 * EPS * std::fabs(in[i]));
    if (e && (TYPES[t] == OTF::SRGB || TYPES[t] == OTF::BT709 || TYPES[t] == OTF::ST2084))
        for (int i = 0; i < 3; i++)
            c.check(out[i] >= 0.f && out[i] <= 1.f + 1e-6f, "signal outside [0,1]");
}
PROPERTY(monotone, 6000000, 100000000, 0.02,
    "two inputs of one curve, a few ulps to far apart, across segment boundaries: the outputs keep the order (up to the "
    "curve's float precision); non-trivial: different inputs")
{
    int   t  = (int)c.s.draw(9);
    bool  e  = c.s.coin();
    float g  = genGamma(c.s);
    auto  br = e ? lightBreaks(t) : signalBreaks(t);
    bool  ng = e ? negLight(t) : negSignal(t);
    float a  = genValue(c.s, br, e ? maxLight(t) : maxSignal(t), ng), b;
    b        = c.s.coin() ? genValue(c.s, br, e ? maxLight(t) : maxSignal(t), ng) : c.s.ulps(a, 50);
    if (!ng && b < 0)
        b = 0;
    if ((double)b > (e ? maxLight(t) : maxSignal(t)))
        b = a;
    if (b < a)
        std::swap(a, b);
    c.notef("%s %s gamma=%.6g a=%.9g b=%.9g", e ? "encode" : "decode", NAMES[t], g, a, b);
    if (a != b)
        c.nontrivial();
    Tri    r = e ? OTF::toScreen(TYPES[t], Tri(a, b, a), g) : OTF::toScene(TYPES[t], Tri(a, b, a), g);
    double tol = e ? encTol(t, a, g) + encTol(t, b, g) : decTol(t, a, g) + decTol(t, b, g);
    if (TYPES[t] == OTF::BT709) // the published decoder steps down slightly at its threshold
        tol = std::min(tol, 1e-6) + (!e && a < 0.0811 && b > 0.0809 ? 1e-4 : 0);
    c.check(r[1] >= r[0] - tol, "order not kept");
    c.check(r[0] == r[2], "equal channels give different results");
}
// all floats from 0 to the maximum, strided; 3 channels at a time
static void sweep(Ctx &c, u64 idx, u64 per)
{
    int      t   = (int)(idx / (2 * per)) + 1;
    bool     e   = (idx / per) & 1;
    u64      k   = idx % per;
    float    mx  = (float)(e ? maxLight(t) : maxSignal(t));
    uint32_t top;
    memcpy(&top, &mx, 4);
    // bits k of [0,top], three interleaved thirds
    uint32_t third = top / 3 + 1;
    uint32_t off   = (uint32_t)((double)k / (double)per * third);
    float    v[3];
    for (int i = 0; i < 3; i++)
    {
        uint32_t b = std::min<uint32_t>(top, off + (uint32_t)i * third);
        memcpy(&v[i], &b, 4);
    }
    float g = 2.2f;
    Tri   in(v[0], v[1], v[2]);
    c.notef("%s %s gamma=%.6g", e ? "encode" : "decode", NAMES[t], g);
    c.note3("in", in);
    c.nontrivial();
    one(c, t, e, in, g, e ? OTF::toScreen(TYPES[t], in, g) : OTF::toScene(TYPES[t], in, g));
}
static const u64 PER = 1u << 28;
SWEEP(float_sweep, 16 * PER, 431, 11, 0.02,
    "every 431st (quick) or 11th (thorough) of the representable non-negative inputs of each curve in both directions; "
    "non-trivial: all")
{
    sweep(c, c.s.draw(16 * PER), PER);
}
