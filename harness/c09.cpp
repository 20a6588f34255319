// C09: every transfer function decodes what it encoded
#include "otf.hpp"
using namespace otf;

// tolerance of light -> signal -> light
static double lightTol(int t, double x, double g)
{
    double y  = enc(t, x, g);
    double ds = encTol(t, x, g) + EPS * std::fabs(y);
    // propagate the signal error through the decoder
    double hi = dec(t, y + ds, g), lo = dec(t, std::max(y - ds, negSignal(t) ? -1e9 : 0.0), g), m = dec(t, y, g);
    if (TYPES[t] == OTF::ST2084)
        return pqDecTol(std::min(1.0, y), 24) + 1e-12;
    if (TYPES[t] == OTF::BT709)
    { // the published segments do not quite meet; a light value never straddles the decoder's threshold
        ds = EPS * 16 * std::max(std::fabs(y), 0.1 * (x >= 0.0179));
        double sl = y >= 0.081 ? 2.3 : 0.2223;
        return ds * sl * 2 + decTol(t, std::max(y, 0.0), g) * (std::fabs(y - 0.081) < 1e-6 ? 1e-3 : 1) +
               (std::fabs(x - 0.018) < 1e-6 ? 1e-4 : 0) + 1e-44;
    }
    return std::max(std::fabs(hi - m), std::fabs(m - lo)) + decTol(t, std::max(y, negSignal(t) ? y : 0.0), g);
}
static double clampLight(int t, double x)
{
    switch (TYPES[t])
    {
    case OTF::SRGB:
    case OTF::BT709:
        return std::min(1.0, std::max(0.0, x));
    case OTF::ST2084:
        return std::min(100.0, std::max(0.0, x));
    case OTF::SLOG:
        return std::min(10.0, std::max(0.0, x));
    case OTF::SLOG2:
    case OTF::HLG:
        return std::max(0.0, x);
    default:
        return x;
    }
}
PROPERTY(light, 10000000, 200000000, 0.03,
    "curve, exponent and three independent light values over and beyond the documented range; encoded and decoded; each "
    "channel must come back (or the nearest end of the range); non-trivial: curve is not LINEAR and a channel lies "
    "strictly inside the range")
{
    int   t  = (int)c.s.draw(9);
    float g  = TYPES[t] == OTF::GAMMA ? genGammaWide(c.s) : (c.s.draw(4) ? 1.f : genGamma(c.s));
    auto  br = lightBreaks(t);
    float v[3];
    for (float &x : v)
        x = genValue(c.s, br, maxLight(t), negLight(t));
    Tri in(v[0], v[1], v[2]);
    c.notef("%s gamma=%.6g", NAMES[t], g);
    c.note3("light", in);
    c.label(NAMES[t]);
    Tri sig  = OTF::toScreen(TYPES[t], in, g);
    Tri back = OTF::toScene(TYPES[t], sig, g);
    c.note3("signal", sig);
    c.note3("back", back);
    static const char *N[9] = {"LINEAR", "GAMMA", "SRGB", "BT709", "ST2084", "SLOG", "SLOG2", "SLOG3", "HLG"};
    for (int i = 0; i < 3; i++)
    {
        double want = clampLight(t, v[i]);
        if (TYPES[t] == OTF::GAMMA && want > 0 && std::fabs(std::log(want)) / g > 80)
            continue; // the signal is not a float
        if (t && want == v[i] && v[i] != 0)
            c.nontrivial();
        c.near(N[t], back[i], want, (TYPES[t] == OTF::GAMMA ? 2 : 0.5) * lightTol(t, want, g));
    }
}
PROPERTY(signal, 8000000, 150000000, 0.03,
    "curve, exponent and three signals in the range the encoder can produce; decoded and encoded again; each channel must "
    "come back; non-trivial: curve is not LINEAR")
{
    int    t  = (int)c.s.draw(9);
    float  g  = TYPES[t] == OTF::GAMMA ? genGammaWide(c.s) : 1.f;
    auto   br = signalBreaks(t);
    double lo = 0, hi = std::min(maxSignal(t), TYPES[t] == OTF::SRGB || TYPES[t] == OTF::BT709 ? 1.0 : 1e9);
    if (TYPES[t] == OTF::SLOG)
        lo = enc(t, 0, 1), hi = enc(t, 10, 1);
    if (TYPES[t] == OTF::SLOG2)
        lo = enc(t, 0, 1);
    float v[3];
    for (float &x : v)
    {
        x = genValue(c.s, br, hi, false);
        if (x < lo)
            x = (float)lo;
    }
    Tri in(v[0], v[1], v[2]);
    c.notef("%s gamma=%.6g", NAMES[t], g);
    c.note3("signal", in);
    if (t)
        c.nontrivial();
    Tri lin  = OTF::toScene(TYPES[t], in, g);
    Tri back = OTF::toScreen(TYPES[t], lin, g);
    c.note3("light", lin);
    c.note3("back", back);
    static const char *N[9] = {"LINEAR", "GAMMA", "SRGB", "BT709", "ST2084", "SLOG", "SLOG2", "SLOG3", "HLG"};
    for (int i = 0; i < 3; i++)
    {
        double s = v[i], x = dec(t, s, g), tol;
        switch (TYPES[t])
        {
        case OTF::GAMMA:
            tol = s * EPS * (16 + 4 / g + 8 * std::fabs(std::log(std::max(s, 1e-45))) * (1 + 1 / g)) + 1e-38;
            if (x < 1e-30 || x > 1e30)
                continue;
            break;
        case OTF::SRGB:
            tol = std::fabs(s - 0.04045) < 1e-6 ? 1e-6 : EPS * (s < 0.04045 ? 8 * s : 24);
            break;
        case OTF::BT709:
            tol = s > 0.0809 && s < 0.0813 ? 5e-4 : EPS * (s < 0.081 ? 8 * s : 24);
            break;
        case OTF::ST2084:
            tol = s * EPS * m2 * 32 + 8e-7;
            break;
        case OTF::SLOG:
        case OTF::SLOG2:
            tol = EPS * 48;
            break;
        case OTF::SLOG3:
            tol = EPS * 64 * (s + 0.2) + (std::fabs(s - S3C / 1023) < 1e-5 ? 1e-6 : 0);
            break;
        case OTF::HLG:
            tol = s < 0.5 ? EPS * 8 * s + 1e-40 : EPS * 32 + (s < 0.5001 ? 1e-6 : 0);
            // 4*s*s underflows for tiny signals
            if (s < 1e-18)
                tol += 1e-19;
            break;
        default:
            tol = 0;
        }
        c.near(N[t], back[i], s, tol + 1e-38); // subnormal signals
    }
}
static const u64 PER = 1u << 28;
SWEEP(float_sweep, 8 * PER, 257, 7, 0.02,
    "every 257th (quick) or 7th (thorough) of the representable light values of each curve's range, three per case; "
    "non-trivial: all")
{
    u64      idx = c.s.draw(8 * PER);
    int      t   = (int)(idx / PER) + 1;
    u64      k   = idx % PER;
    float    mx  = (float)maxLight(t);
    uint32_t top;
    memcpy(&top, &mx, 4);
    uint32_t third = top / 3 + 1, off = (uint32_t)((double)k / (double)PER * third);
    float    v[3];
    for (int i = 0; i < 3; i++)
    {
        uint32_t b = std::min<uint32_t>(top, off + (uint32_t)i * third);
        memcpy(&v[i], &b, 4);
    }
    Tri in(v[0], v[1], v[2]);
    c.notef("%s", NAMES[t]);
    c.note3("light", in);
    c.nontrivial();
    Tri back = OTF::toScene(TYPES[t], OTF::toScreen(TYPES[t], in, 2.4f), 2.4f);
    for (int i = 0; i < 3; i++)
    {
        double want = clampLight(t, v[i]);
        c.near(NAMES[t], back[i], want, 2 * lightTol(t, want, 2.4f) + (TYPES[t] == OTF::GAMMA ? 1e-37 : 0));
    }
}
