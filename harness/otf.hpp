// Double precision reference of the published transfer curves, with domains and error models.
#pragma once
#include "cs.hpp"

namespace otf
{
static const OTF::TYPE TYPES[9] = {
    OTF::LINEAR, OTF::GAMMA, OTF::SRGB, OTF::BT709, OTF::ST2084, OTF::SLOG, OTF::SLOG2, OTF::SLOG3, OTF::HLG};
static const char *NAMES[9] = {"LINEAR", "GAMMA", "SRGB", "BT709", "ST2084", "SLOG", "SLOG2", "SLOG3", "HLG"};
static const double m1 = 2610.0 / 16384, m2 = 2523.0 / 4096 * 128, c1 = 3424.0 / 4096, c2 = 2413.0 / 4096 * 32,
                    c3 = 2392.0 / 4096 * 32;
static const double HA = 0.17883277, HB = 0.28466892, HC = 0.55991073;
static const double S2B = 64.0 / 1024, S2W = 876.0 / 1024, S2Z = 0.030001222851889303;
static const double S3C = 171.2102946929, S3X = 0.01125;

inline double pqEnc(double Y)
{
    if (Y <= 0)
        return 0;
    if (Y >= 100)
        return 1;
    double l = std::pow(Y / 100, m1);
    return std::pow((c1 + c2 * l) / (1 + c3 * l), m2);
}
inline double pqDec(double N)
{
    if (N <= 0)
        return 0;
    double p = std::pow(N, 1 / m2), l = std::max(0.0, p - c1) / (c2 - c3 * p);
    return 100 * std::pow(l, 1 / m1);
}
// relative error of the PQ decoder at signal N when computed in float (k: slack)
inline double pqDecTol(double N, double k)
{
    if (N <= 0)
        return 0;
    double p  = std::pow(N, 1 / m2);
    double dp = k * EPS; // absolute error of p (and of p-c1)
    auto   at = [&](double q) {
        double l = std::max(0.0, q - c1) / std::max(1e-3, c2 - c3 * q);
        return 100 * std::pow(l, 1 / m1);
    };
    double y = at(p), hi = at(p + dp), lo = at(p - dp);
    double den = 6.3 * k * EPS * c2 / (c2 - c3 * p);
    return std::max(hi - y, y - lo) + y * (den + k * 8 * EPS);
}
// encode: light -> signal
inline double enc(int t, double x, double g)
{
    switch (TYPES[t])
    {
    case OTF::GAMMA:
        return std::pow(x, 1 / g);
    case OTF::SRGB:
        return x <= 0 ? 0 : x >= 1 ? 1 : x < 0.0031308 ? 12.92 * x : 1.055 * std::pow(x, 1 / 2.4) - 0.055;
    case OTF::BT709:
        return x <= 0 ? 0 : x >= 1 ? 1 : x < 0.018 ? 4.5 * x : 1.099 * std::pow(x, 0.45) - 0.099;
    case OTF::ST2084:
        return pqEnc(x);
    case OTF::SLOG: {
        double y = std::min(10.0, std::max(0.0, x));
        return 0.432699 * std::log10(y + 0.037584) + 0.616596 + 0.03;
    }
    case OTF::SLOG2: {
        double ire = x < 0 ? x * 3.53881278538813 + S2Z
                           : 0.432699 * std::log10(155.0 * x / 219.0 + 0.037584) + 0.616596 + 0.03;
        return ire * S2W + S2B;
    }
    case OTF::SLOG3:
        return (x >= S3X ? 420 + std::log10((x + 0.01) / 0.19) * 261.5 : x * (S3C - 95) / S3X + 95) / 1023;
    case OTF::HLG:
        return x <= 0 ? 0 : x < 1 ? 0.5 * std::sqrt(x) : HA * std::log(x - HB) + HC;
    default:
        return x;
    }
}
inline double encTol(int t, double x, double g)
{
    double y = enc(t, x, g);
    switch (TYPES[t])
    {
    case OTF::GAMMA:
        return std::fabs(y) * EPS * (6 + 4 * std::fabs(std::log(std::max(x, 1e-45))) / g) + 1e-44;
    case OTF::SRGB:
        return std::fabs(x - 0.0031308) < 1e-8 ? 2e-7 : EPS * (x < 0.0031308 ? 4 * std::fabs(y) : 12) + 1e-44;
    case OTF::BT709:
        return std::fabs(x - 0.018) < 2e-8 ? 3e-4 : EPS * (x < 0.018 ? 4 * std::fabs(y) : 12) + 1e-44;
    case OTF::ST2084:
        return y * EPS * (m2 * 12 + 8);
    case OTF::SLOG:
        return EPS * 16;
    case OTF::SLOG2:
        return EPS * (x < 0 ? 12 * (std::fabs(y) + 0.1) : 16);
    case OTF::SLOG3:
        return EPS * (x < S3X + 1e-6 ? 16 * (std::fabs(y) + 0.1) : 24) + (std::fabs(x - S3X) < 1e-7 ? 1e-6 : 0);
    case OTF::HLG:
        return EPS * (x < 1 ? 4 * y : 16) + 1e-44 + (std::fabs(x - 1) < 1e-6 ? 2e-7 : 0);
    default:
        return 0;
    }
}
// decode: signal -> light
inline double dec(int t, double s, double g)
{
    switch (TYPES[t])
    {
    case OTF::GAMMA:
        return std::pow(s, g);
    case OTF::SRGB:
        return s <= 0 ? 0 : s >= 1 ? 1 : s < 0.04045 ? s / 12.92 : std::pow((s + 0.055) / 1.055, 2.4);
    case OTF::BT709:
        return s <= 0 ? 0 : s >= 1 ? 1 : s < 0.081 ? s / 4.5 : std::pow((s + 0.099) / 1.099, 1 / 0.45);
    case OTF::ST2084:
        return pqDec(s);
    case OTF::SLOG:
        return std::pow(10, (s - 0.616596 - 0.03) / 0.432699) - 0.037584;
    case OTF::SLOG2: {
        double x = (s - S2B) / S2W;
        double y = x >= S2Z ? 219.0 * (std::pow(10, (x - 0.616596 - 0.03) / 0.432699) - 0.037584) / 155.0 : 0;
        return std::max(0.0, y);
    }
    case OTF::SLOG3:
        return s >= S3C / 1023 ? std::pow(10, (s * 1023 - 420) / 261.5) * 0.19 - 0.01 : (s * 1023 - 95) * S3X / (S3C - 95);
    case OTF::HLG:
        return s <= 0 ? 0 : s <= 0.5 ? 4 * s * s : std::exp((s - HC) / HA) + HB;
    default:
        return s;
    }
}
inline double decTol(int t, double s, double g)
{
    double y = dec(t, s, g);
    switch (TYPES[t])
    {
    case OTF::GAMMA:
        return std::fabs(y) * EPS * (6 + 4 * std::fabs(std::log(std::max(s, 1e-45))) * g) + 1e-44;
    case OTF::SRGB:
        return std::fabs(s - 0.04045) < 1e-7 ? 1e-7 : std::fabs(y) * EPS * (s < 0.04045 ? 4 : 16) + 1e-44;
    case OTF::BT709:
        return std::fabs(s - 0.081) < 1e-7 ? 1e-4 : std::fabs(y) * EPS * (s < 0.081 ? 4 : 16) + 1e-44;
    case OTF::ST2084:
        return pqDecTol(s, 6) + 1e-12;
    case OTF::SLOG:
        return EPS * (y + 0.037584) * (12 + 5.33 * 12 * (std::fabs(s) + 0.7)) + EPS * 0.2;
    case OTF::SLOG2:
        return EPS * (y + 0.0532) * (12 + 5.33 * 12 * (std::fabs(s) + 0.7)) + EPS * 0.2;
    case OTF::SLOG3:
        if (s >= S3C / 1023 - 1e-6)
            return EPS * (y + 0.01) * (12 + 12 * (std::fabs(s) * 1023 + 420) / 261.5 * 2.31) + EPS * 0.1 +
                   (std::fabs(s - S3C / 1023) < 1e-6 ? 2e-8 : 0);
        return EPS * 16 * (std::fabs(y) + 0.0145);
    case OTF::HLG:
        return s <= 0.5 ? y * EPS * 6 + 1e-44
                        : EPS * ((y - HB) * (8 + 8 * (std::fabs(s) + 0.6) / HA) + 2 * y) + (s < 0.50001 ? 4e-7 : 0);
    default:
        return 0;
    }
}
// largest light / signal exercised
inline double maxLight(int t)
{
    static const double M[9] = {1e6, 1e4, 2, 2, 150, 15, 100, 1000, 1000};
    return M[t];
}
inline double maxSignal(int t)
{
    switch (TYPES[t])
    {
    case OTF::ST2084:
        return 1;
    case OTF::SLOG:
        return enc(t, 10, 1);
    case OTF::SLOG2:
    case OTF::SLOG3:
    case OTF::HLG:
        return enc(t, maxLight(t), 1);
    case OTF::SRGB:
    case OTF::BT709:
        return 2;
    default:
        return 1e4;
    }
}
inline bool negLight(int t) { return TYPES[t] != OTF::GAMMA; }
inline bool negSignal(int t) { return TYPES[t] != OTF::GAMMA; }

inline std::vector<double> lightBreaks(int t)
{
    switch (TYPES[t])
    {
    case OTF::SRGB:
        return {0.0031308, 1, 0, 0.18, 0.5};
    case OTF::BT709:
        return {0.018, 1, 0, 0.18, 0.5};
    case OTF::ST2084:
        return {100, 1, 0, 10, 50};
    case OTF::SLOG:
        return {0, 10, 1, 0.18};
    case OTF::SLOG2:
        return {0, 1, 0.18, 10};
    case OTF::SLOG3:
        return {S3X, 0, 0.18, 1, -0.01};
    case OTF::HLG:
        return {1, 0, 0.25, 12, 0.28466892};
    default:
        return {0, 1, 0.5};
    }
}
inline std::vector<double> signalBreaks(int t)
{
    switch (TYPES[t])
    {
    case OTF::SRGB:
        return {0.04045, 1, 0, 0.5};
    case OTF::BT709:
        return {0.081, 1, 0, 0.5};
    case OTF::ST2084:
        return {0, 1, 0.5, 7.3e-7};
    case OTF::SLOG2:
        return {S2Z * S2W + S2B, 0, S2B, 0.5};
    case OTF::SLOG3:
        return {S3C / 1023, 95.0 / 1023, 0, 420.0 / 1023};
    case OTF::HLG:
        return {0.5, 0, 1, HC};
    default:
        return {0, 1, 0.5};
    }
}
inline float genValue(Src &s, const std::vector<double> &br, double mx, bool neg)
{
    float v;
    switch (s.draw(8))
    {
    case 0:
    case 1: // around a segment boundary
        v = s.ulps((float)br[s.draw(br.size())], 30);
        break;
    case 2: {
        double b = br[s.draw(br.size())];
        v        = (float)(b + s.uniform(-1, 1) * s.logu(1e-7, 0.1) * std::max(0.01, std::fabs(b)));
        break;
    }
    case 3:
        v = (float)s.logu(1e-9, mx);
        break;
    case 4:
        v = (float)s.uniform(0, mx);
        break;
    case 5:
        v = neg ? (float)-s.logu(1e-6, std::min(mx, 1.0)) : nice(s);
        break;
    case 6: // exact code values
        v = (float)(s.draw(1024) / 1023.0);
        break;
    default:
        v = (float)s.uniform(0, std::min(mx, 1.0));
    }
    if (v > mx)
        v = (float)mx;
    if (v < 0 && !neg)
        v = std::fabs(v) > mx ? 0.f : -v;
    return v;
}
inline float genGamma(Src &s)
{
    static const float G[] = {1.f, 2.2f, 2.4f, 2.6f, 1.8f, 0.45f, 2.f, 3.f, 0.5f};
    return s.draw(3) ? (float)s.uniform(0.2, 5) : G[s.draw(9)];
}
// any exponent, also far from what displays use
inline float genGammaWide(Src &s) { return s.draw(6) ? genGamma(s) : (float)s.logu(0.01, 100); }
} // namespace otf
