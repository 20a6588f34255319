// Double precision reference of ICtCp with an error model.
#pragma once
#include "otf.hpp"
namespace ictcp
{
static const D9 M = {{0.3592, 0.6976, -0.0358, -0.1922, 1.1004, 0.0755, 0.0070, 0.0749, 0.8434}};
static const D9 O = {{0.5, 0.5, 0, 6610.0 / 4096, -13613.0 / 4096, 7003.0 / 4096, 17933.0 / 4096, -17390.0 / 4096,
    -543.0 / 4096}};
struct Val
{
    D3 v, tol; // value and float error bound
};
inline double pq(double l) { return otf::enc(4, l, 1); }
// XYZ -> ICtCp
inline Val forward(const D3 &xyz, D3 *pqOut = nullptr, D3 *pqTol = nullptr)
{
    D3 lms = dapply(M, xyz), la = dapply(dabs9(M), dabs3(xyz)), p, dp;
    for (int i = 0; i < 3; i++)
    {
        double e = 8 * EPS * la[i];
        p[i]     = pq(lms[i]);
        dp[i]    = std::max(pq(lms[i] + e) - p[i], p[i] - pq(lms[i] - e)) + otf::encTol(4, lms[i] + e, 1) + 1e-8;
    }
    Val r;
    r.v    = dapply(O, p);
    D3 t   = dapply(dabs9(O), dp), m = dapply(dabs9(O), dabs3(p));
    for (int i = 0; i < 3; i++)
        r.tol[i] = t[i] + 6 * EPS * m[i] + 1e-12;
    if (pqOut)
        *pqOut = p;
    if (pqTol)
        *pqTol = dp;
    return r;
}
// ICtCp -> XYZ; extra: error already present in the ICtCp triple
inline Val inverse(const D3 &icc, const D3 &extra)
{
    static const D9 OI = dinv(O), MI = dinv(M);
    D3  p = dapply(OI, icc), dp = dapply(dabs9(OI), extra), pm = dapply(dabs9(OI), dabs3(icc)), lms, dl;
    for (int i = 0; i < 3; i++)
    {
        // coefficients are published with six digits
        double e = dp[i] + 5e-7 * (std::fabs(icc[1]) + std::fabs(icc[2])) + 4 * EPS * pm[i];
        double q = std::min(1.0, std::max(0.0, p[i]));
        lms[i]   = otf::pqDec(q);
        double hi = otf::pqDec(std::min(1.005, q + e)), lo = otf::pqDec(std::max(0.0, q - e));
        dl[i] = std::max(hi - lms[i], lms[i] - lo) + otf::pqDecTol(q, 6) + 1e-12;
    }
    Val r;
    r.v  = dapply(MI, lms);
    D3 t = dapply(dabs9(MI), dl), m = dapply(dabs9(MI), dabs3(lms));
    for (int i = 0; i < 3; i++)
        r.tol[i] = t[i] + 8 * EPS * m[i];
    return r;
}
} // namespace ictcp
