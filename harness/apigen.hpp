// Generated arguments and keys for the table of calls.
// Values recur fully or in part (one component changed, permuted, one ulp apart), so that a result kept
// from an earlier call under an incomplete key shows up.
#pragma once
#include "obs.hpp"
#include "apitab.hpp"

static void genRaw(Ctx &c, Raw &q)
{
    auto set = [](float *d, float a, float b, float e) { d[0] = a, d[1] = b, d[2] = e; };
    auto family = [&](float (*t)[3], Tri x, Tri y) {
        const float base[3] = {x[0], x[1], x[2]}, other[3] = {y[0], y[1], y[2]};
        set(t[0], base[0], base[1], base[2]);
        int k = (int)c.s.draw(3);
        set(t[1], base[0], base[1], base[2]); // one component differs
        t[1][k] = other[k];
        set(t[2], base[1], base[2], base[0]); // permuted
        set(t[3], other[0], other[1], other[2]);
        set(t[4], base[0], base[1], base[2]); // almost equal
        int l   = (int)c.s.draw(3);
        t[4][l] = c.s.coin() ? std::nextafterf(t[4][l], 2.f) : t[4][l] * (1 + 1e-4f);
        static const float M[] = {2.f, 0.5f, 1000.f, 1e-3f, 1e6f, 1e-6f};
        float m = M[c.s.draw(6)];
        set(t[5], base[0] * m, base[1] * m, base[2] * m);
        set(t[6], base[0], base[1], base[2]); // sign or zero
        t[6][c.s.draw(3)] *= c.s.coin() ? -1.f : 0.f;
    };
    family(q.t, colour(c.s, 0.01, 1), colour(c.s, 0.01, 1));
    family(q.w, white(c.s), white(c.s));
    set(q.w[6], q.w[0][0] * 0.5f, q.w[0][1] * 0.5f, q.w[0][2] * 0.5f);
    q.f[0] = (float)c.s.uniform(0.05, 1);
    q.f[1] = (float)c.s.uniform(0.05, 1);
    q.f[2] = std::nextafterf(q.f[0], 2.f);
    q.f[3] = -q.f[0];
    q.f[4] = 1 - q.f[0];
    auto put = [](float *d, const Spectrum &s) { SpecArr a = s.s(); std::copy(a.begin(), a.end(), d); };
    put(q.s[0], c.s.coin() ? CIE_D65 : light(c.s));
    std::copy(q.s[0], q.s[0] + 400, q.s[1]);
    q.s[1][c.s.draw(400)] *= 1.5f;
    std::reverse_copy(q.s[0], q.s[0] + 400, q.s[2]);
    put(q.s[3], light(c.s));
    Obs ob;
    genObs(c.s, ob);
    q.ob[0] = ob.builtin;
    for (int i = 0; i < 3; i++)
        std::copy(ob.m[i], ob.m[i] + 400, q.o[0][i]), std::copy(ob.m[i], ob.m[i] + 400, q.o[1][i]);
    q.ob[1] = -1;
    put(q.o[1][2], matching(c.s));
    q.ob[2] = c.s.coin() ? 2 : 0;
    u64 w   = c.s.draw(1ull << 32);
    for (int i = 0; i < 24; i++)
        for (float &x : q.p[0][i])
            x = (float)(pbt::mix(w++) >> 40) / (float)(1 << 24);
    memcpy(q.p[1], q.p[0], sizeof q.p[0]);
    memcpy(q.p[1][c.s.draw(24)], q.t[0], sizeof q.t[0]);
    float big = (float)(c.s.draw(4) ? c.s.logu(1e-9, 1e9) : c.s.logu(1e-20, 1e20)); // the same patches on another scale, and all but equal to each other
    for (int i = 0; i < 24; i++)
        for (int j = 0; j < 3; j++)
        {
            q.p[2][i][j] = q.p[0][23 - i][j];
            q.p[3][i][j] = q.p[0][i][j] * big;
            q.p[4][i][j] = q.p[0][0][j] + q.p[0][i][j] * 1e-5f;
        }
    float d = (float)c.s.uniform(-0.03, 0.03);
    for (int i = 0; i < 2; i++)
    {
        static const float N[8] = {0.64f, 0.33f, 0.30f, 0.60f, 0.15f, 0.06f, 0.3127f, 0.3290f};
        std::copy(N, N + 8, q.g[i]);
        q.g[i][i ? 6 : 0] += d;
    }
}
static void genPool(Ctx &c, Pool &q)
{
    static Raw r;
    genRaw(c, r);
    q.load(r);
}
static Key genKey(Ctx &c, int fn, int few)
{
    // few: restrict to small index sets so that keys repeat
    auto d = [&](int n) { return (int)c.s.draw(few && n > few ? few : n); };
    Key  k;
    memset(&k, 0, sizeof k);
    k.fn = fn;
    k.a = d(NT), k.b = d(NT), k.w = d(NT), k.f = d(NF), k.f2 = d(NF);
    if (TABLE[fn].cost)
        k.s = d(NS), k.s2 = d(NS), k.o = d(NO);
    if (TABLE[fn].cost == 2)
        k.p = d(NP);
    k.g = d(NG), k.g2 = d(NG);
    return k;
}
