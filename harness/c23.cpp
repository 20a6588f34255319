// C23: colour correction
#include "obs.hpp"

static double noise(u64 &w)
{
    w = pbt::mix(w);
    return (double)(w >> 11) / (double)(1ull << 52) - 1.0;
}
// eigenvalue bounds of sum p p^T -> condition of the patch matrix
static D9 gram(const std::vector<Tri> &p)
{
    D9 g;
    for (int i = 0; i < 9; i++)
        g[i] = 0;
    for (auto &t : p)
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++)
                g[i * 3 + j] += (double)t[i] * t[j];
    return g;
}
static void genPatches(Ctx &c, std::vector<Tri> &p, int n, bool far = true)
{
    u64    w = c.s.draw(1ull << 32);
    double k = c.s.draw(3) ? 1 : (!far || c.s.draw(4) ? c.s.logu(1e-2, 1e2) : c.s.logu(1e-9, 1e9));
    p.clear();
    switch (c.s.draw(5))
    {
    case 3: { // nearly grey, or nearly in a plane: weak but well determined directions
        double e = c.s.logu(1e-3, 0.3), f = c.s.coin() ? e : 1, x = c.s.uniform(0.2, 2), y = c.s.uniform(0.2, 2);
        for (int i = 0; i < n; i++)
        {
            double g = 0.2 + std::fabs(noise(w));
            p.push_back(Tri((float)(k * (x * g + f * noise(w))), (float)(k * (y * g + e * noise(w))), (float)(k * (g + e * noise(w)))));
        }
        break;
    }
    case 0: // basis vectors and mixtures
        for (int i = 0; i < n; i++)
        {
            u64 m = i < 3 ? 1u << i : 1 + pbt::mix(w++) % 7;
            p.push_back(Tri((float)(m & 1 ? k : 0), (float)(m & 2 ? k : 0), (float)(m & 4 ? k : 0)));
        }
        break;
    case 1: // camera-like: positive, correlated
        for (int i = 0; i < n; i++)
        {
            double g = std::fabs(noise(w));
            p.push_back(Tri((float)(k * (g + 0.5 * std::fabs(noise(w)))), (float)(k * (g + 0.5 * std::fabs(noise(w)))),
                (float)(k * (g + 0.5 * std::fabs(noise(w))))));
        }
        break;
    default:
        for (int i = 0; i < n; i++)
            p.push_back(Tri((float)(k * noise(w)), (float)(k * noise(w)), (float)(k * noise(w))));
    }
    if (n > 3 && c.s.draw(3) == 0) // duplicates
        p[c.s.draw(n)] = p[c.s.draw(n)];
    if (c.s.draw(3) == 0) // shuffle
        for (int i = n - 1; i > 0; i--)
            std::swap(p[i], p[pbt::mix(w++) % (i + 1)]);
}
static int count(Src &s) { if (s.draw(60) == 59) return s.draw(10) == 9 ? s.range(201, 1500) : s.range(61, 200); return s.draw(3) == 0 ? 24 : s.coin() ? s.range(3, 8) : s.range(3, 60); }
static Mat genM(Ctx &c)
{
    switch (c.s.draw(4))
    {
    case 0:
        return Mat();
    case 1:
        return matrix(c.s, 1, 1);
    default: {
        float m[9];
        for (float &x : m)
            x = (float)c.s.uniform(-2, 2);
        return Mat::fromArray(m);
    }
    }
}
// least-squares transform of each target channel, and the tolerance of a float solver
struct LS
{
    D9     m;
    double tol, kap;
    bool   ok;
};
static LS ls(const std::vector<Tri> &p, const std::vector<D3> &t)
{
    LS r;
    D9 g  = gram(p);
    // scale-free condition number of the 3-column patch matrix
    double tr = g[0] + g[4] + g[8], det = ddet(g);
    r.ok      = det > 1e-15 * tr * tr * tr;
    if (!r.ok)
        return r;
    D9 gi   = dinv(g);
    double smin2 = 1 / (gi[0] + gi[4] + gi[8]); // <= smallest eigenvalue * 1
    r.kap   = std::sqrt(tr / smin2);
    double nb = 0, nr = 0, nm = 0;
    for (int ch = 0; ch < 3; ch++)
    {
        D3 h = {{0, 0, 0}};
        for (size_t i = 0; i < p.size(); i++)
            for (int j = 0; j < 3; j++)
                h[j] += p[i][j] * t[i][ch];
        D3 x = dapply(gi, h);
        for (int j = 0; j < 3; j++)
            r.m[ch * 3 + j] = x[j], nm += x[j] * x[j];
    }
    for (size_t i = 0; i < p.size(); i++)
    {
        D3 e = dapply(r.m, d3(p[i]));
        for (int ch = 0; ch < 3; ch++)
            nr += (t[i][ch] - e[ch]) * (t[i][ch] - e[ch]), nb += t[i][ch] * t[i][ch];
    }
    nm = std::sqrt(nm), nr = std::sqrt(nr), nb = std::sqrt(nb);
    r.tol = 1e-5 * (1 + 3 * p.size() / 50.0) * (r.kap * nm + r.kap * r.kap * nr / std::sqrt(tr) + nb / std::sqrt(smin2)) + 1e-30;
    return r;
}
static void compare(Ctx &c, const char *n, const Mat &got, const LS &w)
{
    double e = 0;
    for (int i = 0; i < 9; i++)
        e += (got[i] - w.m[i]) * (got[i] - w.m[i]);
    c.near(n, std::sqrt(e), 0, w.tol);
}
PROPERTY(exact, 120000, 1500000, 0.1,
    "3..1500 patches (mostly up to 60) spanning the space (camera-like, basis mixtures, nearly grey, signed, duplicates, shuffled) and a transform; targets "
    "are the transformed patches: the solver returns the transform; non-trivial: transform is not the identity")
{
    std::vector<Tri> p, t;
    genPatches(c, p, count(c.s));
    Mat m = genM(c);
    c.notef("%d patches", (int)p.size());
    c.note9("transform", m);
    std::vector<D3> d;
    for (auto &x : p)
    {
        d.push_back(dapply(d9(m), d3(x)));
        t.push_back(Tri((float)d.back()[0], (float)d.back()[1], (float)d.back()[2]));
    }
    LS w = ls(p, d);
    if (!w.ok || w.kap > 4000)
        return;
    if (w.kap > 50)
        c.label("ill-conditioned");
    bool id = true;
    for (int i = 0; i < 9; i++)
        id &= m[i] == (i % 4 == 0);
    if (!id)
        c.nontrivial();
    Mat got = Corrector::solve(p, t);
    c.note9("solved", got);
    LS e = w;
    for (int i = 0; i < 9; i++)
        e.m[i] = m[i];
    compare(c, "transform", got, e);
}
PROPERTY(noisy, 120000, 1500000, 0.1,
    "patches with arbitrary or perturbed targets: the solver returns the least-squares transform of each channel, and the "
    "same one for a permutation of the patches; non-trivial: targets not reproduced exactly")
{
    std::vector<Tri> p, t;
    int              n = count(c.s);
    genPatches(c, p, n);
    Mat    m  = genM(c);
    double e  = c.s.coin() ? 1.0 : c.s.logu(1e-3, 1);
    u64    w0 = c.s.draw(1ull << 32);
    c.notef("%d patches, noise %.4g", n, e);
    c.note9("transform", m);
    std::vector<D3> d;
    for (auto &x : p)
    {
        D3  y = dapply(d9(m), d3(x));
        Tri f((float)(y[0] + e * noise(w0)), (float)(y[1] + e * noise(w0)), (float)(y[2] + e * noise(w0)));
        t.push_back(f);
        d.push_back(d3(f));
    }
    LS w = ls(p, d);
    if (!w.ok || w.kap > 4000)
        return;
    if (w.kap > 50)
        c.label("ill-conditioned");
    if (n > 3)
        c.nontrivial();
    Mat got = Corrector::solve(p, t);
    c.note9("solved", got);
    compare(c, "least squares", got, w);
    // rotate the list
    int              k = c.s.range(1, n - 1);
    std::vector<Tri> p2(p), t2(t);
    std::rotate(p2.begin(), p2.begin() + k, p2.end());
    std::rotate(t2.begin(), t2.begin() + k, t2.end());
    if (c.s.coin())
        std::reverse(p2.begin(), p2.end()), std::reverse(t2.begin(), t2.end());
    compare(c, "permuted", Corrector::solve(p2, t2), w);
}
static void chartTargets(const Spectrum &l, const Obs &o, std::vector<D3> &d)
{
    d.clear();
    for (int p = 0; p < 24; p++)
    {
        D3     r;
        double v[400];
        for (int i = 0; i < 400; i++)
            v[i] = (double)REF_TABLES[109 + p].v[i] * l[i];
        for (int k = 0; k < 3; k++)
        {
            double tol;
            r[k] = integrate(v, o.m[k], &tol);
        }
        d.push_back(r);
    }
}
PROPERTY(chart, 40000, 500000, 0.1,
    "24 device patches (a linear device looking at the chart, with noise, or arbitrary), light and observer (or the "
    "defaults D65 and CIE 1931): solve equals the least-squares transform to the chart colours; makeGamut uses it as "
    "to-XYZ, its inverse as from-XYZ, keeps the name; non-trivial: not the default arguments")
{
    int  def = (int)c.s.draw(4); // 0: defaults, 1: light only, else both
    Obs  o;
    Src  z;
    z.replay({0});
    genObs(def < 2 ? z : c.s, o);
    Spectrum        l = def == 0 ? CIE_D65 : light(c.s);
    std::vector<D3> d;
    chartTargets(l, o, d);
    double mx = 0;
    for (auto &x : d)
        mx = std::max(mx, dmax3(x));
    if (!(mx > 1e-6) || mx > 1e6)
        return;
    // device responses
    std::vector<Tri> p;
    if (c.s.draw(3))
    {
        D9     a = dinv(d9(Rec709.toXYZ()));
        double e = c.s.coin() ? 0.0 : 0.05;
        u64    w = c.s.draw(1ull << 32);
        for (int i = 0; i < 24; i++)
        {
            D3 r = dapply(a, d[i]);
            p.push_back(Tri((float)(r[0] / mx + e * noise(w)), (float)(r[1] / mx + e * noise(w)), (float)(r[2] / mx + e * noise(w))));
        }
    }
    else
        genPatches(c, p, 24, false);
    c.notef("observer %s, %s", o.name, def == 0 ? "default light and observer" : def == 1 ? "default observer" : "given observer");
    noteSpec(c, "light", l);
    LS w = ls(p, d);
    if (!w.ok || w.kap > 300)
        return;
    if (def)
        c.nontrivial();
    std::vector<Tri> p0 = p;
    Mat   got = def == 0 ? Corrector::solve(p) : def == 1 ? Corrector::solve(p, l) : Corrector::solve(p, l, *o.o);
    // chart targets carry float integration errors of about 450 roundings
    w.tol += 450 * EPS * mx * std::sqrt(72.0) * w.kap * w.kap / std::sqrt(gram(p)[0] + gram(p)[4] + gram(p)[8]);
    compare(c, "chart", got, w);
    const char *name = c.s.coin() ? "camera" : "";
    Gamut g = def == 0 ? Corrector::makeGamut(name, p) : def == 1 ? Corrector::makeGamut(name, p, l) : Corrector::makeGamut(name, p, l, *o.o);
    c.check(!strcmp(g.name(), name), "gamut name");
    for (int i = 0; i < 24; i++)
        c.check(p[i][0] == p0[i][0] && p[i][1] == p0[i][1] && p[i][2] == p0[i][2], "patches changed");
    double k = dcond(w.m);
    if (!(k < 1e3))
        return;
    c.label("gamut compared");
    D9     to = d9(g.toXYZ()), fr = d9(g.fromXYZ()), wi = dinv(w.m);
    double e1 = 0, e2 = 0;
    for (int i = 0; i < 9; i++)
        e1 += std::pow(to[i] - w.m[i], 2), e2 += std::pow(fr[i] - wi[i], 2);
    double nm = dnorm9(w.m), ni = dnorm9(wi), inv = 24 * EPS * k * k;
    c.near("gamut toXYZ", std::sqrt(e1), 0, w.tol + inv * nm);
    c.near("gamut fromXYZ", std::sqrt(e2), 0, (w.tol / nm * k * 1.5 + inv) * ni);
}
