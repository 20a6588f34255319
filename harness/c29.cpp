// C29: results do not depend on how the header is compiled
#include "apigen.hpp"
#include <dlfcn.h>

// ---------------------------------------------------------------- the builds to compare with this one
struct Lib
{
    std::string name;
    int (*call)(const Raw *, int, const int *, int, float *);
};
static std::vector<Lib> &libs()
{
    static std::vector<Lib> v;
    static bool             loaded = false;
    if (loaded)
        return v;
    loaded = true;
    std::string s = getenv("CS29_LIBS") ? getenv("CS29_LIBS") : ""; // name=path;name=path
    size_t      i = 0;
    while (i < s.size())
    {
        size_t      e = s.find(';', i);
        std::string p = s.substr(i, (e == std::string::npos ? s.size() : e) - i);
        i             = e == std::string::npos ? s.size() : e + 1;
        size_t q      = p.rfind('=');
        void  *h      = dlopen(p.substr(q + 1).c_str(), RTLD_NOW | RTLD_LOCAL | RTLD_DEEPBIND);
        Lib    l;
        l.name = p.substr(0, q);
        *(void **)&l.call = h ? dlsym(h, "cs29_call") : nullptr;
        int (*n)() = nullptr;
        if (h)
            *(void **)&n = dlsym(h, "cs29_functions");
        if (!l.call || !n || n() != NFN)
        {
            fprintf(stderr, "cannot load %s: %s\n", p.c_str(), dlerror());
            _exit(96);
        }
        v.push_back(l);
    }
    return v;
}
static const size_t nlibs = libs().size(); // a library that does not load stops the whole check
static bool isHue(int fn) { return !strncmp(TABLE[fn].name, "toHSV", 5); }
// Functions that go through the mathematical library and are discontinuous somewhere; constants and calls
// folded by a compiler may differ in the last place, so a difference counts only if it does not vanish
// for slightly different arguments.
static bool jumps(int fn) { return isHue(fn) || strstr(TABLE[fn].name, "E00") != nullptr; }

// the first value where the builds differ by more than the folding of library calls explains, or -1
static int differing(int fn, const float *a, int na, const float *b, int nb, double *worst = nullptr)
{
    if (na != nb)
        return std::min(na, nb);
    // values of one result share a scale; groups of three (colours, matrix rows) at least
    for (int i = 0; i < na; i++)
    {
        if (!memcmp(&a[i], &b[i], 4))
            continue;
        if (std::isnan(a[i]) && std::isnan(b[i]))
            continue;
        double m = 0;
        for (int j = i - i % 3; j < std::min(na, i - i % 3 + 3); j++)
            if (std::isfinite(a[j]))
                m = std::max(m, (double)std::fabs(a[j]));
        double d = std::fabs((double)a[i] - b[i]), tol = (TABLE[fn].cost == 2 ? 2e-3 : 5e-5) * m + 1e-37; // solutions: rounding times the condition
        if (!strncmp(TABLE[fn].name, "delta", 5)) // differences of almost equal colours
            tol += 2e-4;
        if (isHue(fn) && i == 0)
            d = std::min(d, std::fabs(d - 1));
        if (worst && d / tol > *worst)
            *worst = d / tol;
        if (!(d <= tol))
            return i;
    }
    return -1;
}
static void call(const Key &k, Pool &q, Out &r)
{
    r.n = 0;
    Args x{q.t[k.a], q.t[k.b], q.w[k.w], q.f[k.f], q.f[k.f2], q.s[k.s], q.s[k.s2], q.o[k.o], q.p[k.p], q.g[k.g], q.g[k.g2]};
    TABLE[k.fn].fn(x, r);
}
static void compareBuilds(Ctx &c, const Raw &raw, const std::vector<Key> &h)
{
    static Pool q;
    q.load(raw);
    Out   r;
    float v[512];
    bool  first = true;
    for (auto &k : h)
    {
        call(k, q, r);
        for (auto &l : libs())
            for (int unit = 0; unit < 2; unit++)
            {
                int    n = l.call(&raw, first && unit == 0, &k.fn, unit, v);
                double worst = 0;
                int    i = differing(k.fn, r.v, r.n, v, n, &worst);
                if (i < 0)
                {
                    if (worst > 0)
                        c.ratio(TABLE[k.fn].name, worst);
                    continue;
                }
                if (jumps(k.fn))
                {
                    bool gone = true;
                    for (int t = 1; t <= 4 && gone; t++)
                    {
                        Raw s = raw;
                        for (auto &x : s.t)
                            x[t % 3] *= 1 + 1e-4f * t;
                        Pool z;
                        z.load(s);
                        Out o;
                        call(k, z, o);
                        float u[512];
                        int   m = l.call(&s, 1, &k.fn, unit, u);
                        gone    = differing(k.fn, o.v, o.n, u, m) < 0;
                    }
                    float u[512];
                    l.call(&raw, 1, &k.fn, unit, u);
                    if (gone)
                        continue;
                }
                c.fail("%s: value %d is %.9g as compiled by g++ -O2 and %.9g as compiled by %s%s", TABLE[k.fn].name, i, i < r.n ? r.v[i] : NAN,
                    i < n ? v[i] : NAN, l.name.c_str(), unit ? ", second translation unit" : "");
            }
        first = false;
    }
}
static void noteKeys(Ctx &c, const std::vector<Key> &h)
{
    if (c.verbose)
        for (auto &k : h)
            c.notef("%s(a%d b%d w%d f%d,%d s%d,%d o%d p%d g%d,%d)", TABLE[k.fn].name, k.a, k.b, k.w, k.f, k.f2, k.s, k.s2, k.o, k.p, k.g, k.g2);
}
// patches that are almost equal make corrections as good as arbitrary: not judged
static Key judged(Key k)
{
    if (k.p == 4)
        k.p = 0;
    return k;
}
static std::vector<Key> genKeys(Ctx &c, int n, int maxCost)
{
    std::vector<Key> h;
    for (int i = 0; i < n; i++)
    {
        int f = (int)c.s.draw(NFN);
        while (TABLE[f].cost > maxCost)
            f = (f + 1) % NFN;
        h.push_back(judged(genKey(c, f, 0)));
    }
    return h;
}
PROPERTY(configurations, 60000, 1200000, 0,
    "1..12 calls of any public functions on generated arguments give the same values in every build (two translation units each); "
    "non-trivial: all")
{
    static Raw raw;
    genRaw(c, raw);
    c.nontrivial();
    std::vector<Key> h = genKeys(c, c.s.range(1, 12), c.s.draw(6) ? 1 : 2);
    noteKeys(c, h);
    compareBuilds(c, raw, h);
}
PROPERTY(unusual, 150000, 2500000, 0,
    "as above with zero, negative, equal, tiny and huge colours; non-trivial: all")
{
    static Raw raw;
    genRaw(c, raw);
    c.nontrivial();
    static const float H[] = {0.f, 1.f, -1.f, 0.5f, 1e9f, -1e9f, 1e-9f, -1e-9f, 1e-30f, 100.f, 0.18f, 0.018f, 1e-3f};
    for (int i = 0; i < NT; i++)
        for (float &x : raw.t[i])
            if (c.s.draw(3))
                x = H[c.s.draw(13)];
    if (c.s.draw(3) == 0)
        for (int i = 0; i < 3; i++)
            raw.t[i][1] = raw.t[i][2] = raw.t[i][0];
    if (c.s.coin())
        raw.f[0] = H[c.s.draw(4)], raw.f[1] = c.s.coin() ? 0.f : -0.f;
    std::vector<Key> h = genKeys(c, c.s.range(1, 12), c.s.draw(8) ? 0 : 1);
    noteKeys(c, h);
    compareBuilds(c, raw, h);
}
