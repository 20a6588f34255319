// C27: results depend only on the arguments
#include "apigen.hpp"
#include <thread>
#include <clocale>
#include <ctime>
#include <cerrno>
#include <dlfcn.h>
#include <malloc.h>
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(PBT_FUZZ)
#define SURROUNDINGS 1
#endif

#ifdef SURROUNDINGS
// While a surrounding is set, what the program could ask its environment for is answered from it.
static volatile unsigned surrounding = 0;
template <class F> static F next(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
extern "C" int rand(void) __THROW { return surrounding ? (int)(pbt::mix(surrounding++) >> 34) : next<int (*)()>("rand")(); }
extern "C" long random(void) __THROW { return surrounding ? (long)(pbt::mix(surrounding++) >> 34) : next<long (*)()>("random")(); }
extern "C" time_t time(time_t *t) __THROW
{
    if (!surrounding)
        return next<time_t (*)(time_t *)>("time")(t);
    time_t v = (time_t)(pbt::mix(surrounding) >> 34);
    if (t)
        *t = v;
    return v;
}
extern "C" clock_t clock(void) __THROW { return surrounding ? (clock_t)(pbt::mix(surrounding) >> 34) : next<clock_t (*)()>("clock")(); }
extern "C" char *getenv(const char *n) __THROW
{
    static char v[4][8] = {"", "0", "1", "yes"};
    if (surrounding)
        return (surrounding & 4) ? v[surrounding & 3] : nullptr;
    return next<char *(*)(const char *)>("getenv")(n);
}
static __attribute__((noinline)) void dirtyStack(int v)
{
    volatile unsigned char b[60000];
    memset((void *)b, v, sizeof b);
    asm volatile("" ::"r"(b) : "memory");
}
#endif

static void differ(Ctx &c, const Key &k, const Out &was, const Out &is, const char *when)
{
    if (was == is)
        return;
    int i = 0;
    while (i < was.n && i < is.n && !memcmp(&was.v[i], &is.v[i], 4))
        i++;
    c.fail("%s %s: value %d was %.9g and is now %.9g for identical arguments", TABLE[k.fn].name, when, i, i < was.n ? was.v[i] : NAN, i < is.n ? is.v[i] : NAN);
}
// fingerprint of arguments and built-in constants
static u64 hashBytes(const void *p, size_t n, u64 h = 1469598103934665603ull)
{
    const uint8_t *b = (const uint8_t *)p;
    size_t         i = 0;
    for (; i + 8 <= n; i += 8)
    {
        u64 w;
        memcpy(&w, b + i, 8);
        h = (h ^ w) * 1099511628211ull;
        h ^= h >> 29;
    }
    for (; i < n; i++)
        h = (h ^ b[i]) * 1099511628211ull;
    return h;
}
static u64 hashMat(const Mat &m, u64 h)
{
    float v[9];
    for (int i = 0; i < 9; i++)
        v[i] = m[i];
    return hashBytes(v, sizeof v, h);
}
static u64 hashPool(const Pool &q)
{
    u64 h = 7;
    for (auto &t : q.t)
        for (int i = 0; i < 3; i++)
        {
            float x = t[i];
            h       = hashBytes(&x, 4, h);
        }
    for (auto &t : q.w)
        for (int i = 0; i < 3; i++)
        {
            float x = t[i];
            h       = hashBytes(&x, 4, h);
        }
    h = hashBytes(q.f, sizeof q.f, h);
    for (auto &s : q.s)
        h = hashBytes(s.s().data(), 1600, h);
    for (auto &o : q.o)
        h = hashBytes((const void *)&o, sizeof(Observer), h);
    for (auto &p : q.p)
        for (auto &t : p)
            for (int i = 0; i < 3; i++)
            {
                float x = t[i];
                h       = hashBytes(&x, 4, h);
            }
    for (auto &g : q.g)
        h = hashMat(g.toXYZ(), hashMat(g.fromXYZ(), h));
    return h;
}
static u64 hashConstants(bool tables)
{
    u64          h   = 3;
    const Gamut *G[] = {&AdobeRGB, &Rec709, &Rec2020, &DCI_P3, &S_Gamut, &S_Gamut3_Cine, &ACEScg, &ACES2065, &LMS, &XYZ};
    for (auto g : G)
        h = hashMat(g->toXYZ(), hashMat(g->fromXYZ(), h));
    const Tri *I[] = {&Illuminant_A, &Illuminant_B, &Illuminant_C, &Illuminant_D50, &Illuminant_D55, &Illuminant_D60, &Illuminant_D65,
        &Illuminant_D75, &Illuminant_E, &Illuminant_F2, &Illuminant_F7, &Illuminant_F11};
    for (auto t : I)
        for (int i = 0; i < 3; i++)
        {
            float x = (*t)[i];
            h       = hashBytes(&x, 4, h);
        }
    if (!tables)
        return h;
    for (auto o : {&CIE1931, &CIE31JV, &CIE2012})
        h = hashBytes((const void *)o, sizeof(Observer), h);
    h = hashBytes(CIE_D65.s().data(), 1600, h);
    for (auto &s : TM_30_15::sample)
        h = hashBytes(s.s().data(), 1600, h);
    for (auto &s : Macbeth::Patch)
        h = hashBytes(s.s().data(), 1600, h);
    return h;
}
static std::vector<Key> genHistory(Ctx &c, int n, int maxCost)
{
    std::vector<int> fns;
    int              k = c.s.range(1, 5);
    for (int i = 0; i < k; i++)
    {
        int f = (int)c.s.draw(NFN);
        while (TABLE[f].cost > maxCost)
            f = (f + 1) % NFN;
        fns.push_back(f);
    }
    int              few = (int)c.s.draw(3) + 2;
    std::vector<Key> h;
    for (int i = 0; i < n; i++)
    {
        if (!h.empty() && c.s.draw(3) == 0) // an earlier call again, with at most one argument changed
        {
            Key  x = h[c.s.draw(h.size())];
            int *m = &x.a;
            if (c.s.coin())
            {
                Key y = genKey(c, x.fn, 0);
                int j = (int)c.s.draw(11);
                m[j]  = (&y.a)[j];
            }
            h.push_back(x);
        }
        else
            h.push_back(genKey(c, fns[c.s.draw(fns.size())], few));
    }
    return h;
}
static void noteHistory(Ctx &c, const std::vector<Key> &h)
{
    if (!c.verbose)
        return;
    for (auto &k : h)
        c.notef("%s(a%d b%d w%d f%d,%d s%d,%d o%d p%d g%d,%d)", TABLE[k.fn].name, k.a, k.b, k.w, k.f, k.f2, k.s, k.s2, k.o, k.p, k.g, k.g2);
}
PROPERTY(history, 300000, 4000000, 0.05,
    "8..40 calls of one to five of all public functions with recurring and almost equal arguments, passed at recurring and at "
    "distinct addresses, then again in another order: every repetition is bit-identical, arguments and constants are unchanged; "
    "non-trivial: some call is repeated after a different call of the same function")
{
    Pool q;
    genPool(c, q);
    std::vector<Key>   h = genHistory(c, c.s.range(8, 40), c.s.draw(4) ? 1 : 2);
    std::map<Key, Out> seen;
    std::map<int, Key> last;
    Slots              z;
    Out                r;
    noteHistory(c, h);
    u64  before = hashPool(q), cb = hashConstants(false);
    u64  order = c.s.draw(1ull << 32);
    for (int pass = 0; pass < 2; pass++)
    {
        for (auto &k : h)
        {
            invoke(k, q, z, c.s.coin(), r);
            auto it = seen.find(k);
            if (it == seen.end())
                seen[k] = r;
            else
            {
                auto l = last.find(k.fn);
                if (l != last.end() && memcmp(&l->second, &k, sizeof k))
                    c.nontrivial();
                differ(c, k, it->second, r, pass ? "in another order" : "repeated");
            }
            last[k.fn] = k;
        }
        for (size_t i = h.size() - 1; i > 0; i--)
            std::swap(h[i], h[pbt::mix(order++) % (i + 1)]);
    }
    c.check(hashPool(q) == before, "an argument was modified");
    c.check(hashConstants(false) == cb, "a built-in constant was modified");
}
// the last of these calls, made in a new process that has called nothing else of the table
static bool inChild(const std::vector<Key> &h, Pool &q, u64 places, Out &f)
{
    int fd[2];
    if (pipe(fd))
        _exit(97);
    pid_t pid = fork();
    if (pid == 0)
    {
        Slots z;
        Out   r;
        memset(&r, 0, sizeof r);
        for (auto &k : h)
            invoke(k, q, z, (pbt::mix(places++) & 1) != 0, r);
        ssize_t w = write(fd[1], &r, sizeof r);
        _exit(w == sizeof r ? 0 : 1);
    }
    close(fd[1]);
    size_t got = 0;
    while (got < sizeof f)
    {
        ssize_t n = ::read(fd[0], (char *)&f + got, sizeof f - got);
        if (n <= 0)
            break;
        got += n;
    }
    close(fd[0]);
    int st;
    waitpid(pid, &st, 0);
    return got == sizeof f;
}
PROPERTY(fresh_process, 6000, 80000, 0,
    "a call made after a history of 1..25 others gives the result of the same call made first, each in a process of its own; "
    "non-trivial: all")
{
    Pool q;
    genPool(c, q);
    std::vector<Key> h = genHistory(c, c.s.range(2, 26), 2);
    noteHistory(c, h);
    c.nontrivial();
    u64 w = c.s.draw(1ull << 32);
    Out f, r;
    c.check(inChild({h.back()}, q, w, f), "the call crashed in a fresh process");
    c.check(inChild(h, q, w + 7, r), "the history crashed");
    differ(c, h.back(), f, r, "after other calls");
}
PROPERTY(hammer, 800, 10000, 0.05,
    "one function called 70000 times (spectra 3000, charts 400) alternating between two argument sets; non-trivial: all")
{
    Pool q;
    genPool(c, q);
    c.nontrivial();
    int   fn = (int)c.s.draw(NFN);
    Key   k[2] = {genKey(c, fn, 0), genKey(c, fn, 0)};
    noteHistory(c, {k[0], k[1]});
    Slots z;
    Out   first[2], r;
    int   n = TABLE[fn].cost == 0 ? 70000 : TABLE[fn].cost == 1 ? 3000 : 400;
    u64   w = c.s.draw(1ull << 32);
    u64   cb = hashConstants(true);
    for (int i = 0; i < n; i++)
    {
        int j = i < 2 ? i : (int)(pbt::mix(w + i) & 1);
        invoke(k[j], q, z, TABLE[fn].cost == 0, r);
        if (i < 2)
            first[j] = r;
        else
            differ(c, k[j], first[j], r, "repeated many times");
    }
    c.extra += n - 1;
    c.check(hashConstants(true) == cb, "a built-in table was modified");
}
PROPERTY(threads, 10000, 150000, 0.1,
    "a history of 20..60 calls run by 2..6 threads at once, each in its own order, against the single-threaded results, bit for "
    "bit; non-trivial: all")
{
    Pool q;
    genPool(c, q);
    std::vector<Key> h = genHistory(c, c.s.range(20, 60), c.s.draw(3) ? 1 : 2);
    noteHistory(c, h);
    c.nontrivial();
    int n = c.s.range(2, 6);
    u64 w = c.s.draw(1ull << 32);
    std::vector<Out> ref(h.size());
    // results before or after the threads: first calls may happen concurrently
    bool  after = c.s.coin();
    Slots z;
    if (!after)
        for (size_t i = 0; i < h.size(); i++)
            invoke(h[i], q, z, true, ref[i]);
    std::vector<std::vector<Out>> out(n, std::vector<Out>(h.size()));
    std::atomic<int>              ready{0};
    std::vector<std::thread>      th;
    for (int t = 0; t < n; t++)
        th.emplace_back([&, t]() {
            std::vector<int> ord(h.size());
            for (size_t i = 0; i < ord.size(); i++)
                ord[i] = (int)i;
            u64 x = w + 1000 * t;
            for (size_t i = ord.size() - 1; i > 0; i--)
                std::swap(ord[i], ord[pbt::mix(x++) % (i + 1)]);
            std::unique_ptr<Slots> zz(new Slots);
            ready++;
            while (ready.load() < n)
                std::this_thread::yield();
            for (int rep = 0; rep < 2; rep++)
                for (int i : ord)
                    invoke(h[i], q, *zz, (i + t) & 1, out[t][i]);
        });
    for (auto &t : th)
        t.join();
    if (after)
        for (size_t i = 0; i < h.size(); i++)
            invoke(h[i], q, z, true, ref[i]);
    for (int t = 0; t < n; t++)
        for (size_t i = 0; i < h.size(); i++)
            differ(c, h[i], ref[i], out[t][i], "in a concurrent thread");
}
PROPERTY(silence, 30000, 300000, 0.05,
    "5..30 calls of any functions with ordinary and hostile (zero, negative, huge) colours: nothing on standard output or error, "
    "checked at the file descriptors; non-trivial: all")
{
    Pool q;
    genPool(c, q);
    c.nontrivial();
    if (c.s.coin())
    {
        static const float H[] = {0.f, -1.f, 1e9f, -1e9f, 1e-30f, 100.f};
        for (int i = 0; i < 3; i++)
            q.t[i] = Tri(H[c.s.draw(6)], H[c.s.draw(6)], H[c.s.draw(6)]);
    }
    std::vector<Key> h;
    int              n = c.s.range(5, 30);
    for (int i = 0; i < n; i++)
    {
        int f = (int)c.s.draw(NFN);
        Key k = genKey(c, f, 0);
        h.push_back(k);
    }
    noteHistory(c, h);
    Slots       z;
    Out         r;
    std::string o = captured([&]() {
        for (auto &k : h)
            invoke(k, q, z, true, r);
    });
    c.check(o.empty(), "output: %.200s", o.c_str());
}
#ifdef SURROUNDINGS
PROPERTY(surroundings, 100000, 1500000, 0,
    "each of 4..16 calls of any functions made twice, with another content of the stack and of new heap blocks, another locale, errno, "
    "environment, clock and rand(): bit-identical; non-trivial: all")
{
    Pool q;
    genPool(c, q);
    c.nontrivial();
    std::vector<Key> h;
    int              n = c.s.range(4, 16), maxCost = c.s.draw(4) ? 1 : 2;
    for (int i = 0; i < n; i++)
    {
        int f = (int)c.s.draw(NFN);
        while (TABLE[f].cost > maxCost)
            f = (f + 1) % NFN;
        h.push_back(genKey(c, f, 0));
    }
    noteHistory(c, h);
    u64   w = c.s.draw(1ull << 32);
    Slots z;
    Out   r[2];
    for (auto &k : h)
    {
        for (int i = 0; i < 2; i++)
        {
            u64 x = pbt::mix(w++);
            mallopt(M_PERTURB, !i ? 0xff : x & 1024 ? (int)(x & 254) : 1 << 8); // new blocks hold zeros, something, or all ones (NaN)
            setlocale(LC_ALL, x & 256 ? "C" : "C.UTF-8");
            dirtyStack(i ? (int)(x >> 16 & 255) : 0);
            errno       = (int)(x >> 24 & 63);
            surrounding = (unsigned)(x >> 32) | 8u;
            invoke(k, q, z, (x & 512) != 0, r[i]);
            surrounding = 0;
        }
        mallopt(M_PERTURB, 0);
        differ(c, k, r[0], r[1], "in other surroundings");
    }
}
#endif
