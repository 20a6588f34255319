// Small property-based testing engine.
//
// A property is a function of a choice source (Src): every random decision is one recorded integer
// choice, so a case is a pure function of its choice list.  Failing cases are shrunk by editing that
// list (deleting blocks, zeroing, lowering values) and replayed from it.  Cases run in forked worker
// processes, one chunk of cases per process, so crashes, sanitizer reports, assertion failures and
// endless loops of the code under test are attributed to the case that caused them, and every chunk
// is a pure function of (seed, sub-property, chunk range) even if the code under test keeps state.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace pbt
{
typedef uint64_t u64;

inline u64 mix(u64 x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline u64 hashStr(const char *s)
{
    u64 h = 1469598103934665603ull;
    for (; *s; s++)
        h = (h ^ (unsigned char)*s) * 1099511628211ull;
    return h;
}

struct Fail
{
    std::string msg;
};

// ------------------------------------------------------------------ choice source
class Src
{
  public:
    enum Mode
    {
        RANDOM,
        REPLAY,
        BYTES
    };
    Mode             mode;
    u64              st;
    std::vector<u64> rec;
    std::vector<u64> rep;
    const uint8_t   *bp = nullptr, *be = nullptr;
    u64             *log = nullptr; // copy of the choices in shared memory, kept even if the process dies
    volatile u64    *logN = nullptr;
    u64              logCap = 0;
    Src() : mode(RANDOM), st(0) { rec.reserve(64); }
    void seed(u64 s)
    {
        mode = RANDOM;
        st   = mix(s);
        rec.clear();
    }
    void replay(const std::vector<u64> &c)
    {
        mode = REPLAY;
        rep  = c;
        rec.clear();
    }
    void bytes(const uint8_t *p, size_t n)
    {
        mode = BYTES;
        bp   = p;
        be   = p + n;
        rec.clear();
    }
    // uniform in [0,n); 0 is the simplest value
    u64 draw(u64 n)
    {
        u64 v = 0;
        if (n > 1)
        {
            if (mode == RANDOM)
            {
                st += 0x9E3779B97F4A7C15ull;
                u64 x = st;
                x     = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
                x     = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
                x ^= x >> 31;
                v = (n & (n - 1)) == 0 ? (x & (n - 1)) : (u64)(((unsigned __int128)x * n) >> 64);
            }
            else if (mode == REPLAY)
            {
                v = rec.size() < rep.size() ? rep[rec.size()] : 0;
                if (v >= n)
                    v = n - 1;
            }
            else
            {
                u64 m = n - 1, x = 0;
                while (m)
                {
                    x = (x << 8) | (bp < be ? *bp++ : 0);
                    m >>= 8;
                }
                v = x % n;
            }
        }
        rec.push_back(v);
        if (__builtin_expect(log != nullptr, 0) && *logN < logCap)
        {
            log[*logN] = v;
            *logN      = *logN + 1;
        }
        return v;
    }
    // full 64-bit word
    u64 word()
    {
        u64 hi = draw(1ull << 32);
        u64 lo = draw(1ull << 32);
        return hi << 32 | lo;
    }
    bool   chance(unsigned num, unsigned den) { return draw(den) >= den - num; } // 0 = false
    bool   coin() { return draw(2) != 0; }
    int    range(int lo, int hi) { return lo + (int)draw((u64)(hi - lo) + 1); }
    double unit() { return (double)draw(1u << 24) / (double)(1u << 24); }               // [0,1)
    double unitIncl() { return (double)draw((1u << 24) + 1) / (double)(1u << 24); }     // [0,1]
    double uniform(double lo, double hi) { return lo + (hi - lo) * unitIncl(); }
    double logu(double lo, double hi) { return std::exp(uniform(std::log(lo), std::log(hi))); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
    template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[draw(N)]; }
    float bits32()
    {
        uint32_t u = (uint32_t)draw(1ull << 32);
        float    f;
        memcpy(&f, &u, 4);
        return f;
    }
    // move x by up to k ulps either way
    float ulps(float x, int k)
    {
        int n = range(-k, k);
        for (; n > 0; n--)
            x = std::nextafterf(x, INFINITY);
        for (; n < 0; n++)
            x = std::nextafterf(x, -INFINITY);
        return x;
    }
};

// ------------------------------------------------------------------ shared statistics
const int MAXLAB = 48, MAXMET = 64, MAXSUB = 24;
struct Named
{
    char        name[56];
    std::atomic<u64> n;
    std::atomic<u64> bits; // double bits of a maximum (non-negative)
};
struct SubStats
{
    std::atomic<u64> evals, nontriv, distinct, failed;
    Named            lab[MAXLAB];
    Named            met[MAXMET];
    std::atomic<u64> nlab, nmet;
    std::atomic<int> lock;
    char             metWorst[MAXMET][8];
};
struct Slot
{
    volatile u64 idx;      // case being run
    volatile u64 active;   // 1 while in a case
    volatile u64 failIdx;  // case that failed
    volatile int failed;
    char         msg[4000];
};
struct Shared
{
    SubStats sub[MAXSUB];
    Slot     slot[64];
    std::atomic<int> stop; // time budget used up
};
const u64 BITMAP_BITS = 1ull << 28;

struct Sub;
struct Ctx
{
    Src         s;
    u64         index   = 0;
    bool        verbose = false;
    bool        nt      = false;
    u64         extra   = 0; // additional evaluations inside this case
    SubStats   *st      = nullptr;
    std::string notes;
    // local caches of statistics, flushed per chunk
    std::map<const char *, u64>    labs;
    std::map<const char *, double> mets;

    void nontrivial() { nt = true; }
    void label(const char *l) { labs[l]++; }
    void notef(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        if (!verbose)
            return;
        char    b[2048];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        if (notes.size() < 6000)
        {
            notes += b;
            notes += "; ";
        }
    }
    void note(const char *n, double v)
    {
        if (verbose)
            notef("%s=%.9g", n, v);
    }
    template <class T3> void note3(const char *n, const T3 &t)
    {
        if (verbose)
            notef("%s=(%.9g,%.9g,%.9g)", n, (double)t[0], (double)t[1], (double)t[2]);
    }
    template <class M> void note9(const char *n, const M &m)
    {
        if (verbose)
            notef("%s=[%.9g %.9g %.9g / %.9g %.9g %.9g / %.9g %.9g %.9g]", n, (double)m[0], (double)m[1], (double)m[2],
                (double)m[3], (double)m[4], (double)m[5], (double)m[6], (double)m[7], (double)m[8]);
    }
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        char    b[2048];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        throw Fail{b};
    }
    void check(bool ok, const char *what)
    {
        if (!ok)
            throw Fail{what};
    }
    template <class... A> void check(bool ok, const char *fmt, A... a)
    {
        if (!ok)
        {
            char b[2048];
            snprintf(b, sizeof b, fmt, a...);
            throw Fail{b};
        }
    }
    // |got - want| <= tol; records the worst ratio per metric
    void near(const char *metric, double got, double want, double tol)
    {
        double d = std::fabs(got - want);
        if (!(d <= tol))
            fail("%s: got %.9g, want %.9g, tolerance %.3g (off by %.3g)", metric, got, want, tol, got - want);
        double r = tol > 0 ? d / tol : 0;
        auto   it = mets.find(metric);
        if (it == mets.end())
            mets[metric] = r;
        else if (r > it->second)
            it->second = r;
    }
    void ratio(const char *metric, double r, const char *msg = "")
    {
        if (!(r <= 1.0))
            fail("%s: error/tolerance ratio %.6g > 1 %s", metric, r, msg);
        auto it = mets.find(metric);
        if (it == mets.end())
            mets[metric] = r;
        else if (r > it->second)
            it->second = r;
    }
};

typedef void (*PropFn)(Ctx &);
struct Sub
{
    const char *name;
    const char *rule; // how cases are made and what makes one non-trivial
    PropFn      fn;
    u64         quick, thorough; // case counts (RANDOM)
    u64         sweep;           // >0: first choice enumerates 0..sweep-1
    u64         qStride, tStride;
    double      san;             // fraction of the cases for the sanitizer build (0: skip)
};
inline std::vector<Sub> &subs()
{
    static std::vector<Sub> v;
    return v;
}
struct Reg
{
    Reg(const Sub &s) { subs().push_back(s); }
};
// random sub-property
#define PROPERTY(ID, QUICK, THOROUGH, SAN, RULE)                                                                       \
    static void     prop_##ID(pbt::Ctx &c);                                                                            \
    static pbt::Reg reg_##ID(pbt::Sub{#ID, RULE, prop_##ID, (pbt::u64)(QUICK), (pbt::u64)(THOROUGH), 0, 1, 1, SAN});   \
    static void     prop_##ID(pbt::Ctx &c)
// enumerated sub-property: first draw(TOTAL) is the index
#define SWEEP(ID, TOTAL, QSTRIDE, TSTRIDE, SAN, RULE)                                                                  \
    static void     prop_##ID(pbt::Ctx &c);                                                                            \
    static pbt::Reg reg_##ID(                                                                                          \
        pbt::Sub{#ID, RULE, prop_##ID, 0, 0, (pbt::u64)(TOTAL), (pbt::u64)(QSTRIDE), (pbt::u64)(TSTRIDE), SAN});       \
    static void prop_##ID(pbt::Ctx &c)

// ------------------------------------------------------------------ runner
struct Runner
{
    u64         seed = 1;
    bool        thorough = false, san = false, alt = false;
    double      scale = 1.0;
    double      budget = 0; // seconds for the generated cases, 0: no limit
    int         jobs  = 8;
    std::string out, replayDir, property, build, only;
    Shared     *sh  = nullptr;
    std::atomic<uint8_t> *bitmap = nullptr;
    int         stdoutFd = 1;

    static double now()
    {
        return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }
    void *shm(size_t n)
    {
        void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED)
        {
            perror("mmap");
            exit(3);
        }
        return p;
    }
    static void addNamed(SubStats &s, Named *arr, std::atomic<u64> &cnt, int maxn, const char *name, u64 n, double mx)
    {
        while (s.lock.exchange(1))
            usleep(50);
        int k = -1, c = (int)cnt.load();
        for (int i = 0; i < c; i++)
            if (!strncmp(arr[i].name, name, sizeof(arr[i].name) - 1))
                k = i;
        if (k < 0 && c < maxn)
        {
            k = c;
            strncpy(arr[k].name, name, sizeof(arr[k].name) - 1);
            cnt++;
        }
        if (k >= 0)
        {
            arr[k].n += n;
            double cur;
            u64    b = arr[k].bits.load();
            memcpy(&cur, &b, 8);
            if (mx > cur)
            {
                memcpy(&b, &mx, 8);
                arr[k].bits = b;
            }
        }
        s.lock = 0;
    }
    static void startCase(Ctx &c, const Sub &sub, u64 seed, u64 idx, u64 stride)
    {
        c.index = idx;
        if (sub.sweep)
        {
            u64 i = idx * stride + (stride > 1 ? seed % stride : 0);
            if (i >= sub.sweep)
                i = sub.sweep - 1;
            c.s.replay({i});
        }
        else
            c.s.seed(mix(seed * 0x1000193u + hashStr(sub.name)) ^ mix(idx + 0x51ED27));
        c.nt    = false;
        c.extra = 0;
        c.notes.clear();
    }
    // share of the cases run by this build
    double fraction(const Sub &sub) const { return san ? sub.san : alt ? 0.08 : 1; }
    u64 strideOf(const Sub &sub) const
    {
        u64 st = thorough ? sub.tStride : sub.qStride;
        if (fraction(sub) > 0)
            st = (u64)std::max(1.0, std::floor(st / fraction(sub)));
        if (scale < 1 && sub.sweep > 1000000)
            st = (u64)std::ceil(st / scale);
        return st;
    }
    u64 countOf(const Sub &sub) const
    {
        if (fraction(sub) <= 0)
            return 0;
        if (sub.sweep)
            return (sub.sweep + strideOf(sub) - 1) / strideOf(sub);
        double n = (double)(thorough ? sub.thorough : sub.quick) * scale;
        n *= fraction(sub);
        return (u64)std::max(1.0, n);
    }
    // runs in a child
    void chunk(int subIdx, u64 from, u64 to, int slot)
    {
        const Sub &sub = subs()[subIdx];
        SubStats  &st  = sh->sub[subIdx];
        Slot      &sl  = sh->slot[slot];
        Ctx        c;
        c.st       = &st;
        u64 stride = strideOf(sub);
        u64 ev = 0, nt = 0, di = 0;
        for (u64 i = from; i < to; i++)
        {
            if ((i & 63) == 0 && (st.failed.load(std::memory_order_relaxed) || sh->stop.load(std::memory_order_relaxed)))
                break;
            startCase(c, sub, seed, i, stride);
            sl.idx    = i;
            sl.active = 1;
            try
            {
                sub.fn(c);
            }
            catch (const Fail &f)
            {
                sl.failIdx = i;
                snprintf(sl.msg, sizeof sl.msg, "%s", f.msg.c_str());
                sl.failed = 1;
                st.failed = 1;
                break;
            }
            ev += 1 + c.extra;
            if (c.nt)
            {
                nt += 1 + c.extra;
                if (sub.sweep)
                    di += 1 + c.extra;
                else
                {
                    u64 h = 0;
                    for (u64 v : c.s.rec)
                        h = mix(h ^ v);
                    h = mix(h ^ hashStr(sub.name));
                    h &= BITMAP_BITS - 1;
                    uint8_t m   = (uint8_t)(1u << (h & 7));
                    uint8_t old = bitmap[h >> 3].fetch_or(m, std::memory_order_relaxed);
                    if (!(old & m))
                        di += 1 + c.extra;
                }
            }
        }
        sl.active = 0;
        st.evals += ev;
        st.nontriv += nt;
        st.distinct += di;
        for (auto &l : c.labs)
            addNamed(st, st.lab, st.nlab, MAXLAB, l.first, l.second, 0);
        for (auto &m : c.mets)
            addNamed(st, st.met, st.nmet, MAXMET, m.first, 0, m.second);
    }
    static void childSetup(int cpuSeconds, const std::string &errFile)
    {
        struct rlimit r = {(rlim_t)cpuSeconds, (rlim_t)cpuSeconds + 5};
        setrlimit(RLIMIT_CPU, &r);
        struct rlimit z = {0, 0};
        setrlimit(RLIMIT_CORE, &z);
        int e = open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        if (e >= 0)
            dup2(e, 2);
        close(n);
        if (e >= 0)
            close(e);
        signal(SIGXCPU, SIG_DFL);
    }
    std::string tmpErr(int k) const { return tmpdir + "/err." + std::to_string(k); }
    std::string tmpdir;

    static std::string slurp(const std::string &f, size_t max = 1500)
    {
        std::ifstream     i(f);
        std::stringstream s;
        s << i.rdbuf();
        std::string t = s.str();
        // keep the informative part
        size_t p = t.find("ERROR: AddressSanitizer");
        if (p == std::string::npos)
            p = t.find("runtime error");
        if (p == std::string::npos)
            p = t.find("WARNING: ThreadSanitizer");
        if (p != std::string::npos)
            t = t.substr(p > 120 ? p - 120 : 0);
        if (t.size() > max)
            t.resize(max);
        return t;
    }

    struct Failure
    {
        int              sub = -1;
        u64              idx = 0;
        std::vector<u64> choices;
        bool             chunkMode = false;
        u64              from = 0, to = 0;
        std::string      msg, notes, kind;
    };

    // outcome of one isolated run
    struct Outcome
    {
        enum K
        {
            OK,
            FAIL,
            CRASH,
            HANG
        } k;
        std::string      msg, notes;
        std::vector<u64> rec;
        bool             bad() const { return k != OK; }
    };
    struct IsoShm
    {
        volatile int  done, failed;
        volatile u64  nrec;
        char          msg[4000];
        char          notes[8000];
        u64           rec[1 << 16];
    };
    IsoShm *iso = nullptr;

    // waits for a child, at most so many seconds of wall-clock time
    static int waitLimited(pid_t p, double seconds)
    {
        double end = now() + seconds;
        int    st  = 0;
        for (useconds_t d = 50; waitpid(p, &st, WNOHANG) == 0; d = std::min<useconds_t>(d * 2, 5000))
        {
            if (now() > end)
            {
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                break;
            }
            usleep(d);
        }
        return st;
    }

    Outcome isolated(int subIdx, const std::vector<u64> &choices, bool verbose, int cpu = 20)
    {
        if (!iso)
            iso = (IsoShm *)shm(sizeof(IsoShm));
        iso->done = iso->failed = 0;
        iso->nrec = 0;
        iso->msg[0] = iso->notes[0] = 0;
        pid_t p = fork();
        if (p == 0)
        {
            childSetup(cpu, tmpErr(99));
            Ctx c;
            c.verbose = verbose;
            c.s.replay(choices);
            try
            {
                subs()[subIdx].fn(c);
            }
            catch (const Fail &f)
            {
                snprintf(iso->msg, sizeof iso->msg, "%s", f.msg.c_str());
                iso->failed = 1;
            }
            snprintf(iso->notes, sizeof iso->notes, "%s", c.notes.c_str());
            u64 n = std::min<u64>(c.s.rec.size(), 1 << 16);
            for (u64 i = 0; i < n; i++)
                iso->rec[i] = c.s.rec[i];
            iso->nrec = n;
            iso->done = 1;
            _exit(0);
        }
        int     status = waitLimited(p, cpu * 3.0 + 10);
        Outcome o;
        o.k = Outcome::OK;
        if (!iso->done)
        {
            bool hang = WIFSIGNALED(status) && (WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGKILL);
            o.k       = hang ? Outcome::HANG : Outcome::CRASH;
            char b[128];
            if (hang)
                snprintf(b, sizeof b, "does not terminate (more than %d s of CPU time)", cpu);
            else if (WIFSIGNALED(status))
                snprintf(b, sizeof b, "crash (signal %d)", WTERMSIG(status));
            else
                snprintf(b, sizeof b, "abnormal exit (status %d)", WEXITSTATUS(status));
            o.msg = std::string(b) + ": " + slurp(tmpErr(99));
            o.rec = choices;
            return o;
        }
        o.msg   = iso->msg;
        o.notes = iso->notes;
        o.rec.assign(iso->rec, iso->rec + iso->nrec);
        if (iso->failed)
            o.k = Outcome::FAIL;
        return o;
    }
    static bool simpler(const std::vector<u64> &a, const std::vector<u64> &b)
    {
        if (a.size() != b.size())
            return a.size() < b.size();
        return a < b;
    }
    std::vector<u64> shrink(int subIdx, std::vector<u64> best, Outcome::K kind, int &steps)
    {
        double deadline = now() + 25;
        int    budget   = kind == Outcome::HANG ? 4 : 3000;
        steps           = 0;
        auto attempt    = [&](std::vector<u64> cand) -> bool {
            if (budget-- <= 0 || now() > deadline)
                return false;
            Outcome o = isolated(subIdx, cand, false, 10);
            if (o.k != kind)
                return false;
            std::vector<u64> r = o.k == Outcome::FAIL ? o.rec : cand;
            if (!simpler(r, best))
                return false;
            best = r;
            steps++;
            return true;
        };
        bool progress = true;
        while (progress && budget > 0 && now() < deadline)
        {
            progress = false;
            for (size_t len : {(size_t)64, (size_t)16, (size_t)4, (size_t)2, (size_t)1})
                for (size_t i = 0; i + len <= best.size() && budget > 0;)
                {
                    std::vector<u64> c2(best);
                    c2.erase(c2.begin() + i, c2.begin() + i + len);
                    if (attempt(c2))
                        progress = true;
                    else
                        i += len;
                }
            for (size_t len : {(size_t)32, (size_t)8, (size_t)1})
                for (size_t i = 0; i < best.size() && budget > 0; i += len)
                {
                    std::vector<u64> c2(best);
                    bool             nz = false;
                    for (size_t j = i; j < std::min(best.size(), i + len); j++)
                    {
                        nz |= c2[j] != 0;
                        c2[j] = 0;
                    }
                    if (nz && attempt(c2))
                        progress = true;
                }
            for (size_t i = 0; i < best.size() && budget > 0; i++)
            {
                // binary search downwards
                u64 lo = 0;
                while (i < best.size() && best[i] > lo && budget > 0)
                {
                    u64              mid = lo + (best[i] - lo) / 2;
                    std::vector<u64> c2(best);
                    c2[i]    = mid;
                    size_t n = best.size();
                    if (attempt(c2))
                    {
                        progress = true;
                        if (best.size() != n)
                            break;
                    }
                    else
                        lo = mid + 1;
                }
                // make it a round number
                for (u64 m : {(u64)1 << 20, (u64)1 << 12, (u64)1 << 4})
                    if (i < best.size() && best[i] >= m && best[i] % m)
                    {
                        std::vector<u64> c2(best);
                        c2[i] -= c2[i] % m;
                        if (attempt(c2))
                            progress = true;
                    }
            }
        }
        return best;
    }
    // run [from,to) of a sub in one fresh process, return failing index or -1
    bool chunkFails(int subIdx, u64 from, u64 to, u64 &idx, std::string &msg)
    {
        Slot &sl  = sh->slot[63];
        sl.failed = 0;
        sl.active = 0;
        sh->sub[subIdx].failed = 0;
        pid_t p = fork();
        if (p == 0)
        {
            childSetup(300, tmpErr(98));
            chunk(subIdx, from, to, 63);
            _exit(0);
        }
        int st = waitLimited(p, 310);
        if (sl.failed)
        {
            idx = sl.failIdx;
            msg = sl.msg;
            return true;
        }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
        {
            idx = sl.idx;
            msg = "crash: " + slurp(tmpErr(98));
            return true;
        }
        return false;
    }

    static std::string jstr(const std::string &s)
    {
        std::string o = "\"";
        for (unsigned char ch : s)
        {
            if (ch == '"' || ch == '\\')
            {
                o += '\\';
                o += (char)ch;
            }
            else if (ch < 32 || ch > 126)
            {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", ch);
                o += b;
            }
            else
                o += (char)ch;
        }
        return o + "\"";
    }
    std::string writeReplay(const Failure &f)
    {
        mkdir(replayDir.c_str(), 0777);
        u64 h = hashStr(subs()[f.sub].name);
        for (u64 v : f.choices)
            h = mix(h ^ v);
        h ^= f.from * 31 + f.to;
        char b[256];
        snprintf(b, sizeof b, "%s/%s-%s-%08x.replay", replayDir.c_str(), property.c_str(), subs()[f.sub].name,
            (unsigned)(h & 0xffffffff));
        std::ofstream o(b);
        o << "property " << property << "\nsub " << subs()[f.sub].name << "\nbuild " << build << "\n";
        if (f.chunkMode)
            o << "chunk " << seed << " " << (thorough ? "thorough" : "quick") << " " << f.from << " " << f.to << "\n";
        else
        {
            o << "choices";
            for (u64 v : f.choices)
                o << " " << v;
            o << "\n";
        }
        o << "# " << f.kind << ": ";
        for (char ch : f.msg)
            o << (ch == '\n' ? '|' : ch);
        o << "\n# case: ";
        for (char ch : f.notes)
            o << (ch == '\n' ? '|' : ch);
        o << "\n";
        return b;
    }

    // confirm and minimise; returns false when nothing reproduces
    bool confirm(Failure &f, int &shrinks)
    {
        Ctx c;
        startCase(c, subs()[f.sub], seed, f.idx, strideOf(subs()[f.sub]));
        // recover the choice list of the case by running it (in isolation, it may crash)
        std::vector<u64> choices;
        Outcome          o;
        if (subs()[f.sub].sweep)
        {
            choices = c.s.rep;
            o       = isolated(f.sub, choices, false);
        }
        else
        {
            // random case: run with the RNG in a child, recording
            if (!iso)
                iso = (IsoShm *)shm(sizeof(IsoShm));
            // record choices incrementally so that a crash still leaves them
            choices = recordRandom(f.sub, f.idx);
            o       = isolated(f.sub, choices, false);
        }
        if (o.bad())
        {
            std::vector<u64> best = o.k == Outcome::FAIL ? o.rec : choices;
            best                  = shrink(f.sub, best, o.k, shrinks);
            int again             = 0;
            Outcome last;
            for (int i = 0; i < 3; i++)
            {
                last = isolated(f.sub, best, true);
                again += last.k == o.k;
            }
            if (again < 3)
            {
                best  = choices;
                again = 0;
                for (int i = 0; i < 20; i++)
                {
                    Outcome o2 = isolated(f.sub, best, true);
                    if (o2.bad() || i == 0)
                        last = o2;
                    again += o2.bad();
                }
            }
            if (again >= 1)
            {
                f.choices = best;
                f.msg     = last.msg;
                f.notes   = last.notes;
                f.kind    = last.k == Outcome::FAIL ? "oracle" : last.k == Outcome::CRASH ? "crash" : "hang";
                return true;
            }
        }
        if (f.msg.find("ThreadSanitizer: data race") != std::string::npos && !choices.empty())
        {
            // a race the detector has seen is a race, whether or not the schedule can be repeated
            f.choices = choices;
            f.kind    = "data race";
            return true;
        }
        // does not fail alone: state carried over from earlier cases of the chunk
        u64         idx;
        std::string msg;
        int         again = 0;
        u64         to    = f.idx + 1;
        for (int i = 0; i < 3; i++)
            again += chunkFails(f.sub, f.from, to, idx, msg);
        if (again == 3)
        {
            // drop leading cases
            u64 lo = f.from, hi = f.idx;
            for (int k = 0; k < 24 && lo < hi; k++)
            {
                u64 mid = lo + (hi - lo + 1) / 2;
                if (chunkFails(f.sub, mid, to, idx, msg))
                    lo = mid;
                else
                    hi = mid - 1;
            }
            if (chunkFails(f.sub, lo, to, idx, msg))
                f.from = lo;
            chunkFails(f.sub, f.from, to, idx, msg);
            f.to        = to;
            f.chunkMode = true;
            f.msg       = msg;
            f.kind      = "history of cases (fails only after earlier calls)";
            return true;
        }
        return false;
    }
    std::vector<u64> recordRandom(int subIdx, u64 idx)
    {
        // generate in a child with the RNG; the draw log lives in shared memory and survives a crash
        iso->done = 0;
        iso->nrec = 0;
        pid_t p   = fork();
        if (p == 0)
        {
            childSetup(20, tmpErr(97));
            Ctx c;
            startCase(c, subs()[subIdx], seed, idx, strideOf(subs()[subIdx]));
            c.s.log    = iso->rec;
            c.s.logN   = &iso->nrec;
            c.s.logCap = 1 << 16;
            try
            {
                subs()[subIdx].fn(c);
            }
            catch (const Fail &)
            {
            }
            _exit(0);
        }
        waitLimited(p, 60);
        return std::vector<u64>(iso->rec, iso->rec + iso->nrec);
    }
    struct Job
    {
        int sub;
        u64 from, to;
    };

    int run()
    {
        double t0 = now();
        sh        = (Shared *)shm(sizeof(Shared));
        bitmap    = (std::atomic<uint8_t> *)shm(BITMAP_BITS / 8);
        char td[] = "/tmp/pbt.XXXXXX";
        tmpdir    = mkdtemp(td);
        std::vector<Job> jobsV;
        for (int i = 0; i < (int)subs().size(); i++)
        {
            if (!only.empty() && only != subs()[i].name)
                continue;
            u64 n  = countOf(subs()[i]);
            u64 ch = std::max<u64>(64, n / 64 + 1);
            ch     = std::min<u64>(ch, 400000);
            ch     = std::min<u64>(ch, std::max<u64>(1, n / jobs + 1));
            for (u64 a = 0; a < n; a += ch)
                jobsV.push_back({i, a, std::min(n, a + ch)});
        }
        // all sub-properties advance together, so that a time budget cuts each of them alike
        std::stable_sort(jobsV.begin(), jobsV.end(), [&](const Job &a, const Job &b) {
            return (double)a.from / (double)countOf(subs()[a.sub]) < (double)b.from / (double)countOf(subs()[b.sub]);
        });
        bool cut = false;
        std::map<pid_t, std::pair<int, size_t>> running; // pid -> slot, job
        std::vector<int>                        freeSlots;
        for (int i = jobs - 1; i >= 0; i--)
            freeSlots.push_back(i);
        std::vector<Failure> fails;
        size_t               next = 0;
        std::vector<double>  subTime(subs().size(), 0);
        std::map<pid_t, double> started;
        std::map<pid_t, std::pair<u64, double>> progress;
        while (next < jobsV.size() || !running.empty())
        {
            while (next < jobsV.size() && !freeSlots.empty())
            {
                Job &j = jobsV[next];
                if (sh->sub[j.sub].failed.load())
                {
                    next++;
                    continue;
                }
                int slot = freeSlots.back();
                freeSlots.pop_back();
                memset((void *)&sh->slot[slot], 0, sizeof(Slot));
                fflush(stdout);
                fflush(stderr);
                pid_t p = fork();
                if (p < 0)
                {
                    perror("fork");
                    return 3;
                }
                if (p == 0)
                {
                    childSetup(3600, tmpErr(slot));
                    chunk(j.sub, j.from, j.to, slot);
                    _exit(0);
                }
                running[p] = {slot, next};
                started[p] = now();
                next++;
            }
            if (running.empty())
                continue;
            int   st;
            pid_t p = waitpid(-1, &st, WNOHANG);
            if (p == 0)
            {
                usleep(2000);
                double t = now();
                if (budget > 0 && t - t0 > budget && !cut)
                {
                    cut      = true;
                    sh->stop = 1;
                    next     = jobsV.size();
                }
                for (auto &rn : running)
                {
                    auto &pr = progress[rn.first];
                    u64   id = sh->slot[rn.second.first].idx;
                    if (pr.second == 0 || pr.first != id)
                        pr = {id, t};
                    else if (t - pr.second > 40) // no progress on one case: stop it, confirmed by CPU time below
                        kill(rn.first, SIGXCPU);
                }
                continue;
            }
            auto it = running.find(p);
            if (it == running.end())
                continue;
            int  slot = it->second.first;
            Job &j    = jobsV[it->second.second];
            subTime[j.sub] += now() - started[p];
            Slot &sl = sh->slot[slot];
            if (sl.failed)
            {
                Failure f;
                f.sub  = j.sub;
                f.idx  = sl.failIdx;
                f.from = j.from;
                f.msg  = sl.msg;
                f.kind = "oracle";
                fails.push_back(f);
            }
            else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
            {
                Failure f;
                f.sub  = j.sub;
                f.idx  = sl.idx;
                f.from = j.from;
                f.msg  = "process died: " + slurp(tmpErr(slot));
                fails.push_back(f);
                sh->sub[j.sub].failed = 1;
            }
            freeSlots.push_back(slot);
            running.erase(it);
        }
        sh->stop = 0;
        // one (the smallest index) failure per sub-property
        std::map<int, Failure> first;
        for (auto &f : fails)
            if (!first.count(f.sub) || f.idx < first[f.sub].idx)
                first[f.sub] = f;
        std::vector<std::pair<Failure, std::string>> confirmed;
        std::vector<Failure>                         unconfirmed;
        int                                          shrinks = 0;
        u64 snapEv[MAXSUB], snapNt[MAXSUB], snapDi[MAXSUB];
        for (int i = 0; i < MAXSUB; i++)
        {
            snapEv[i] = sh->sub[i].evals;
            snapNt[i] = sh->sub[i].nontriv;
            snapDi[i] = sh->sub[i].distinct;
        }
        for (auto &kv : first)
        {
            Failure f = kv.second;
            bool    ok = confirm(f, shrinks);
            if (!ok)
            {
                // another failure of the same sub may reproduce
                for (auto &g : fails)
                    if (!ok && g.sub == f.sub && g.idx != f.idx)
                    {
                        f  = g;
                        ok = confirm(f, shrinks);
                    }
            }
            if (ok)
                confirmed.push_back({f, writeReplay(f)});
            else if (kv.second.kind == "oracle")
            {
                // seen, but not again: the outcome is not a function of the case (uninitialised data, races)
                f           = kv.second;
                f.chunkMode = true;
                f.to        = f.idx + 1;
                f.kind      = "oracle failure that does not recur every time";
                confirmed.push_back({f, writeReplay(f)});
            }
            else
                unconfirmed.push_back(kv.second);
        }
        // samples: a few cases per sub, re-run verbosely
        std::ofstream o(out);
        o << "{\"subs\":[";
        bool firstSub = true;
        for (int i = 0; i < (int)subs().size(); i++)
        {
            if (!only.empty() && only != subs()[i].name)
                continue;
            u64 n = countOf(subs()[i]);
            if (!n)
                continue;
            SubStats &st = sh->sub[i];
            o << (firstSub ? "" : ",") << "\n{\"name\":" << jstr(subs()[i].name) << ",\"rule\":" << jstr(subs()[i].rule)
              << ",\"planned\":" << n << ",\"evaluations\":" << snapEv[i] << ",\"nontrivial\":" << snapNt[i]
              << ",\"distinct\":" << snapDi[i] << ",\"cpu_s\":" << subTime[i] << ",\"exhaustive\":"
              << ((subs()[i].sweep && strideOf(subs()[i]) == 1 && !st.failed.load() && !cut) ? "true" : "false");
            firstSub = false;
            o << ",\"labels\":{";
            for (u64 k = 0; k < st.nlab; k++)
                o << (k ? "," : "") << jstr(st.lab[k].name) << ":" << st.lab[k].n.load();
            o << "},\"worst_error_over_tolerance\":{";
            for (u64 k = 0; k < st.nmet; k++)
            {
                double d;
                u64    b = st.met[k].bits;
                memcpy(&d, &b, 8);
                o << (k ? "," : "") << jstr(st.met[k].name) << ":" << d;
            }
            o << "},\"samples\":[";
            int shown = 0;
            for (int k = 0; k < 12 && shown < 3 && !st.failed.load(); k++)
            {
                u64 idx = n <= 12 ? (u64)k % n : (n * (u64)(2 * k + 1)) / 24;
                if (idx >= n)
                    break;
                Ctx c;
                startCase(c, subs()[i], seed, idx, strideOf(subs()[i]));
                c.verbose = true;
                std::vector<u64> ch;
                if (subs()[i].sweep)
                    ch = c.s.rep;
                else
                {
                    if (!iso)
                        iso = (IsoShm *)shm(sizeof(IsoShm));
                    ch = recordRandom(i, idx);
                }
                Outcome oc = isolated(i, ch, true);
                if (oc.bad() || oc.notes.empty())
                    continue;
                if (oc.notes.size() > 700)
                    oc.notes = oc.notes.substr(0, 700) + "...";
                o << (shown ? "," : "") << jstr(std::string(subs()[i].name) + ": " + oc.notes);
                shown++;
            }
            o << "]}";
        }
        o << "],\n\"violations\":[";
        for (size_t k = 0; k < confirmed.size(); k++)
        {
            auto &f = confirmed[k].first;
            o << (k ? "," : "") << "{\"sub\":" << jstr(subs()[f.sub].name) << ",\"kind\":" << jstr(f.kind)
              << ",\"message\":" << jstr(f.msg) << ",\"case\":" << jstr(f.notes) << ",\"replay\":"
              << jstr(confirmed[k].second) << "}";
        }
        o << "],\"unconfirmed\":[";
        for (size_t k = 0; k < unconfirmed.size(); k++)
            o << (k ? "," : "") << jstr(std::string(subs()[unconfirmed[k].sub].name) + ": " + unconfirmed[k].msg);
        o << "],\"shrink_steps\":" << shrinks << ",\"cut\":" << (cut ? "true" : "false") << ",\"wall_s\":" << (now() - t0) << "}\n";
        o.close();
        std::string rm;
        for (int k = 0; k < 100; k++)
            unlink(tmpErr(k).c_str());
        rmdir(tmpdir.c_str());
        return confirmed.empty() ? 0 : 1;
    }
    int replayFile(const std::string &file)
    {
        std::ifstream i(file);
        std::string   line, subName;
        std::vector<u64> ch;
        bool          haveChunk = false;
        u64           cseed = 0, from = 0, to = 0;
        std::string   tier;
        while (std::getline(i, line))
        {
            std::istringstream ls(line);
            std::string        k;
            ls >> k;
            if (k == "sub")
                ls >> subName;
            else if (k == "choices")
            {
                u64 v;
                while (ls >> v)
                    ch.push_back(v);
            }
            else if (k == "chunk")
            {
                haveChunk = true;
                ls >> cseed >> tier >> from >> to;
            }
        }
        char td[] = "/tmp/pbt.XXXXXX";
        tmpdir    = mkdtemp(td);
        sh        = (Shared *)shm(sizeof(Shared));
        bitmap    = (std::atomic<uint8_t> *)shm(BITMAP_BITS / 8);
        int bad   = 0, rc = 2;
        for (int k = 0; k < (int)subs().size(); k++)
            if (subName == subs()[k].name)
            {
                if (haveChunk)
                {
                    seed     = cseed;
                    thorough = tier == "thorough";
                    u64         idx = 0;
                    std::string msg;
                    for (int r = 0; r < 3; r++)
                        bad += chunkFails(k, from, to, idx, msg);
                    printf("%s %s cases %llu..%llu: %s %s\n", property.c_str(), subName.c_str(),
                        (unsigned long long)from, (unsigned long long)to, bad == 3 ? "FAILS" : "passes", msg.c_str());
                }
                else
                {
                    Outcome o;
                    for (int r = 0; r < 3; r++)
                    {
                        o = isolated(k, ch, true);
                        bad += o.bad();
                    }
                    printf("%s %s: %s %s\n  case: %s\n", property.c_str(), subName.c_str(),
                        bad == 3 ? "FAILS" : "passes", o.msg.c_str(), o.notes.c_str());
                }
                rc = bad == 3 ? 1 : 0;
            }
        for (int k = 0; k < 100; k++)
            unlink(tmpErr(k).c_str());
        rmdir(tmpdir.c_str());
        return rc;
    }
};

inline int mainImpl(int argc, char **argv)
{
    Runner      r;
    std::string rep;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto        v = [&]() { return std::string(argv[++i]); };
        if (a == "--seed")
            r.seed = strtoull(v().c_str(), 0, 10);
        else if (a == "--tier")
            r.thorough = v() == "thorough";
        else if (a == "--scale")
            r.scale = atof(v().c_str());
        else if (a == "--budget")
            r.budget = atof(v().c_str());
        else if (a == "--jobs")
            r.jobs = atoi(v().c_str());
        else if (a == "--out")
            r.out = v();
        else if (a == "--replays")
            r.replayDir = v();
        else if (a == "--property")
            r.property = v();
        else if (a == "--build")
        {
            r.build = v();
            r.san   = r.build == "asan";
            r.alt   = r.build == "alt";
        }
        else if (a == "--sub")
            r.only = v();
        else if (a == "--replay")
            rep = v();
    }
    if (!rep.empty())
        return r.replayFile(rep);
    return r.run();
}
} // namespace pbt

#ifdef PBT_FUZZ
// coverage-guided mode: the first byte selects the sub-property, the rest is its choice stream
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    if (size < 1)
        return 0;
    static std::vector<int> idx;
    if (idx.empty())
        for (int i = 0; i < (int)pbt::subs().size(); i++)
            if (!pbt::subs()[i].sweep)
                idx.push_back(i);
    if (idx.empty())
        return 0;
    int      k = idx[data[0] % idx.size()];
    pbt::Ctx c;
    c.s.bytes(data + 1, size - 1);
    try
    {
        pbt::subs()[k].fn(c);
    }
    catch (const pbt::Fail &f)
    {
        fprintf(stderr, "PBT_FAIL sub=%s msg=%s\nPBT_CHOICES", pbt::subs()[k].name, f.msg.c_str());
        for (auto v : c.s.rec)
            fprintf(stderr, " %llu", (unsigned long long)v);
        fprintf(stderr, "\n");
        fflush(stderr);
        __builtin_trap();
    }
    return 0;
}
#else
int main(int argc, char **argv) { return pbt::mainImpl(argc, argv); }
#endif
