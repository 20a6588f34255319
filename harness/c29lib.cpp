// The library as built under one configuration, loaded by c29.cpp.
#include "apitab.hpp"

#ifdef SECOND_UNIT
// another unit of the same program that includes the header
__attribute__((visibility("hidden"))) void otherUnit(int fn, const Args &x, Out &r) { TABLE[fn].fn(x, r); }
#else
__attribute__((visibility("hidden"))) void otherUnit(int fn, const Args &x, Out &r);
extern "C" __attribute__((visibility("default"))) int cs29_functions() { return NFN; }
extern "C" __attribute__((visibility("default"))) const char *cs29_name(int i) { return TABLE[i].name; }
// makes one call on its own copy of the arguments
extern "C" __attribute__((visibility("default"))) int cs29_call(const Raw *raw, int fresh, const int *key, int second, float *out)
{
    static Pool q;
    if (fresh)
        q.load(*raw);
    Key k;
    memcpy(&k, key, sizeof k);
    Out r;
    r.n = 0;
    Args x{q.t[k.a], q.t[k.b], q.w[k.w], q.f[k.f], q.f[k.f2], q.s[k.s], q.s[k.s2], q.o[k.o], q.p[k.p], q.g[k.g], q.g[k.g2]};
    if (second)
        otherUnit(k.fn, x, r);
    else
        TABLE[k.fn].fn(x, r);
    memcpy(out, r.v, r.n * sizeof(float));
    return r.n;
}
#endif
