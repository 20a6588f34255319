// C24: typed values in a memory stream
#include "cs.hpp"

typedef MemoryStream MS;
enum Type { U8, I8, U16, I16, U32, I32, U64, I64, F32, F64, STR, SUB, P32, P64, NTYPE };
static const char *TN[] = {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "string", "substr", "ptr32", "ptr64"};
static const int   TS[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 0, 0, 4, 8};

static u64 value(Src &s, int bytes)
{
    u64 mask = bytes == 8 ? ~0ull : (1ull << (8 * bytes)) - 1;
    switch (s.draw(6))
    {
    case 0:
        return s.draw(4);
    case 1: { // around a power of two, either sign
        u64 v = (1ull << s.draw(8 * bytes)) + s.draw(3) - 1;
        return (s.coin() ? 0 - v : v) & mask;
    }
    case 2: // one distinctive byte
        return (s.draw(256) << (8 * s.draw(bytes))) & mask;
    case 3: { // every byte different: order is visible
        u64 v = 0;
        for (int i = 0; i < bytes; i++)
            v = v << 8 | (0x11 * (i + 1) ^ s.draw(4));
        return v & mask;
    }
    case 4: // all bits but few
        return ~(1ull << s.draw(8 * bytes)) & mask;
    default:
        return s.word() & mask;
    }
}
static u64 fvalue(Src &s, int bytes)
{
    // special IEEE patterns: zeros, infinities, NaN payloads, subnormals, extremes
    static const u64 F[] = {0, 0x80000000u, 0x3f800000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0x7f800001u, 0xffc12345u, 1, 0x807fffffu,
        0x7f7fffffu, 0x00800000u};
    static const u64 D[] = {0, 1ull << 63, 0x3ff0000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull,
        0x7ff0000000000001ull, 0xfff8123456789abcull, 1, 0x800fffffffffffffull, 0x7fefffffffffffffull, 0x0010000000000000ull};
    if (s.coin())
        return value(s, bytes);
    u64 i = s.draw(12);
    return bytes == 4 ? F[i] : D[i];
}
struct Item
{
    int         type;
    bool        big; // byte order it was written with
    u64         v;
    std::string str;
    size_t      pos, len;
    bool        patched, pbig;
    size_t      plen;
};
static std::string text(Src &s, int maxlen)
{
    int         n = s.draw(3) ? s.range(0, 8) : s.range(0, maxlen);
    std::string r;
    u64         w = s.draw(1ull << 32), k = s.draw(3);
    for (int i = 0; i < n; i++)
    {
        u64 x = pbt::mix(w++);
        r.push_back(k == 0 ? (char)('a' + x % 26) : k == 1 ? (char)(x & 0xff) : (x & 3 ? (char)0 : (char)0xff));
    }
    return r;
}
static void enc(std::vector<uint8_t> &m, size_t pos, u64 v, int n, bool big)
{
    if (m.size() < pos + n)
        m.resize(pos + n);
    for (int i = 0; i < n; i++)
        m[pos + (big ? n - 1 - i : i)] = (uint8_t)(v >> (8 * i));
}
static void put(MS &st, const Item &it)
{
    u64      v = it.v;
    uint32_t w = (uint32_t)v;
    float    f;
    double   d;
    memcpy(&f, &w, 4);
    memcpy(&d, &v, 8);
    switch (it.type)
    {
    case U8: st.putUint8((uint8_t)v); break;
    case I8: st.putInt8((int8_t)v); break;
    case U16: st.putUint16((uint16_t)v); break;
    case I16: st.putInt16((int16_t)v); break;
    case U32: st.putUint32((uint32_t)v); break;
    case I32: st.putInt32((int32_t)v); break;
    case U64: st.putUint64(v); break;
    case I64: st.putInt64((int64_t)v); break;
    case F32: st.putFloat(f); break;
    case F64: st.putDouble(d); break;
    }
}
// value read, zero extended from its size; sign checked by the caller through the typed result
static bool get(Ctx &c, MS &st, int type, u64 want)
{
    uint32_t w;
    u64      l;
    switch (type)
    {
    case U8: return st.getUint8() == (uint8_t)want;
    case I8: return (long long)st.getInt8() == (long long)(int8_t)want;
    case U16: return (long long)st.getUint16() == (long long)(uint16_t)want;
    case I16: return (long long)st.getInt16() == (long long)(int16_t)want;
    case U32: return (long long)st.getUint32() == (long long)(uint32_t)want;
    case I32: return (long long)st.getInt32() == (long long)(int32_t)want;
    case U64: return st.getUint64() == want;
    case I64: return st.getInt64() == (int64_t)want;
    case F32: {
        float f = st.getFloat();
        memcpy(&w, &f, 4);
        return w == (uint32_t)want;
    }
    case F64: {
        double d = st.getDouble();
        memcpy(&l, &d, 8);
        return l == want;
    }
    case P32: return st.getPointer32() == (uint32_t)want;
    case P64: return st.getPointer64() == want;
    }
    return false;
}
static void compareBytes(Ctx &c, MS &st, const std::vector<uint8_t> &m, const char *when, const Item *it)
{
    std::vector<uint8_t> &b = st.buffer();
    c.check(b.size() == m.size(), "%s %s: stream length %zu, expected %zu", when, it ? TN[it->type] : "", b.size(), m.size());
    if (m.empty() || !memcmp(b.data(), m.data(), m.size()))
        return;
    for (size_t i = 0; i < m.size(); i++)
        c.check(b[i] == m[i], "%s %s (%s endian, value 0x%llx, position %zu): byte %zu is 0x%02x, expected 0x%02x", when,
            it ? TN[it->type] : "", it && it->big ? "big" : "little", it ? (unsigned long long)it->v : 0, it ? it->pos : 0, i, b[i], m[i]);
}
static void history(Ctx &c, size_t base, int maxOps)
{
    MS                   st;
    std::vector<uint8_t> m;
    bool                 wbig = false, rbig = false;
    if (base)
    {
        m.assign(base, 0xA5);
        st.init(m.data(), m.size());
        size_t at = c.s.coin() ? base : c.s.draw(base + 1);
        st.seekTo(at);
    }
    size_t             cur = st.ftell();
    std::vector<Item>  items;
    int                n = c.s.range(1, maxOps), kinds = 0, switches = 0;
    u64                seen = 0;
    for (int k = 0; k < n; k++)
    {
        u64 op = c.s.draw(8);
        if (op >= 6 && k > 0)
        {
            if (op == 6)
            {
                // patch a slot written before
                std::vector<int> slots;
                for (size_t i = 0; i < items.size(); i++)
                    if (items[i].type == P32 || items[i].type == P64)
                        slots.push_back((int)i);
                if (slots.empty())
                    continue;
                Item &it = items[slots[c.s.draw(slots.size())]];
                if (it.type == P32)
                    st.adjustPointer32(it.pos);
                else
                    st.adjustPointer64(it.pos);
                it.patched = true;
                it.pbig    = wbig;
                it.v       = m.size();
                enc(m, it.pos, m.size(), TS[it.type], wbig);
                c.notef("patch %s@%zu %s", TN[it.type], it.pos, wbig ? "BE" : "LE");
                c.check(st.ftell() == cur, "patching moved the cursor from %zu to %zu", cur, st.ftell());
                compareBytes(c, st, m, "after patching", &it);
                c.label("slot patched");
                continue;
            }
            wbig = !wbig;
            st.setWriteEndian(wbig ? MS::BIG : MS::LITTLE);
            switches++;
            if (c.s.coin())
                st.setReadEndian(c.s.coin() ? MS::BIG : MS::LITTLE); // must not matter for writing
        }
        Item it;
        it.type    = (int)c.s.draw(NTYPE);
        it.big     = wbig;
        it.pos     = cur;
        it.patched = false;
        it.pbig    = wbig;
        it.v       = 0;
        it.len     = TS[it.type];
        seen |= 1u << it.type;
        switch (it.type)
        {
        case STR:
            it.str = text(c.s, 300);
            it.len = 4 + it.str.size() + 1;
            st.putString(it.str);
            enc(m, cur, it.str.size() + 1, 4, wbig);
            break;
        case SUB: {
            it.str = text(c.s, 300);
            it.len = c.s.coin() ? it.str.size() + 1 : c.s.draw(it.str.size() + 2);
            st.putSubstr(it.str, it.len);
            break;
        }
        case P32:
        case P64:
            it.v = 0;
            {
                size_t p = it.type == P32 ? st.putPointer32() : st.putPointer64();
                c.check(p == cur, "putPointer returned %zu, cursor was %zu", p, cur);
            }
            enc(m, cur, 0, TS[it.type], wbig);
            break;
        default:
            it.v = it.type == F32 || it.type == F64 ? fvalue(c.s, TS[it.type]) : value(c.s, TS[it.type]);
            put(st, it);
            enc(m, cur, it.v, TS[it.type], wbig);
        }
        if (it.type == STR || it.type == SUB)
        {
            size_t body = it.type == STR ? cur + 4 : cur, l = it.type == STR ? it.str.size() + 1 : it.len;
            if (m.size() < body + l)
                m.resize(body + l);
            for (size_t i = 0; i + 1 < l; i++)
                m[body + i] = (uint8_t)it.str[i];
            if (l)
                m[body + l - 1] = 0;
        }
        c.notef("%s%s 0x%llx", TN[it.type], wbig ? "BE" : "LE", it.type == STR || it.type == SUB ? (unsigned long long)it.str.size() : (unsigned long long)it.v);
        cur += it.len;
        c.check(st.ftell() == cur, "cursor %zu after writing %s, expected %zu", st.ftell(), TN[it.type], cur);
        compareBytes(c, st, m, "after writing", &it);
        items.push_back(it);
    }
    for (int i = 0; i < NTYPE; i++)
        kinds += seen >> i & 1;
    if (kinds >= 2 && (switches || wbig))
        c.nontrivial();
    // read back: the whole stream in order, then some items in random order
    if (items.empty())
        return;
    size_t total = items.size(), extra = c.s.draw(4);
    st.seekTo(items[0].pos);
    for (size_t q = 0; q < total + extra; q++)
    {
        Item &it = q < total ? items[q] : items[c.s.draw(total)];
        if (q >= total)
            st.seekTo(it.pos);
        bool b = it.patched ? it.pbig : it.big;
        if (rbig != b || q == 0 || c.s.draw(4) == 0)
            st.setReadEndian(b ? MS::BIG : MS::LITTLE), rbig = b;
        if (c.s.draw(4) == 0)
            st.setWriteEndian(c.s.coin() ? MS::BIG : MS::LITTLE); // must not matter for reading
        if (it.type == STR)
        {
            std::string g = st.get_string();
            c.check(g == it.str, "string of %zu bytes read back as %zu bytes", it.str.size(), g.size());
        }
        else if (it.type == SUB)
        {
            std::string g = st.getSubstr((int)it.len);
            c.check(g == it.str.substr(0, it.len ? it.len - 1 : 0), "substring read back differently (len %zu)", it.len);
        }
        else
            c.check(get(c, st, it.type, it.v), "%s written as 0x%llx (%s endian) read back differently", TN[it.type], (unsigned long long)it.v, b ? "big" : "little");
        c.check(st.ftell() == it.pos + it.len, "cursor %zu after reading %s at %zu, expected %zu", st.ftell(), TN[it.type], it.pos, it.pos + it.len);
    }
    compareBytes(c, st, m, "after reading back", nullptr);
}
PROPERTY(mixture, 400000, 6000000, 0.15,
    "histories of 1..24 typed writes (all types), byte-order switches and pointer patches starting in an empty or filled stream "
    "at any cursor, compared byte by byte with an independent encoder after every step, then read back in order and in random "
    "order; non-trivial: two or more types and a byte-order switch")
{
    size_t base = c.s.draw(3) ? 0 : c.s.range(1, 64);
    history(c, base, 24);
}
PROPERTY(deep, 4000, 80000, 0.2, "as above with up to 60 steps in streams of up to 70000 bytes (lengths beyond 16 bits); non-trivial as above")
{
    size_t base = c.s.coin() ? c.s.range(65000, 70000) : c.s.range(200, 600);
    history(c, base, 60);
}
PROPERTY(longer, 60, 600, 0.1, "pointer slots patched in streams longer than 2^24 bytes; non-trivial: all")
{
    MS     st;
    size_t base = (1u << 24) + c.s.draw(1u << 20);
    bool   big = c.s.coin(), w64 = c.s.coin();
    st.setWriteEndian(big ? MS::BIG : MS::LITTLE);
    st.setReadEndian(big ? MS::BIG : MS::LITTLE);
    size_t p  = w64 ? st.putPointer64() : st.putPointer32();
    size_t sz = w64 ? 8 : 4;
    std::vector<uint8_t> fill(base, 0x5a);
    st.write(fill.data(), base);
    if (w64)
        st.adjustPointer64(p);
    else
        st.adjustPointer32(p);
    c.notef("%zu bytes, %s, %s", base, w64 ? "64" : "32", big ? "big" : "little");
    c.nontrivial();
    c.check(st.ftell() == base + sz && st.buffer().size() == base + sz, "length or cursor");
    st.seekTo(p);
    u64 got = w64 ? st.getPointer64() : st.getPointer32();
    c.check(got == base + sz, "patched pointer reads %llu, stream length %zu", (unsigned long long)got, base + sz);
    c.check(!memcmp(st.buffer().data() + sz, fill.data(), base), "patching disturbed another byte");
}
PROPERTY(long_strings, 2000, 30000, 0.1,
    "strings of up to 200000 bytes (rarely 2^24 and more), whole or a part of given length, of text, any bytes or mostly NUL, after a few bytes and "
    "before a marker, either byte order: encoded bytes, cursor, text and marker read back; non-trivial: 256 bytes or more")
{
    MS     st;
    bool   big = c.s.coin(), sub = c.s.draw(3) == 0;
    size_t n   = c.s.draw(1000) == 999 ? (size_t)c.s.range(1 << 24, (1 << 24) + 300) : (size_t)c.s.logu(1, 200001) - 1, pre = c.s.draw(5);
    u64    w = c.s.draw(1ull << 32), k = c.s.draw(3);
    std::string t(n, ' ');
    for (char &x : t)
    {
        u64 y = w = w * 6364136223846793005ull + 1442695040888963407ull;
        y >>= 33;
        x = k == 0 ? (char)('a' + y % 26) : k == 1 ? (char)(y & 0xff) : (y & 3 ? (char)0 : (char)0xff);
    }
    size_t len = n + 1;
    if (sub)
        len = c.s.coin() ? n + 1 : (size_t)c.s.draw(n + 2);
    c.notef("%zu bytes, %s of %zu, %s endian, at %zu, kind %d", n, sub ? "part" : "whole", len, big ? "big" : "little", pre, (int)k);
    if (n >= 256)
        c.nontrivial();
    st.setWriteEndian(big ? MS::BIG : MS::LITTLE);
    st.setReadEndian(big ? MS::BIG : MS::LITTLE);
    for (size_t i = 0; i < pre; i++)
        st.putUint8(0x33);
    if (sub)
        st.putSubstr(t, len);
    else
        st.putString(t);
    st.putUint16(0xA55B);
    size_t b = pre + (sub ? 0 : 4), e = b + len + 2;
    c.check(st.ftell() == e && st.buffer().size() == e, "cursor %zu, length %zu, expected %zu", st.ftell(), st.buffer().size(), e);
    if (!sub)
        for (int i = 0; i < 4; i++)
            c.check(st.buffer()[pre + (big ? 3 - i : i)] == (uint8_t)((n + 1) >> (8 * i)), "byte %d of the length", i);
    if (len)
    {
        c.check(!memcmp(st.buffer().data() + b, t.data(), len - 1), "encoded text differs");
        c.check(st.buffer()[b + len - 1] == 0, "text not terminated");
    }
    st.seekTo(pre);
    std::string g = sub ? st.getSubstr((int)len) : st.get_string();
    c.check(g == t.substr(0, len ? len - 1 : 0), "text of %zu bytes read back as %zu bytes or different", len ? len - 1 : 0, g.size());
    c.check(st.ftell() == e - 2, "cursor %zu after reading, expected %zu", st.ftell(), e - 2);
    c.check(st.getUint16() == 0xA55B, "what follows the text");
}
// every 8- and 16-bit value, both byte orders, all small types
SWEEP(small_types, 65536, 1, 1, 1.0, "every 16-bit pattern as u8, i8, u16, i16 and as halves of 32-bit values in both byte orders; non-trivial: all")
{
    c.nontrivial();
    u64 x = c.s.draw(65536);
    for (int big = 0; big < 2; big++)
    {
        MS st;
        st.setWriteEndian(big ? MS::BIG : MS::LITTLE);
        st.setReadEndian(big ? MS::BIG : MS::LITTLE);
        std::vector<uint8_t> m;
        static const int T[] = {U8, I8, U16, I16, U32, I32, U32, I32};
        u64    V[8] = {x & 0xff, x >> 8, x, x, x << 16 | (~x & 0xffff), x, x << 16, x | 0x80000000u};
        size_t pos = 0;
        for (int i = 0; i < 8; i++)
        {
            Item it;
            it.type = T[i], it.v = V[i] & (TS[T[i]] == 4 ? 0xffffffffull : TS[T[i]] == 2 ? 0xffffull : 0xffull), it.big = big, it.pos = pos;
            put(st, it);
            enc(m, pos, it.v, TS[T[i]], big);
            pos += TS[T[i]];
            V[i] = it.v;
        }
        compareBytes(c, st, m, "sweep", nullptr);
        st.seekTo(0);
        for (int i = 0; i < 8; i++)
            c.check(get(c, st, T[i], V[i]), "%s 0x%llx %s endian", TN[T[i]], (unsigned long long)V[i], big ? "big" : "little");
    }
    c.extra += 15;
}
