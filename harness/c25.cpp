// C25: the memory stream as a byte array with a cursor
#include "cs.hpp"

typedef MemoryStream         MS;
typedef std::vector<uint8_t> Bytes;

static Bytes content(Src &s, int n)
{
    Bytes b(n);
    u64   w = s.draw(1ull << 32);
    for (auto &x : b)
        x = (uint8_t)(1 + pbt::mix(w++) % 255); // never zero: zero fill stays visible
    return b;
}
static size_t position(Src &s, size_t size)
{
    switch (s.draw(6))
    {
    case 0:
        return s.draw(size + 1);
    case 1:
        return size;
    case 2:
        return size + s.draw(9);
    case 3: { // hostile
        static const u64 H[] = {0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull,
            0xffffffffffffffffull, 0xfffffffffffffffeull};
        return (size_t)(H[s.draw(8)] - s.draw(4));
    }
    case 4: // wraps to something small in 32 bits
        return (size_t)((1ull << s.range(32, 63)) + s.draw(size + 8));
    default:
        return size ? size - 1 - s.draw(size < 4 ? size : 4) : 0;
    }
}
static size_t length(Src &s, size_t size)
{
    switch (s.draw(5))
    {
    case 0:
        return 0;
    case 1:
        return s.draw(size + 2);
    case 2:
        return size + s.draw(5);
    case 3: {
        static const u64 H[] = {0x7fffffffull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0xffffffffffffffffull};
        return (size_t)(H[s.draw(5)] - s.draw(3));
    }
    default:
        return s.draw(17);
    }
}
struct Model
{
    Bytes  b;
    size_t cur;
};
static void agree(Ctx &c, MS &st, const Model &m, const char *op)
{
    c.check(st.ftell() == m.cur, "%s: cursor %zu, expected %zu", op, st.ftell(), m.cur);
    c.check(st.mark() == m.cur, "%s: mark() %zu, expected %zu", op, (size_t)st.mark(), m.cur);
    c.check(st.feof() == (m.cur >= m.b.size()), "%s: end of stream reported %d at cursor %zu of %zu bytes", op, (int)st.feof(), m.cur, m.b.size());
    Bytes &b = st.buffer();
    c.check(b.size() == m.b.size(), "%s: %zu bytes, expected %zu", op, b.size(), m.b.size());
    if (m.cur < m.b.size())
        c.check(st.ptr() == (void *)(b.data() + m.cur), "%s: ptr() does not address the byte at the cursor", op);
    if (!m.b.empty())
        c.check(st.ptr(m.b.size() - 1) == (void *)(b.data() + m.b.size() - 1), "%s: ptr(last) does not address the last byte", op);
    if (m.b.empty() || !memcmp(b.data(), m.b.data(), m.b.size()))
        return;
    for (size_t i = 0; i < m.b.size(); i++)
        c.check(b[i] == m.b[i], "%s: byte %zu is 0x%02x, expected 0x%02x", op, i, b[i], m.b[i]);
}
static void checkRead(Ctx &c, const char *op, const Bytes &dst, size_t got, size_t want, const Model &m, size_t from)
{
    c.check(got == want, "%s returned %zu, expected %zu", op, got, want);
    for (size_t i = 0; i < dst.size(); i++)
    {
        uint8_t w = i < want ? m.b[from + i] : 0xEE;
        c.check(dst[i] == w, "%s: destination byte %zu is 0x%02x, expected 0x%02x", op, i, dst[i], w);
    }
}
static void writeAt(Bytes &b, size_t p, const Bytes &d)
{
    if (p + d.size() > b.size())
        b.resize(p + d.size(), 0);
    for (size_t i = 0; i < d.size(); i++)
        b[p + i] = d[i];
}
static void run(Ctx &c, int n0, int ops, int big = 0)
{
    Model m;
    m.cur = 0;
    std::unique_ptr<MS> sp;
    if (n0 == 0 && c.s.coin())
        sp.reset(new MS());
    else if (c.s.draw(4) == 0)
    {
        m.b.assign(n0, 0);
        sp.reset(new MS(NULL, n0));
    }
    else
    {
        m.b = content(c.s, n0);
        Bytes copy(m.b); // the stream owns a copy: the source may go away
        sp.reset(new MS(n0 || c.s.coin() ? copy.data() : NULL, n0));
        c.check(copy == m.b, "constructor changed its input");
        std::fill(copy.begin(), copy.end(), 0xDD);
    }
    MS &st = *sp;
    c.notef("%d bytes", n0);
    agree(c, st, m, "construct");
    bool wrote = false, readp = false, moved = false;
    std::vector<size_t> marks;
    for (int k = 0; k < ops; k++)
    {
        size_t size = m.b.size();
        switch (c.s.draw(19))
        {
        case 0: { // seek from the top
            size_t p = c.s.draw(size + 1);
            int    r = st.fseek((int)p, MS::TOP);
            m.cur    = p;
            c.notef("seek %zu", p);
            c.check((size_t)r == p, "fseek(TOP) returned %d, expected %zu", r, p);
            agree(c, st, m, "fseek TOP");
            moved = true;
            break;
        }
        case 1: { // relative seek
            size_t p = c.s.draw(size + 1);
            int    r = st.fseek((int)((long)p - (long)m.cur), MS::CURRENT);
            m.cur    = p;
            c.notef("seek by to %zu", p);
            c.check((size_t)r == p, "fseek(CURRENT) returned %d, expected %zu", r, p);
            agree(c, st, m, "fseek CURRENT");
            moved = true;
            break;
        }
        case 2: { // offs bytes before the last byte
            int offs = (int)c.s.draw(size + 1) - 1;
            int r    = st.fseek(offs, MS::END);
            m.cur    = size - offs - 1;
            c.notef("seek end %d", offs);
            c.check((size_t)r == m.cur, "fseek(END) returned %d, expected %zu", r, m.cur);
            agree(c, st, m, "fseek END");
            moved = true;
            break;
        }
        case 3: {
            if (!marks.empty() && c.s.coin())
            {
                size_t p = marks[c.s.draw(marks.size())];
                st.seekTo(p);
                m.cur = p;
                c.notef("to mark %zu", p);
                agree(c, st, m, "seekTo mark");
            }
            else
            {
                marks.push_back(st.mark());
                c.check(marks.back() == m.cur, "mark");
                c.notef("mark");
            }
            break;
        }
        case 4: {
            static const int A[] = {1, 2, 4, 8, 16, 3, 5, 7, 12, 64};
            int    a = c.s.coin() ? A[c.s.draw(10)] : c.s.range(1, 33);
            size_t t = (m.cur + a - 1) / a * a;
            if (t > size)
                break;
            st.align(a);
            m.cur = t;
            c.notef("align %d", a);
            agree(c, st, m, "align");
            break;
        }
        case 5: { // sequential read
            size_t n = length(c.s, size), w = m.cur >= size ? 0 : std::min(n, size - m.cur);
            Bytes  d(1 + std::min<size_t>(n, size + 64), 0xEE);
            size_t g = st.read(d.data(), n);
            c.notef("read %zu", n);
            checkRead(c, "read", d, g, w, m, m.cur);
            m.cur += w;
            agree(c, st, m, "read");
            readp |= w > 0;
            break;
        }
        case 6: { // sequential write
            Bytes d = content(c.s, c.s.draw(3) ? (int)c.s.draw(9) : (int)c.s.draw(big && c.s.coin() ? big : 40));
            size_t g = st.write(d.data(), d.size());
            c.notef("write %zu", d.size());
            c.check(g == d.size(), "write returned %zu of %zu", g, d.size());
            writeAt(m.b, m.cur, d);
            m.cur += d.size();
            agree(c, st, m, "write");
            wrote |= d.size() > 0;
            break;
        }
        case 7:
        case 8: { // absolute read
            size_t p = position(c.s, size), n = length(c.s, size), w = p >= size ? 0 : std::min(n, size - p);
            Bytes  d(1 + std::min<size_t>(n, size + 64), 0xEE);
            size_t g = st.read_at(d.data(), n, p);
            c.notef("read_at %zu+%zu", p, n);
            checkRead(c, "read_at", d, g, w, m, p);
            agree(c, st, m, "read_at");
            if (p > size)
                c.label("absolute access past the end");
            break;
        }
        case 9:
        case 10: { // absolute write
            size_t p = c.s.draw(3) ? c.s.draw(size + 1) : size + c.s.draw(big && c.s.coin() ? big : 50);
            Bytes  d = content(c.s, (int)c.s.draw(big && c.s.draw(4) == 0 ? big : 20));
            if (d.empty())
                p = c.s.draw(size + 1);
            size_t g = st.write_at(d.data(), d.size(), p);
            c.notef("write_at %zu+%zu", p, d.size());
            c.check(g == d.size(), "write_at returned %zu of %zu", g, d.size());
            writeAt(m.b, p, d);
            agree(c, st, m, "write_at");
            wrote |= d.size() > 0;
            break;
        }
        case 11: {
            size_t  p = position(c.s, size);
            uint8_t g = st.get_at(p), w = p < size ? m.b[p] : 0;
            c.notef("get_at %zu", p);
            c.check(g == w, "get_at(%zu) of %zu bytes is 0x%02x, expected 0x%02x", p, size, g, w);
            agree(c, st, m, "get_at");
            break;
        }
        case 12: {
            size_t  p = c.s.draw(3) ? c.s.draw(size + 1) : size + c.s.draw(big && c.s.coin() ? big : 50);
            uint8_t v = (uint8_t)c.s.draw(256);
            st.put_at(p, v);
            c.notef("put_at %zu", p);
            writeAt(m.b, p, Bytes(1, v));
            agree(c, st, m, "put_at");
            wrote = true;
            break;
        }
        case 13: {
            uint8_t g = st.getUint8(), w = m.cur < size ? m.b[m.cur] : 0;
            c.notef("get");
            c.check(g == w, "getUint8 at %zu of %zu bytes is 0x%02x, expected 0x%02x", m.cur, size, g, w);
            if (m.cur < size)
                m.cur++;
            agree(c, st, m, "getUint8");
            readp = true;
            break;
        }
        case 14: {
            uint8_t v = (uint8_t)c.s.draw(256);
            st.putUint8(v);
            c.notef("put");
            writeAt(m.b, m.cur, Bytes(1, v));
            m.cur++;
            agree(c, st, m, "putUint8");
            wrote = true;
            break;
        }
        case 15: { // typed gets anywhere, also across the end
            size_t from = m.cur;
            u64    t    = c.s.draw(9);
            static const int SZ[] = {1, 2, 2, 4, 4, 8, 8, 4, 8};
            st.setReadEndian(c.s.coin() ? MS::BIG : MS::LITTLE);
            bool past = from >= size, zero = true;
            switch (t)
            {
            case 0: zero = st.getInt8() == 0; break;
            case 1: zero = st.getUint16() == 0; break;
            case 2: zero = st.getInt16() == 0; break;
            case 3: zero = st.getUint32() == 0; break;
            case 4: zero = st.getInt32() == 0; break;
            case 5: zero = st.getUint64() == 0; break;
            case 6: zero = st.getInt64() == 0; break;
            case 7: zero = st.getFloat() == 0; break;
            default: zero = st.getDouble() == 0;
            }
            c.notef("typed get of %d", SZ[t]);
            if (past)
            {
                c.check(zero, "typed get of %d bytes at %zu of %zu returned a non-zero value", SZ[t], from, size);
                c.label("typed get at the end");
            }
            size_t e = std::min(from + SZ[t], std::max(from, size));
            m.cur    = e;
            agree(c, st, m, "typed get");
            break;
        }
        case 16: { // start again
            if (c.s.draw(4))
                break;
            Bytes d = content(c.s, (int)c.s.draw(big ? big : 30));
            marks.clear();
            st.init(d.empty() ? NULL : d.data(), d.size());
            m.b = d, m.cur = 0;
            c.notef("init %zu", d.size());
            agree(c, st, m, "init");
            break;
        }
        case 17: { // absolute writes whose end cannot be represented
            size_t p = (size_t)0 - 1 - c.s.draw(c.s.coin() ? 4 : 40);
            if (c.s.coin())
            {
                st.put_at(p, 1);
                c.notef("put_at %zu", p);
                agree(c, st, m, "put_at");
                break;
            }
            Bytes  d = content(c.s, 41 + (int)c.s.draw(40));
            size_t g = st.write_at(d.data(), d.size(), p);
            c.notef("write_at %zu+%zu", p, d.size());
            c.check(g == 0, "write_at(%zu) of %zu bytes returned %zu", p, d.size(), g);
            agree(c, st, m, "write_at");
            break;
        }
        default: { // copies are independent
            MS    cp(st);
            Bytes d = content(c.s, 3);
            cp.write_at(d.data(), 3, c.s.draw(size + 1));
            cp.fseek(0, MS::TOP);
            agree(c, st, m, "copy written");
            c.notef("copy");
        }
        }
        // earlier marks stay valid: streams never shrink
    }
    if (wrote && readp && moved)
        c.nontrivial();
}
PROPERTY(history, 500000, 8000000, 0.25,
    "1..40 operations (seeks of all three kinds, marks, align, read, write, read_at, write_at, get_at, put_at, byte and typed gets, "
    "puts, init, copies; hostile 64-bit positions and lengths for reads, hostile positions for absolute writes) on streams of 0..80 initial bytes against a byte-array model "
    "compared in full after each operation; non-trivial: a write, a read and a seek all took place")
{
    int n0 = c.s.draw(4) == 0 ? 0 : c.s.range(1, 80);
    run(c, n0, c.s.range(1, 40));
}
PROPERTY(longer_history, 8000, 200000, 0.25, "as above, 100..400 operations on streams of up to 3000 bytes; non-trivial as above")
{
    run(c, c.s.range(0, 3000), c.s.range(100, 400));
}
PROPERTY(large, 12000, 200000, 0.15,
    "as above, 5..30 operations on streams of up to 70000 initial bytes (sometimes 300000), writes and gaps of up to 70000 bytes; "
    "non-trivial as above")
{
    static const int B[] = {255, 256, 257, 65535, 65536, 65537, 32767, 32768, 4096, 8192};
    int n0 = c.s.draw(4) == 0 ? B[c.s.draw(10)] : c.s.draw(8) == 0 ? c.s.range(0, 300000) : c.s.range(0, 70000);
    run(c, n0, c.s.range(5, 30), 70000);
}
PROPERTY(huge, 200, 3000, 0.1,
    "as above, 2..10 operations on streams of up to 3 MB with writes and gaps of up to 20 MB (lengths and positions beyond 20 and 24 bits); "
    "non-trivial as above")
{
    run(c, c.s.coin() ? 0 : c.s.range(0, 3000000), c.s.range(2, 10), c.s.draw(4) ? 3000000 : 20000000);
}
PROPERTY(profile, 300000, 4000000, 0.3,
    "the ICC entry point on exactly-sized heap buffers of 0..600 bytes (random, ICC-like header and tag table with hostile offsets and "
    "counts, truncated) and on NULL; no memory error, input unchanged, same answer twice; non-trivial: not empty")
{
    int   n = c.s.draw(5) == 0 ? (int)c.s.draw(4) : c.s.range(1, 600);
    Bytes b = content(c.s, n);
    u64   k = c.s.draw(4);
    auto  be = [&](size_t p, u64 v) {
        for (int i = 0; i < 4; i++)
            if (p + i < b.size())
                b[p + i] = (uint8_t)(v >> (24 - 8 * i));
    };
    if (k)
    {
        static const u64 H[] = {0, 1, 128, 132, 0x7fffffff, 0xffffffff, 0xfffffff0, 0x80000000u};
        auto             off = [&]() { return c.s.coin() ? H[c.s.draw(8)] : c.s.draw(700); };
        be(0, c.s.coin() ? b.size() : off());
        be(36, 0x61637370); // 'acsp'
        be(16, 0x52474220); // 'RGB '
        be(20, 0x58595A20); // 'XYZ '
        int tags = c.s.range(0, 9);
        be(128, c.s.draw(3) ? tags : off());
        static const u64 T[] = {0x7258595A, 0x6758595A, 0x6258595A, 0x77747074, 0x72545243, 0x67545243, 0x62545243, 0x63686164, 0x64657363};
        for (int i = 0; i < tags; i++)
        {
            be(132 + 12 * i, T[i]);
            be(136 + 12 * i, off());
            be(140 + 12 * i, off());
        }
    }
    c.notef("%d bytes, kind %d", n, (int)k);
    if (n)
        c.nontrivial();
    // exact heap block, so any access outside is visible to the sanitizer
    uint8_t *p = n ? (uint8_t *)malloc(n) : NULL;
    if (n)
        memcpy(p, b.data(), n);
    Gamut g1 = loadGamutFromICCProfileMemory(p, n);
    Gamut g2 = loadGamutFromICCProfileMemory(p, n);
    bool  same = !n || !memcmp(p, b.data(), n);
    free(p);
    c.check(same, "input buffer changed");
    for (int i = 0; i < 9; i++)
        c.check(g1.toXYZ()[i] == g2.toXYZ()[i], "two loads of the same profile differ");
}
