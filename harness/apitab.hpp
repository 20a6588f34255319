// The public functions as a table of calls on numbered arguments, for the properties over the whole API.
#pragma once
#include <cstdint>
#include <cstring>
#include <array>
#include <algorithm>
#include <vector>

#include <colorsystem.hpp>

using namespace ColorSystem;
typedef ColorSystem::Tristimulus Tri;
typedef ColorSystem::Matrix3     Mat;

// ---------------------------------------------------------------- argument pools
const int NT = 7, NF = 5, NS = 4, NO = 3, NP = 5, NG = 4;
struct Raw // the same in plain numbers, for every build of the library
{
    float t[NT][3]; // colours (0..1-ish), also whites and LAB triples
    float w[NT][3]; // whites
    float f[NF];
    float s[NS][400];
    int   ob[NO]; // 0 CIE1931, 1 Judd-Vos, 2 CIE2012, -1 the functions in o
    float o[NO][3][400];
    float p[NP][24][3];
    float g[2][8];
};
static inline Spectrum toSpectrum(const float *v)
{
    std::array<float, 400> a;
    std::copy(v, v + 400, a.begin());
    return Spectrum(a);
}
struct Pool
{
    Tri              t[NT];
    Tri              w[NT];
    float            f[NF];
    Spectrum         s[NS];
    Observer         o[NO];
    std::vector<Tri> p[NP]; // 24 patches
    Gamut            g[NG];
    Pool()
        : o{CIE1931, CIE1931, CIE1931}, g{Rec709, Rec2020, ACEScg, DCI_P3}
    {
    }
    void load(const Raw &r)
    {
        for (int i = 0; i < NT; i++)
            t[i] = Tri(r.t[i][0], r.t[i][1], r.t[i][2]), w[i] = Tri(r.w[i][0], r.w[i][1], r.w[i][2]);
        std::copy(r.f, r.f + NF, f);
        for (int i = 0; i < NS; i++)
            s[i] = toSpectrum(r.s[i]);
        for (int i = 0; i < NO; i++)
            o[i] = r.ob[i] == 0 ? CIE1931 : r.ob[i] == 1 ? CIE31JV : r.ob[i] == 2 ? CIE2012 : Observer(toSpectrum(r.o[i][0]), toSpectrum(r.o[i][1]), toSpectrum(r.o[i][2]));
        for (int i = 0; i < NP; i++)
        {
            p[i].clear();
            for (int j = 0; j < 24; j++)
                p[i].push_back(Tri(r.p[i][j][0], r.p[i][j][1], r.p[i][j][2]));
        }
        for (int i = 0; i < 2; i++)
        {
            const float *c = r.g[i];
            g[2 + i]       = Gamut("custom", c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]);
        }
    }
};
struct Key
{
    int fn, a, b, w, f, f2, s, s2, o, p, g, g2;
    bool operator<(const Key &k) const { return memcmp(this, &k, sizeof k) < 0; }
};
// the arguments of a call at fixed addresses (or those of the pool itself)
struct Slots
{
    Tri              a, b, w;
    float            f, f2;
    Spectrum         s, s2;
    Observer         o;
    std::vector<Tri> p;
    Gamut            g, g2;
    Slots() : o(CIE1931), g(Rec709), g2(Rec709) {}
};
struct Out
{
    float v[512];
    int   n;
    void  add(float x) { v[n++] = x; }
    template <class T> void add3(T &&t)
    {
        for (int i = 0; i < 3; i++)
            add(t[i]);
    }
    void add9(const Mat &m)
    {
        for (int i = 0; i < 9; i++)
            add(m[i]);
    }
    void addS(const Spectrum &s)
    {
        for (int i = 0; i < 400; i++)
            add(s[i]);
    }
    bool operator==(const Out &o) const { return n == o.n && !memcmp(v, o.v, n * sizeof(float)); }
};
struct Args
{
    const Tri        &a, &b, &w;
    const float      &f, &f2;
    const Spectrum   &s, &s2;
    const Observer   &o;
    std::vector<Tri> &p;
    const Gamut      &g, &g2;
};
typedef void (*Fn)(const Args &, Out &);
struct Entry
{
    const char *name;
    int         cost; // 0 cheap, 1 a spectrum, 2 a chart or solve
    Fn          fn;
};
#define E0(NAME, ...) {NAME, 0, [](const Args &x, Out &r) { __VA_ARGS__; }},
#define E1(NAME, ...) {NAME, 1, [](const Args &x, Out &r) { __VA_ARGS__; }},
#define E2(NAME, ...) {NAME, 2, [](const Args &x, Out &r) { __VA_ARGS__; }},
static const Entry TABLE[] = {
    E0("toYxy", r.add3(x.a.toYxy()))
    E0("fromYxy", r.add3(x.a.fromYxy()))
    E0("toYuv", r.add3(x.a.toYuv()))
    E0("fromYuv", r.add3(x.a.fromYuv()))
    E0("toCIELAB", r.add3(x.a.toCIELAB(x.w)))
    E0("fromCIELAB", r.add3(x.a.fromCIELAB(x.w)))
    E0("toCIELAB default white", r.add3(x.a.toCIELAB()))
    E0("fromCIELAB default white", r.add3(x.a.fromCIELAB()))
    E0("toHSV", r.add3(x.a.toHSV()))
    E0("fromHSV", r.add3(x.a.fromHSV()))
    E0("toHSV_atan", r.add3(x.a.toHSV_atan()))
    E0("fromCT", r.add3(Tri::fromCT(1000 + 20000 * fabsf(x.f), x.f2)))
    E0("fromPlanckianLocus", r.add3(Tri::fromPlanckianLocus(1700 + 20000 * fabsf(x.f), x.f2)))
    E0("fromCT default Y", r.add3(Tri::fromCT(1000 + 20000 * fabsf(x.f))))
    E0("fromPlanckianLocus default Y", r.add3(Tri::fromPlanckianLocus(1700 + 20000 * fabsf(x.f))))
    E0("fromCCT", r.add3(Tri::fromCCT(1700 + 20000 * fabsf(x.f), 0.02f * x.f2)))
    E0("fromCCT with Y", r.add3(Tri::fromCCT(1700 + 20000 * fabsf(x.f), 0.02f * x.f2, x.a[1])))
    E0("algebra", (r.add3(x.a + x.b), r.add3(x.a * x.b), r.add3(x.a * x.f), r.add(x.a.dot(x.b)), r.add3(x.a.clip(0.f, x.f2))))
    E0("Rec709 to XYZ", (r.add3(Rec709.toXYZ(x.a)), r.add3(Rec709.fromXYZ(x.b))))
    E0("gamut to XYZ", (r.add3(x.g.toXYZ(x.a)), r.add3(x.g.fromXYZ(x.b))))
    E0("GamutConvert", r.add9(GamutConvert(x.g, x.g2)))
    E0("gamut from primaries", (r.add9(Gamut("t", 0.64f + 0.05f * x.f, 0.33f, 0.3f, 0.6f, 0.15f, 0.06f, 0.3127f, 0.329f).toXYZ())))
    E0("gamut from any primaries", float v[8]; for (int i = 0; i < 6; i++) v[i] = (i < 3 ? x.a[i] : x.b[i - 3]); v[6] = x.f; v[7] = x.f2;
        for (float &y : v) y = 0.04f * (y - floorf(y)); Gamut m("t", 0.64f + v[0], 0.33f + v[1], 0.3f + v[2], 0.6f + v[3], 0.15f + v[4], 0.06f + v[5], 0.3f + v[6], 0.32f + v[7]);
        r.add9(m.toXYZ()); r.add9(m.fromXYZ()))
    E0("primaries", (r.add3(x.g.primaryWhite()), r.add3(x.g.primaryRed()), r.add3(x.g.primaryGreen()), r.add3(x.g.primaryBlue())))
    E0("Bradford", r.add9(Bradford(x.w, x.b)))
    E0("Bradford to D50", r.add9(Bradford(x.w, Illuminant_D50)))
    E0("ICtCp", r.add3(XYZ_to_ICtCp(x.a)))
    E0("ICtCp inverse", r.add3(ICtCp_to_XYZ(x.a)))
    E0("OKLAB", r.add3(XYZ_to_OKLAB(x.a)))
    E0("OKLAB inverse", r.add3(OKLAB_to_XYZ(x.a)))
    E0("delta UV", r.add(Delta::UV(x.a, x.b)))
    E0("delta E76", r.add(Delta::E76(x.a, x.b)))
    E0("delta E00", r.add(Delta::E00(x.a, x.b)))
    E0("delta E00 weighted", r.add(Delta::E00(x.a, x.b, 1 + fabsf(x.f), 1 + fabsf(x.f2), 1.f)))
    E0("delta E00 kL", r.add(Delta::E00(x.a, x.b, 1 + fabsf(x.f))))
    E0("delta E00 kC", r.add(Delta::E00(x.a, x.b, 1.f, 1 + fabsf(x.f))))
    E0("delta E00 kH", r.add(Delta::E00(x.a, x.b, 1.f, 1.f, 1 + fabsf(x.f))))
    E0("delta E00 of LAB", r.add(Delta::E00(x.a.toCIELAB(x.w), x.b.toCIELAB(x.w))))
    E0("delta ICtCp", r.add(Delta::ICtCp(x.a, x.b)))
    E0("toScreen linear", r.add3(OTF::toScreen(OTF::LINEAR, x.a)))
    E0("toScreen gamma", r.add3(OTF::toScreen(OTF::GAMMA, x.a, 1 + fabsf(x.f))))
    E0("toScreen sRGB", r.add3(OTF::toScreen(OTF::SRGB, x.a)))
    E0("toScreen BT709", r.add3(OTF::toScreen(OTF::BT709, x.a)))
    E0("toScreen PQ", r.add3(OTF::toScreen(OTF::ST2084, x.a)))
    E0("toScreen SLog", r.add3(OTF::toScreen(OTF::SLOG, x.a)))
    E0("toScreen SLog2", r.add3(OTF::toScreen(OTF::SLOG2, x.a)))
    E0("toScreen SLog3", r.add3(OTF::toScreen(OTF::SLOG3, x.a)))
    E0("toScreen HLG", r.add3(OTF::toScreen(OTF::HLG, x.a)))
    E0("toScene linear", r.add3(OTF::toScene(OTF::LINEAR, x.a)))
    E0("toScene gamma", r.add3(OTF::toScene(OTF::GAMMA, x.a, 1 + fabsf(x.f))))
    E0("toScene sRGB", r.add3(OTF::toScene(OTF::SRGB, x.a)))
    E0("toScene BT709", r.add3(OTF::toScene(OTF::BT709, x.a)))
    E0("toScene PQ", r.add3(OTF::toScene(OTF::ST2084, x.a)))
    E0("toScene SLog", r.add3(OTF::toScene(OTF::SLOG, x.a)))
    E0("toScene SLog2", r.add3(OTF::toScene(OTF::SLOG2, x.a)))
    E0("toScene SLog3", r.add3(OTF::toScene(OTF::SLOG3, x.a)))
    E0("toScene HLG", r.add3(OTF::toScene(OTF::HLG, x.a)))
    E0("matrix invert", (r.add9(Mat::diag(x.w.vec3()).add(Mat(0, x.f, 0, 0, 0, x.f2, 0, 0, 0)).invert())))
    E0("matrix algebra", Mat m(x.a[0], x.a[1], x.a[2], x.b[0], x.b[1], x.b[2], x.w[0], x.w[1], x.f); Mat k = Mat::diag(x.w.vec3()).add(Mat(0, x.f, 0, 0, 0, x.f2, 0, 0, 0));
        r.add9(m.mul(k)); r.add9(k.add(m)); r.add9(m.transpose()); r.add9(m.mul(x.f2)); r.add(m.det()); r.add3(m.apply(x.b.vec3())); r.add3(x.a.apply(k)))
    E0("triple algebra", (r.add3(Tri::min(x.a, x.b)), r.add3(Tri::max(x.a, x.b)), r.add3(x.a.positive()), r.add(x.a.hasNegative()), r.add3(Tri(x.f) * x.w), r.add(x.a.min3()), r.add(x.a.max3())))
    E0("illuminants", static const Tri *I[] = {&Illuminant_A, &Illuminant_B, &Illuminant_C, &Illuminant_D50, &Illuminant_D55, &Illuminant_D60, &Illuminant_D65,
        &Illuminant_D75, &Illuminant_E, &Illuminant_F2, &Illuminant_F7, &Illuminant_F11}; for (auto t : I) r.add3(*t))
    E0("named gamuts", static const Gamut *G[] = {&AdobeRGB, &Rec709, &Rec2020, &DCI_P3, &S_Gamut, &S_Gamut3_Cine, &ACEScg, &ACES2065, &LMS, &XYZ};
        for (auto g : G) { r.add9(g->toXYZ()); r.add9(g->fromXYZ()); } r.add3(G[(int)(9.9f * fabsf(x.f))]->toXYZ(x.a)))
    E1("built-in tables", int i = (int)(399 * fabsf(x.f)); r.add(CIE_D65[i]); for (int k = 0; k < 99; k++) r.add(TM_30_15::sample[k][i]); for (int k = 0; k < 24; k++) r.add(Macbeth::Patch[k][i]);
        for (auto o : {&CIE1931, &CIE31JV, &CIE2012}) r.add3(o->fromSpectrum(x.s)))
    E0("crosstalk", (r.add9(Mat::crosstalk(x.f)), r.add9(Mat::crosstalkInvert(0.3f * x.f))))
    E0("sqrtf", (r.add(util::sqrtf(x.f)), r.add(util::sqrtf(x.f2))))
    E1("fetch", (r.add(x.s.fetch(380 + 400 * fabsf(x.f))), r.add(x.s.fetch(380 + 400 * fabsf(x.f2)))))
    E1("resample", r.addS(Spectrum(x.s.s().data(), 50 + (int)(300 * fabsf(x.f)) % 350, 380.f, 700 + 50 * fabsf(x.f2))))
    E1("fetch, any samples", (r.add(Spectrum::fetch(x.s.s().data(), 2 + (int)(398 * fabsf(x.f)), 380.f + 100 * x.f2, 800.f, 400 + 500 * fabsf(x.f2)))))
    E1("resample default", r.addS(Spectrum(x.s.s().data())))
    E0("planck", (r.add((float)Spectrum::planck(1000 + 10000 * fabsf(x.f), (300 + 1000 * fabsf(x.f2)) * 1e-9))))
    E1("blackbody", r.addS(Spectrum::blackbody(1000 + 10000 * fabsf(x.f))))
    E1("equal energy", r.addS(Spectrum::E(x.f)))
    E1("spectrum algebra", r.addS(x.s * x.f + x.s2 * x.s))
    E1("spectrum sums", (r.add(x.s.sum()), r.add(x.s.dot(x.s2)), r.add(Spectrum::dot3(x.s, x.s2, x.s))))
    E1("fromSpectrum", r.add3(x.o.fromSpectrum(x.s)))
    E1("fromSpectrum CIE1931", r.add3(CIE1931.fromSpectrum(x.s)))
    E1("fromReflectanceAndLight", r.add3(x.o.fromReflectanceAndLight(x.s, x.s2)))
    E1("monochromatic", (r.add(x.o.lumensFromMonochromaticFlux(380 + 400 * fabsf(x.f), x.f2)),
                           r.add3(x.o.candellasFromMonochromaticRadiance(380 + 400 * fabsf(x.f), x.f2)), r.add3(x.o.xyz(380 + 400 * fabsf(x.f)))))
    E1("observer", (r.add3(Observer(x.s, x.s2, x.s).fromSpectrum(x.s2))))
    E2("chart", for (auto &t : Macbeth::reference(x.s, x.o)) r.add3(t))
    E2("chart default observer", for (auto &t : Macbeth::reference(x.s)) r.add3(t))
    E2("chart D65", for (auto &t : Macbeth::reference(CIE_D65)) r.add3(t))
    E2("colour samples", for (int i = 0; i < 99; i += 9) r.add3(x.o.fromReflectanceAndLight(TM_30_15::sample[i], x.s)))
    E2("correct to targets", std::vector<Tri> q(x.p.rbegin(), x.p.rend()); r.add9(Corrector::solve((const std::vector<Tri> &)x.p, q)))
    E2("correct", r.add9(Corrector::solve(x.p)))
    E2("correct under light", r.add9(Corrector::solve(x.p, x.s, x.o)))
    E2("makeGamut", Gamut m = Corrector::makeGamut("m", x.p, x.s, x.o); r.add9(m.toXYZ()); r.add9(m.fromXYZ()))
    E2("linear solve", SOLVER::Matrix A(6, 3); SOLVER::Vector b(6), y(3); for (int i = 0; i < 6; i++)
        {
            for (int j = 0; j < 3; j++)
                A[i][j] = x.p[i][j];
            b[i] = x.p[i + 6][0];
        } r.add((float)SOLVER::solve(A, b, y));
        r.add3(y))
    E2("linear solve, other sizes", int n = 1 + (int)(6 * fabsf(x.f)); int m = n + (int)(12 * fabsf(x.f2)); SOLVER::Matrix A(m, n); SOLVER::Vector b(m), y(n);
        for (int i = 0; i < m; i++)
        {
            for (int j = 0; j < n; j++)
                A[i][j] = x.p[(i + j) % 24][j % 3];
            b[i] = x.p[i % 24][1];
        } r.add((float)SOLVER::solve(A, b, y));
        for (int j = 0; j < n; j++) r.add(y[j]))
    E2("linear solve with cut-off", SOLVER::Matrix A(6, 3); SOLVER::Vector b(6), y(3); for (int i = 0; i < 6; i++)
        {
            for (int j = 0; j < 3; j++)
                A[i][j] = x.p[i][j];
            b[i] = x.p[i + 6][0];
        } r.add((float)SOLVER::solve(A, b, y, 0.5f * x.f * x.f));
        r.add3(y))
    E2("svd", SOLVER::Matrix A(5, 3); SOLVER::Matrix V(3, 3); SOLVER::Vector W(3); for (int i = 0; i < 5; i++) for (int j = 0; j < 3; j++) A[i][j] = x.p[i][j];
        r.add((float)SOLVER::svdcmp(A, W, V)); r.add3(W); for (int i = 0; i < 5; i++) r.add3(A[i]))
    E0("stream", MemoryStream st; st.setWriteEndian(x.f > 0 ? MemoryStream::BIG : MemoryStream::LITTLE); st.putFloat(x.f); st.putDouble(x.f2);
        st.putString("abc"); st.seekTo(2); st.putInt16(-3); for (auto c : st.buffer()) r.add(c))
    E0("stream of everything", MemoryStream st; bool big = x.f2 > 0; st.setWriteEndian(big ? MemoryStream::BIG : MemoryStream::LITTLE); st.setReadEndian(big ? MemoryStream::BIG : MemoryStream::LITTLE);
        int64_t v = (int64_t)(1e18f * x.f); st.putInt8((int8_t)v); st.putUint8((uint8_t)(v >> 3)); st.putInt16((int16_t)v); st.putUint16((uint16_t)(v >> 5)); st.putInt32((int32_t)v); st.putUint32((uint32_t)(v >> 7));
        st.putInt64(v); st.putUint64((uint64_t)v * 3); st.putFloat(x.a[0]); st.putDouble(x.b[1]); st.putString("\x80\xff z"); for (auto c : st.buffer()) r.add(c);
        st.seekTo(0); r.add(st.getInt8()); r.add(st.getUint8()); r.add(st.getInt16()); r.add(st.getUint16()); r.add((float)st.getInt32()); r.add((float)st.getUint32());
        r.add((float)st.getInt64()); r.add((float)st.getUint64()); r.add(st.getFloat()); r.add((float)st.getDouble()); for (char c : st.get_string()) r.add(c & 255); r.add((float)st.ftell()))
    E0("two streams", MemoryStream a; uint8_t d[16]; memcpy(d, &x.a, 12); memcpy(d + 12, &x.f, 4); MemoryStream b(d, 16); a.setWriteEndian(MemoryStream::BIG);
        b.setReadEndian(x.f2 > 0.5f ? MemoryStream::BIG : MemoryStream::LITTLE); a.putUint32(b.getUint32()); b.putInt16(7); a.putDouble(x.f2); r.add(b.getInt16());
        a.putInt64(b.getUint32()); b.fseek(3, MemoryStream::TOP); b.putUint32(0xdeadbeefu); a.seekTo(1); r.add(a.getInt16()); r.add(b.getUint16()); r.add(a.ftell()); r.add(b.ftell());
        for (auto c : a.buffer()) r.add(c); for (auto c : b.buffer()) r.add(c))
    E0("profile", Gamut m = loadGamutFromICCProfileMemory(&x.a, sizeof(x.a)); r.add9(m.toXYZ()))
};
const int NFN = sizeof(TABLE) / sizeof(TABLE[0]);
static void invoke(const Key &k, Pool &q, Slots &z, bool inPlace, Out &r)
{
    r.n = 0;
    if (!inPlace)
    {
        Args x{q.t[k.a], q.t[k.b], q.w[k.w], q.f[k.f], q.f[k.f2], q.s[k.s], q.s[k.s2], q.o[k.o], q.p[k.p], q.g[k.g], q.g[k.g2]};
        TABLE[k.fn].fn(x, r);
        return;
    }
    z.a = q.t[k.a], z.b = q.t[k.b], z.w = q.w[k.w], z.f = q.f[k.f], z.f2 = q.f[k.f2];
    if (TABLE[k.fn].cost)
        z.s = q.s[k.s], z.s2 = q.s[k.s2], z.o = q.o[k.o];
    if (TABLE[k.fn].cost == 2)
        z.p = q.p[k.p];
    z.g = q.g[k.g], z.g2 = q.g[k.g2];
    Args x{z.a, z.b, z.w, z.f, z.f2, z.s, z.s2, z.o, z.p, z.g, z.g2};
    TABLE[k.fn].fn(x, r);
}