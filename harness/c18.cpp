// C18: blackbody
#include "cs.hpp"

static const double H = 6.62606896e-34, C0 = 2.99792458e8, KB = 1.3806504e-23, C2 = 1.438776827e-2;
// W / (m^2 sr nm)
static double planck(double T, double l) { return 2 * H * C0 * C0 / std::pow(l, 5) / std::expm1(C2 / (l * T)) * 1e-9; }
static double tolOf(double T, double l)
{
    double x = C2 / (l * T), p = planck(T, l);
    // constants: CODATA releases differ in the seventh digit
    return p * (2e-6 + 2e-7 * x) + (p < 1e-28 ? 1e-38 : 0) + 1e-46;
}
static double genT(Src &s)
{
    static const double K[] = {1000, 1667, 2000, 2222, 2856, 3000, 4000, 5000, 5003, 6500, 6504, 7000, 7500, 10000, 500, 20000, 100000};
    switch (s.draw(4))
    {
    case 0:
        return K[s.draw(17)];
    case 1:
        return (double)s.range(500, 20000);
    case 2:
        return s.draw(4) ? s.logu(500, 100000) : s.logu(1, 1e7);
    default:
        return s.logu(500, 100000);
    }
}
PROPERTY(radiance, 10000000, 150000000, 0.03,
    "temperature 500..100000 K (sometimes 1..1e7 K) and wavelength 200..3000 nm (sometimes 20 nm..1 mm): radiance equals Planck's law in double to 2e-6 (relative, "
    "growing with hc/lkT); positive; non-trivial: radiance above 1e-30")
{
    double T = genT(c.s), l = (c.s.draw(6) == 0 ? c.s.logu(20, 1e6) : c.s.coin() ? c.s.logu(200, 3000) : (double)c.s.range(200, 3000)) * 1e-9;
    c.notef("T=%.12g lambda=%.12g", T, l);
    double g = Spectrum::planck(T, l), w = planck(T, l);
    c.note("radiance", g);
    if (w > 1e-30)
    {
        c.nontrivial();
        c.check(g > 0, "not positive");
    }
    c.near("radiance", g, w, tolOf(T, l));
    // grows with temperature
    double U = T * (1 + c.s.logu(1e-4, 10));
    double h = Spectrum::planck(U, l);
    c.check(h >= g, "radiance falls with temperature");
    if (w > 1e-30)
        c.check(h > g, "radiance does not grow with temperature");
}
PROPERTY(spectrum_, 60000, 1000000, 0.1,
    "blackbody spectrum at a random temperature: all 400 samples equal Planck's law at 380+i nm; the maximum is where "
    "Wien's law puts it, if any sample exceeds 1e-30; non-trivial: all")
{
    float T = (float)genT(c.s);
    c.note("T", T);
    c.nontrivial();
    c.extra    = 399;
    Spectrum s = Spectrum::blackbody(T);
    int      m = 0;
    for (int i = 0; i < 400; i++)
    {
        double l = (380.0 + i) * 1e-9;
        c.near("sample", s[i], planck(T, l), tolOf(T, l));
        if (s[i] > s[m])
            m = i;
    }
    if (s[m] < 1e-30)
        return; // far below a candle flame: every sample rounds to (nearly) nothing
    double peak = 2.897771e6 / T; // nm
    double want = std::min(779.0, std::max(380.0, peak));
    // near the maximum the curve is flat: relative drop d away is about 2.3 (d/peak)^2
    c.near("Wien peak", 380.0 + m, want, 1.5 + peak * 4e-3);
}
