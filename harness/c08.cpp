// C08: Bradford adaptation and illuminants
#include "cs.hpp"

struct Ill
{
    const char *n;
    const Tri  *t;
    double      X, Z;
};
static const Ill ILL[] = {{"A", &Illuminant_A, 1.09850, 0.35585}, {"B", &Illuminant_B, 0.99072, 0.85223},
    {"C", &Illuminant_C, 0.98074, 1.18232}, {"D50", &Illuminant_D50, 0.96422, 0.82521},
    {"D55", &Illuminant_D55, 0.95682, 0.92149}, {"D60", &Illuminant_D60, 0.95265, 1.00883},
    {"D65", &Illuminant_D65, 0.95047, 1.08883}, {"D75", &Illuminant_D75, 0.94972, 1.22638},
    {"E", &Illuminant_E, 1, 1}, {"F2", &Illuminant_F2, 0.99186, 0.67393}, {"F7", &Illuminant_F7, 0.95041, 1.08747},
    {"F11", &Illuminant_F11, 1.00962, 0.64350}};
static const D9 BRAD{{0.8951, 0.2664, -0.1614, -0.7502, 1.7135, 0.0367, 0.0389, -0.0685, 1.0296}};

static D9 ref(const D3 &a, const D3 &b)
{
    static const D9 BI = dinv(BRAD);
    D3              la = dapply(BRAD, a), lb = dapply(BRAD, b);
    D9              d{{lb[0] / la[0], 0, 0, 0, lb[1] / la[1], 0, 0, 0, lb[2] / la[2]}};
    return dmul(BI, dmul(d, BRAD));
}
static double amp(const D3 &a) // cancellation in the cone responses of a white
{
    D3     l = dapply(BRAD, a), m = dapply(dabs9(BRAD), a);
    double r = 0;
    for (int i = 0; i < 3; i++)
        r = std::max(r, m[i] / std::fabs(l[i]));
    return r;
}
SWEEP(illuminants, 12, 1, 1, 1.0, "every named illuminant against its published XYZ (5 decimals); non-trivial: all")
{
    const Ill &i = ILL[c.s.draw(12)];
    c.nontrivial();
    c.notef("illuminant %s", i.n);
    c.near("X", (*i.t)[0], i.X, 2e-6);
    c.near("Y", (*i.t)[1], 1, 0);
    c.near("Z", (*i.t)[2], i.Z, 2e-6);
}
static Tri wh(Ctx &c, const char *n)
{
    Tri w;
    if (c.s.draw(3) == 0)
    {
        const Ill &i = ILL[c.s.draw(12)];
        w            = *i.t;
        if (c.s.draw(4) == 0)
            w = w.scale((float)c.s.logu(1e-3, 1e4));
    }
    else if (c.s.draw(4) == 0)
    { // strongly coloured; a cone response may be negative but not cancel
        w = c.s.coin() ? Tri((float)c.s.uniform(0.4, 2.2), 1.f, (float)c.s.uniform(0.08, 4))
                       : Tri((float)c.s.logu(0.02, 10), 1.f, (float)c.s.logu(0.02, 20));
        D3   l = dapply(BRAD, d3(w)), m = dapply(dabs9(BRAD), d3(w));
        bool ok = true, neg = false;
        for (int i = 0; i < 3; i++)
            ok &= std::fabs(l[i]) > 0.03 * m[i], neg |= l[i] < 0;
        if (!ok)
            w = Tri(1.f, 1.f, 1.f);
        else if (neg)
            c.label("white with a negative cone response");
        w = w.scale((float)c.s.logu(1e-5, 1e5));
    }
    else
        w = white(c.s);
    c.note3(n, w);
    return w;
}
SWEEP(pairs, 144, 1, 1, 1.0, "all 144 ordered pairs of named illuminants; non-trivial: the two differ")
{
    u64 k = c.s.draw(144);
    const Ill &a = ILL[k / 12], &b = ILL[k % 12];
    c.notef("%s -> %s", a.n, b.n);
    if (&a != &b)
        c.nontrivial();
    D3  A{{a.X, 1, a.Z}}, B{{b.X, 1, b.Z}};
    Mat m = Bradford(*a.t, *b.t);
    D9  R = ref(A, B);
    for (int i = 0; i < 9; i++)
        c.near("matrix", m[i], R[i], 1e-5 * std::max(1.0, dnorm9(R)));
    Tri w = a.t->apply(m);
    c.near("white X", w[0], b.X, 6e-6);
    c.near("white Y", w[1], 1, 6e-6);
    c.near("white Z", w[2], b.Z, 6e-6);
}
PROPERTY(adaptation, 6000000, 100000000, 0.04,
    "three whites (named or arbitrary plausible ones, also strongly coloured and imaginary ones with negative cone responses, any luminance 1e-5..1e5, sometimes equal) and a colour; non-trivial: "
    "source and destination differ")
{
    Tri a = wh(c, "source white"), b = wh(c, "destination white"), d = wh(c, "third white");
    if (c.s.draw(8) == 0)
        b = a;
    Tri t = svec(c.s, 1e-3, 1e3);
    c.note3("colour", t);
    D3 A = d3(a), B = d3(b), C = d3(d);
    if (!(a[0] == b[0] && a[1] == b[1] && a[2] == b[2]))
        c.nontrivial();
    else
        c.label("equal whites");
    double k = 3 * (amp(A) + amp(B) + amp(C));
    Mat    m = Bradford(a, b);
    D9     R = ref(A, B);
    double n = dnorm9(R);
    // entries scale with the luminance ratio; cone scaling factors bound the cancellation
    D3     la = dapply(BRAD, A), lb = dapply(BRAD, B), lc = dapply(BRAD, C);
    double sab = 0, sba = 0, sbc = 0;
    for (int i = 0; i < 3; i++)
    {
        sab = std::max(sab, std::fabs(lb[i] / la[i]));
        sba = std::max(sba, std::fabs(la[i] / lb[i]));
        sbc = std::max(sbc, std::fabs(lc[i] / lb[i]));
    }
    double e = 8 * EPS * k;
    for (int i = 0; i < 9; i++)
        c.near("matrix", m[i], R[i], e * (sab + n));
    Tri    w  = a.apply(m);
    double mb = std::max(dmax3(B), sab * dmax3(A));
    for (int i = 0; i < 3; i++)
        c.near("maps white to white", w[i], b[i], e * mb * 2);
    Tri    back = t.apply(m).apply(Bradford(b, a));
    double mx   = dmax3(d3(t));
    for (int i = 0; i < 3; i++)
        c.near("undone by the opposite adaptation", back[i], t[i], e * 8 * sab * sba * mx);
    Mat id = Bradford(a, a);
    for (int i = 0; i < 9; i++)
        c.near("identity for equal whites", id[i], i % 4 ? 0 : 1, 4e-6);
    Tri via = t.apply(m).apply(Bradford(b, d)), dir = t.apply(Bradford(a, d));
    for (int i = 0; i < 3; i++)
        c.near("composes", via[i], dir[i], e * 8 * sab * sbc * mx);
}
