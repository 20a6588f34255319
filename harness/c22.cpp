// C22: linear solver
#include "cs.hpp"
using SOLVER::Matrix;
using SOLVER::Vector;
typedef std::vector<std::vector<double>> DM;

// one-sided Jacobi SVD in double: columns of a become U*W
static void jacobi(DM &a, std::vector<double> &w, DM &v)
{
    int m = (int)a.size(), n = (int)a[0].size();
    v.assign(n, std::vector<double>(n, 0));
    for (int i = 0; i < n; i++)
        v[i][i] = 1;
    for (int sweep = 0; sweep < 60; sweep++)
    {
        bool rot = false;
        for (int p = 0; p < n; p++)
            for (int q = p + 1; q < n; q++)
            {
                double al = 0, be = 0, ga = 0;
                for (int i = 0; i < m; i++)
                    al += a[i][p] * a[i][p], be += a[i][q] * a[i][q], ga += a[i][p] * a[i][q];
                if (std::fabs(ga) <= 1e-15 * std::sqrt(al * be) || ga == 0)
                    continue;
                rot        = true;
                double z   = (be - al) / (2 * ga), t = (z >= 0 ? 1 : -1) / (std::fabs(z) + std::sqrt(1 + z * z));
                double cs  = 1 / std::sqrt(1 + t * t), sn = cs * t;
                for (int i = 0; i < m; i++)
                {
                    double x = a[i][p], y = a[i][q];
                    a[i][p] = cs * x - sn * y, a[i][q] = sn * x + cs * y;
                }
                for (int i = 0; i < n; i++)
                {
                    double x = v[i][p], y = v[i][q];
                    v[i][p] = cs * x - sn * y, v[i][q] = sn * x + cs * y;
                }
            }
        if (!rot)
            break;
    }
    w.assign(n, 0);
    for (int j = 0; j < n; j++)
    {
        for (int i = 0; i < m; i++)
            w[j] += a[i][j] * a[i][j];
        w[j] = std::sqrt(w[j]);
    }
}
struct Sys
{
    int                m, n;
    std::vector<float> a, b;
    const char        *kind;
    float  at(int i, int j) const { return a[i * n + j]; }
    Matrix mat() const
    {
        Matrix r(m, n);
        for (int i = 0; i < m; i++)
            for (int j = 0; j < n; j++)
                ((i + j) & 1 ? r[i][j] : r.v(i, j)) = at(i, j); // both ways of naming an element
        return r;
    }
    DM dmat() const
    {
        DM r(m, std::vector<double>(n));
        for (int i = 0; i < m; i++)
            for (int j = 0; j < n; j++)
                r[i][j] = at(i, j);
        return r;
    }
};
static double noise(u64 &w)
{
    w = pbt::mix(w);
    return (double)(w >> 11) / (double)(1ull << 52) - 1.0;
}
static void genSys(Ctx &c, Sys &s)
{
    s.n = c.s.draw(3) ? c.s.range(1, 6) : c.s.range(1, 12);
    s.m = s.n + (c.s.draw(3) ? c.s.range(0, 5) : c.s.range(0, 18));
    if (c.s.draw(60) == 59)
    { // occasionally tall, wide or both
        s.n = c.s.coin() ? c.s.range(1, 9) : c.s.range(10, 40);
        s.m = s.n + (c.s.coin() ? c.s.range(0, 20) : c.s.range(20, 300));
        c.label("large system");
    }
    s.a.assign(s.m * s.n, 0.f);
    s.b.assign(s.m, 0.f);
    double scale = c.s.draw(3) ? 1 : c.s.draw(4) ? c.s.logu(1e-4, 1e4) : c.s.logu(1e-12, 1e12);
    u64    w     = c.s.draw(1ull << 32);
    auto   A     = [&](int i, int j) -> float     &{ return s.a[i * s.n + j]; };
    switch (c.s.draw(11))
    {
    case 10: { // only a run of rows (per column the same or shifted) is filled, so leading and trailing parts vanish
        s.kind  = "banded or zero leading rows";
        int  f  = (int)c.s.draw(s.m), l = c.s.range(f, s.m - 1);
        bool sh = c.s.coin();
        for (int i = 0; i < s.m; i++)
            for (int j = 0; j < s.n; j++)
            {
                int q = sh ? i - j : i;
                if (q >= f && q <= l)
                    A(i, j) = (float)(scale * noise(w));
            }
        break;
    }
    case 9: { // every singular value repeated: copies of one block, rows interleaved (a colour corrector's system)
        s.kind = "repeated blocks";
        int nb = c.s.range(1, 4), cp = c.s.range(2, 4), pad = c.s.range(0, 3);
        int mb = nb + (c.s.draw(30) == 29 ? c.s.range(9, 80) : c.s.range(0, 8));
        s.n = nb * cp, s.m = mb * cp + pad;
        s.a.assign(s.m * s.n, 0.f), s.b.assign(s.m, 0.f);
        for (int i = 0; i < mb; i++)
            for (int j = 0; j < nb; j++)
            {
                float x = (float)noise(w);
                for (int k = 0; k < cp; k++)
                    A(i * cp + k, k * nb + j) = x;
            }
        break;
    }
    case 0:
        s.kind = "small integers";
        for (float &x : s.a)
            x = (float)((int)c.s.draw(7) - 3);
        break;
    case 1: { // integers of exact low rank
        s.kind = "exactly rank deficient";
        int r  = c.s.range(1, s.n);
        std::vector<int> p(s.m * r), q(r * s.n);
        for (int &x : p)
            x = (int)(pbt::mix(w++) % 5) - 2;
        for (int &x : q)
            x = (int)(pbt::mix(w++) % 5) - 2;
        for (int i = 0; i < s.m; i++)
            for (int j = 0; j < s.n; j++)
            {
                int t = 0;
                for (int k = 0; k < r; k++)
                    t += p[i * r + k] * q[k * s.n + j];
                A(i, j) = (float)t;
            }
        break;
    }
    case 2:
        s.kind = "sparse";
        for (float &x : s.a)
            x = c.s.draw(3) ? 0.f : (float)(scale * noise(w));
        break;
    case 3: { // block structure, as the colour corrector builds
        s.kind = "block sparse";
        int bl = c.s.range(1, s.n);
        for (int i = 0; i < s.m; i++)
            for (int j = 0; j < s.n; j++)
                A(i, j) = (i % bl) == (j % bl) ? (float)(scale * noise(w)) : 0.f;
        break;
    }
    case 4: { // columns of different size
        s.kind   = "graded";
        int keep = (int)c.s.draw(s.n);
        for (int j = 0; j < s.n; j++)
        {
            double k = j == keep || c.s.draw(6) < 5 ? c.s.logu(1e-2, 1) : c.s.logu(1e-14, 3e-9); // ordinary, or negligible but not zero
            for (int i = 0; i < s.m; i++)
                A(i, j) = (float)(scale * k * noise(w));
        }
        break;
    }
    case 5: { // duplicated or zero columns / rows
        s.kind = "duplicate or zero columns and rows";
        for (float &x : s.a)
            x = (float)(scale * noise(w));
        int j = (int)c.s.draw(s.n), k = (int)c.s.draw(s.n), i = (int)c.s.draw(s.m);
        for (int r = 0; r < s.m; r++)
            A(r, j) = c.s.coin() && j == k ? 0.f : A(r, k);
        for (int q = 0; q < s.n; q++)
            A(i, q) = 0;
        break;
    }
    case 6:
        s.kind = c.s.coin() ? "zero" : "diagonal";
        if (s.kind[0] == 'd')
            for (int j = 0; j < s.n; j++)
                A(j, j) = c.s.draw(4) ? (float)(scale * c.s.uniform(-1, 1)) : 0.f;
        break;
    default:
        s.kind = "dense";
        for (float &x : s.a)
            x = (float)(scale * noise(w));
    }
    if (c.s.draw(3) == 0) // consistent right-hand side
        for (int j = 0; j < s.n; j++)
        {
            double x = (double)c.s.range(-3, 3);
            for (int i = 0; i < s.m; i++)
                s.b[i] += (float)(x * A(i, j));
        }
    else
        for (float &x : s.b)
            x = (float)(scale * noise(w));
    c.notef("%s %dx%d scale %.4g", s.kind, s.m, s.n, scale);
    if (c.verbose && s.m * s.n <= 36)
    {
        std::string t;
        char        b[32];
        for (int i = 0; i < s.m; i++)
        {
            for (int j = 0; j < s.n; j++)
                snprintf(b, sizeof b, "%.7g ", A(i, j)), t += b;
            snprintf(b, sizeof b, "| %.7g / ", s.b[i]), t += b;
        }
        c.notef("[%s]", t.c_str());
    }
    c.label(s.kind);
}
PROPERTY(svd, 900000, 12000000, 0.1,
    "matrix up to 340x40, mostly below 30x12 (dense, sparse, block, graded, integer, exactly rank deficient, duplicated or zero columns, "
    "diagonal, zero): U W V^T reproduces it, V is orthonormal, W non-negative, the columns of U of non-zero singular values "
    "are orthonormal, the singular values equal those of a double precision Jacobi SVD; non-trivial: not zero")
{
    Sys s;
    genSys(c, s);
    Matrix U = s.mat(), V(s.n, s.n);
    Vector W(s.n);
    int    r = SOLVER::svdcmp(U, W, V);
    c.check(r >= 0, "decomposition reported failure");
    double fro = 0;
    for (float x : s.a)
        fro += (double)x * x;
    fro = std::sqrt(fro);
    if (fro > 0)
        c.nontrivial();
    double rec = 0, orth = 0, uo = 0, sz = 1 + s.m / 50.0;
    for (int i = 0; i < s.m; i++)
        for (int j = 0; j < s.n; j++)
        {
            double t = 0;
            for (int k = 0; k < s.n; k++)
                t += (double)U[i][k] * W[k] * V[j][k];
            rec += (t - s.at(i, j)) * (t - s.at(i, j));
        }
    c.near("reconstruction", std::sqrt(rec), 0, 2e-5 * sz * fro);
    double wmax = 0;
    for (int j = 0; j < s.n; j++)
    {
        c.check(W[j] >= 0, "negative or NaN singular value");
        wmax = std::max(wmax, (double)W[j]);
    }
    for (int i = 0; i < s.n; i++)
        for (int j = 0; j < s.n; j++)
        {
            double t = 0;
            for (int k = 0; k < s.n; k++)
                t += (double)V[k][i] * V[k][j];
            orth = std::max(orth, std::fabs(t - (i == j)));
            if (W[i] > 1e-4 * wmax && W[j] > 1e-4 * wmax)
            {
                double u = 0;
                for (int k = 0; k < s.m; k++)
                    u += (double)U[k][i] * U[k][j];
                uo = std::max(uo, std::fabs(u - (i == j)));
            }
        }
    c.near("V orthonormal", orth, 0, 2e-5 * sz);
    c.near("U orthonormal", uo, 0, 2e-5 * sz);
    DM                  a = s.dmat(), v;
    std::vector<double> w, g;
    jacobi(a, w, v);
    for (int j = 0; j < s.n; j++)
        g.push_back(W[j]);
    std::sort(w.begin(), w.end());
    std::sort(g.begin(), g.end());
    for (int j = 0; j < s.n; j++)
        c.near("singular values", g[j], w[j], 2e-5 * sz * fro);
}
PROPERTY(solve, 900000, 12000000, 0.1,
    "the same systems with consistent or arbitrary right-hand sides and the default or a given rank tolerance: the solution "
    "equals the minimum-norm least-squares solution that drops singular values below the tolerance times the largest "
    "(pseudo-inverse in double) within a condition-number bound, compared unless a singular value lies so close to the "
    "threshold that its rank is ambiguous (default tolerance: 1e-7..3e-3 of the largest); inputs unchanged; "
    "non-trivial: not zero")
{
    Sys s;
    genSys(c, s);
    Matrix A = s.mat();
    Vector b(s.m), x(s.n);
    for (int i = 0; i < s.m; i++)
        b[i] = s.b[i];
    for (int j = 0; j < s.n; j++)
        x[j] = 7.f; // stale content must not matter
    bool  own = c.s.draw(4) == 3;
    float tl  = own ? (float)c.s.logu(2e-3, 0.9) : 1e-5f;
    c.note("rank tolerance", tl);
    int r = own ? SOLVER::solve(A, b, x, tl) : SOLVER::solve(A, b, x);
    c.check(r >= 0, "solve reported failure");
    for (int i = 0; i < s.m; i++)
    {
        c.check(b[i] == s.b[i], "right-hand side changed");
        for (int j = 0; j < s.n; j++)
            c.check(A[i][j] == s.at(i, j), "matrix changed");
    }
    DM                  a = s.dmat(), v;
    std::vector<double> w;
    jacobi(a, w, v);
    double wmax = *std::max_element(w.begin(), w.end()), wmin = wmax, wdrop = 0;
    double zlo = own ? tl * 0.97 : 1e-7, zhi = own ? tl * 1.03 : 3e-3, sz = 1 + s.m / 50.0;
    if (wmax > 0)
        c.nontrivial();
    for (double t : w)
    {
        if (t > zlo * wmax && t < zhi * wmax)
        {
            c.label("ambiguous rank, not compared");
            return;
        }
        if (t >= zhi * wmax)
            wmin = std::min(wmin, t);
        else
            wdrop = std::max(wdrop, t);
    }
    if (own && wdrop > 1e-6 * wmax)
        c.label("rank reduced by the given tolerance");
    std::vector<double> want(s.n, 0);
    for (int k = 0; k < s.n; k++)
        if (w[k] >= zhi * wmax && w[k] > 0)
        {
            double t = 0;
            for (int i = 0; i < s.m; i++)
                t += a[i][k] * s.b[i];
            t /= w[k] * w[k];
            for (int j = 0; j < s.n; j++)
                want[j] += v[j][k] * t;
        }
    double nx = 0, nb = 0, nr = 0, err = 0;
    for (int j = 0; j < s.n; j++)
        nx += want[j] * want[j], err += (x[j] - want[j]) * (x[j] - want[j]);
    for (int i = 0; i < s.m; i++)
    {
        double t = s.b[i];
        for (int j = 0; j < s.n; j++)
            t -= (double)s.at(i, j) * want[j];
        nr += t * t;
        nb += (double)s.b[i] * s.b[i];
    }
    nx = std::sqrt(nx), nb = std::sqrt(nb), nr = std::sqrt(nr), err = std::sqrt(err);
    double kap = wmax > 0 ? wmax / wmin : 1;
    double tol = wmax > 0 ? 1e-5 * sz * (kap * nx + kap * kap * nr / wmax + nb / wmin) : 0;
    if (wdrop > 1e-6 * wmax) // kept and dropped subspaces are only separated by their gap
        tol = 1e-5 * sz * wmax / (wmin - wdrop) * (2 * kap * nx + 2 * kap * kap * nb / wmax);
    c.near("least-squares solution", err, 0, tol + 1e-30);
}
PROPERTY(underdetermined, 300000, 3000000, 0.2,
    "systems with fewer equations than unknowns: both solve and svdcmp must report failure (negative return) without "
    "touching memory outside their arguments; non-trivial: all")
{
    int n = c.s.draw(8) ? c.s.range(1, 12) : c.s.range(13, 60), m = c.s.draw(3) ? c.s.range(0, n - 1) : n - 1;
    if (m == 0)
        return; // an empty matrix has no columns either
    Matrix A(m, n);
    Vector b(m), x(n), w(n);
    Matrix v(n, n);
    u64    k = c.s.draw(1ull << 32);
    for (int i = 0; i < m; i++)
    {
        b[i] = (float)noise(k);
        for (int j = 0; j < n; j++)
            A[i][j] = (float)noise(k);
    }
    c.notef("%dx%d", m, n);
    c.nontrivial();
    c.check(SOLVER::solve(A, b, x) < 0, "underdetermined system solved without failure");
    c.check(SOLVER::svdcmp(A, w, v) < 0, "underdetermined decomposition without failure");
}
PROPERTY(hostile, 400000, 5000000, 0.5,
    "matrices with NaN, infinities, values up to 1e38 or subnormals anywhere: must return (no endless loop) and stay "
    "inside its arguments (AddressSanitizer build); non-trivial: all")
{
    int    n = c.s.range(1, 8), m = n + c.s.range(0, 6);
    Matrix A(m, n);
    Vector b(m), x(n);
    u64    k    = c.s.draw(1ull << 32);
    int    mode = (int)c.s.draw(4);
    for (int i = 0; i < m; i++)
    {
        b[i] = (float)noise(k);
        for (int j = 0; j < n; j++)
            A[i][j] = (float)noise(k) * (mode == 1 ? 3e38f : mode == 2 ? 1e-42f : 1.f);
    }
    int bad = c.s.range(mode == 0 ? 1 : 0, 4);
    static const float Q[] = {NAN, INFINITY, -INFINITY, 3e38f, -3e38f, 1e-45f, 1e30f, 1e-30f};
    for (int q = 0; q < bad; q++)
        A[(int)c.s.draw(m)][(int)c.s.draw(n)] = Q[c.s.draw(8)];
    if (c.s.draw(4) == 0)
        b[(int)c.s.draw(m)] = Q[c.s.draw(8)];
    c.notef("%dx%d mode %d", m, n, mode);
    c.nontrivial();
    SOLVER::solve(A, b, x);
}
PROPERTY(tolerance, 600000, 8000000, 0.3,
    "systems whose singular values are known exactly (at most one non-zero of either sign per unknown, in rows of any order, spare "
    "rows empty, sizes graded over up to seven decades) solved with the default tolerance or one given: zero, 1e-9..1, or "
    "above 1: unknown j is b_i/d_i where |d_i| reaches the tolerance times the largest and zero elsewhere; values within 5 % "
    "of the threshold are not compared; non-trivial: some unknown is kept and some |d_i| is below 1e-5 of the largest or dropped")
{
    int              n = c.s.range(1, 8), m = n + c.s.range(0, 5);
    std::vector<int> row(m);
    for (int i = 0; i < m; i++)
        row[i] = i;
    if (c.s.coin())
        for (int i = m - 1; i > 0; i--)
            std::swap(row[i], row[c.s.draw(i + 1)]);
    float tl = 1e-5f;
    bool  def = false;
    switch (c.s.draw(5))
    {
    case 0: tl = 0.f; break;
    case 1: def = true; break;
    case 2: tl = (float)c.s.uniform(1, 3); break;
    default: tl = (float)c.s.logu(1e-9, 1);
    }
    double             scale = c.s.draw(3) ? 1 : c.s.logu(1e-6, 1e6);
    std::vector<float> d(n), b0(m);
    Matrix             A(m, n);
    Vector             b(m), x(n);
    double             wmax = 0;
    for (int i = 0; i < m; i++)
        for (int j = 0; j < n; j++)
            A[i][j] = 0.f;
    for (int j = 0; j < n; j++)
    {
        double k = c.s.draw(3) ? c.s.logu(3e-7, 1) : c.s.draw(6) || tl < 1e-5f ? 1 : 0;
        d[j]          = (float)(scale * k * (c.s.coin() ? -1 : 1));
        A[row[j]][j]  = d[j];
        wmax          = std::max(wmax, (double)std::fabs(d[j]));
        x[j]          = 7.f;
    }
    for (int i = 0; i < m; i++)
        b[i] = b0[i] = (float)(scale * c.s.range(-5, 5));
    c.notef("%dx%d tolerance %.9g%s", m, n, tl, def ? " (default)" : "");
    for (int j = 0; j < n; j++)
        c.notef("row %d: %.9g x%d = %.9g", row[j], d[j], j, b0[row[j]]);
    int r = def ? SOLVER::solve(A, b, x) : SOLVER::solve(A, b, x, tl);
    c.check(r >= 0, "solve reported failure");
    bool   kept = false, spec = false;
    double wmin = wmax, bmax = 0; // what a rounding error of the reflections can leak into any unknown
    for (int j = 0; j < n; j++)
        if (std::fabs(d[j]) >= 0.9 * tl * wmax && d[j] != 0)
            wmin = std::min(wmin, (double)std::fabs(d[j]));
    for (float y : b0)
        bmax = std::max(bmax, (double)std::fabs(y));
    for (int j = 0; j < n; j++)
    {
        double a = std::fabs((double)d[j]), th = (double)tl * wmax;
        if (a > 0 && std::fabs(a - th) < 0.05 * th)
        {
            c.label("at the threshold, not compared");
            continue;
        }
        bool   keep = a > 0 && a >= th;
        double want = keep ? (double)b0[row[j]] / d[j] : 0;
        c.near("solution", x[j], want, 1e-5 * std::fabs(want) + (wmin > 0 ? 2e-6 * bmax / wmin : 0) + 1e-30);
        kept = kept || (keep && want != 0);
        spec = spec || a < 1e-5 * wmax || !keep;
    }
    if (kept && spec)
        c.nontrivial();
}
