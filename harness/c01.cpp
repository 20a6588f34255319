// C01: 3x3 matrix algebra agrees with exact linear algebra
#include "cs.hpp"

static void nearMat(Ctx &c, const char *what, const Mat &got, const D9 &want, const D9 &tol)
{
    for (int i = 0; i < 9; i++)
        c.near(what, got[i], want[i], tol[i] + TINY);
}
static void nearVec(Ctx &c, const char *what, const Vector3 &got, const D3 &want, const D3 &tol)
{
    for (int i = 0; i < 3; i++)
        c.near(what, got[i], want[i], tol[i] + TINY);
}
static D9 scaled(const D9 &a, double k)
{
    D9 r;
    for (int i = 0; i < 9; i++)
        r[i] = a[i] * k;
    return r;
}
static D3 scaled3(const D3 &a, double k) { return D3{{a[0] * k, a[1] * k, a[2] * k}}; }

PROPERTY(algebra, 3000000, 60000000, 0.06,
    "two matrices of any shape (diagonal, permutation, sparse, triangular, graded, integer, dense; scale 1e-4..1e4 or 1e-9..1e9), a "
    "vector and a scalar; every product, sum (of a matrix with itself too), scaling, transpose, row/column and determinant compared with double "
    "precision; non-trivial: neither matrix is a multiple of the identity or zero")
{
    bool    wide = c.s.draw(4) == 0;
    double  lo = wide ? 1e-9 : 1e-4, hi = wide ? 1e9 : 1e4;
    Mat     a = matrix(c.s, lo, hi), b = matrix(c.s, lo, hi);
    Tri     t = svec(c.s, lo, hi);
    Vector3 v = t.vec3();
    float   k = smag(c.s, 1e-4, 1e4);
    c.note9("A", a);
    c.note9("B", b);
    c.note3("v", v);
    c.note("k", k);
    D9   A = d9(a), B = d9(b);
    D3   V = d3(v);
    bool triv = true;
    for (int i = 0; i < 9; i++)
        if (i % 4 ? (A[i] != 0 || B[i] != 0) : (A[i] != A[0] || B[i] != B[0]))
            triv = false;
    if (!triv)
        c.nontrivial();
    D9 P = dmul(A, B), PT = scaled(dmul(dabs9(A), dabs9(B)), 6 * EPS);
    nearMat(c, "mul(A,B)", Mat::mul(a, b), P, PT);
    nearMat(c, "A.mul(B)", a.mul(b), P, PT);
    D3 W = dapply(A, V), WT = scaled3(dapply(dabs9(A), dabs3(V)), 6 * EPS);
    nearVec(c, "apply(A,v)", Mat::apply(a, v), W, WT);
    nearVec(c, "A.apply(v)", a.apply(v), W, WT);
    nearVec(c, "Tristimulus::apply(t,A)", Tri::apply(t, a).vec3(), W, WT);
    nearVec(c, "t.apply(A)", t.apply(a).vec3(), W, WT);
    D9 S, ST, K, KT, Q, QT, T;
    for (int i = 0; i < 9; i++)
    {
        S[i]  = A[i] + B[i];
        ST[i] = 3 * EPS * std::fabs(S[i]);
        K[i]  = A[i] * k;
        KT[i] = 3 * EPS * std::fabs(K[i]);
        Q[i]  = k != 0 ? A[i] / k : 0;
        QT[i] = 6 * EPS * std::fabs(Q[i]);
        T[i]  = A[(i % 3) * 3 + i / 3];
    }
    nearMat(c, "add(A,B)", Mat::add(a, b), S, ST);
    nearMat(c, "A.add(B)", a.add(b), S, ST);
    nearMat(c, "mul(A,k)", Mat::mul(a, k), K, KT);
    nearMat(c, "A.mul(k)", a.mul(k), K, KT);
    if (k != 0)
    {
        nearMat(c, "div(A,k)", Mat::div(a, k), Q, QT);
        nearMat(c, "A.div(k)", a.div(k), Q, QT);
    }
    // one object in both places
    {
        D9 AA = dmul(A, A), AT = scaled(dmul(dabs9(A), dabs9(A)), 6 * EPS), D2, DT;
        nearMat(c, "mul(A,A)", Mat::mul(a, a), AA, AT);
        nearMat(c, "A.mul(A)", a.mul(a), AA, AT);
        for (int i = 0; i < 9; i++)
            D2[i] = 2 * A[i], DT[i] = 3 * EPS * std::fabs(D2[i]);
        nearMat(c, "add(A,A)", Mat::add(a, a), D2, DT);
        nearMat(c, "A.add(A)", a.add(a), D2, DT);
    }
    D9 Z = scaled(A, 0);
    nearMat(c, "transpose(A)", Mat::transpose(a), T, Z);
    nearMat(c, "A.transpose()", a.transpose(), T, Z);
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
        {
            c.check(a.row(i)[j] == a[i * 3 + j], "row(i)[j] is not the element (i,j)");
            c.check(a.col(i)[j] == a[j * 3 + i], "col(i)[j] is not the element (j,i)");
        }
    double det = ddet(A), dt = 16 * EPS * dperm(A) + 1e-40;
    c.near("det(A)", Mat::det(a), det, dt);
    c.near("A.det()", a.det(), det, dt);
    // construction
    float arr[9];
    for (int i = 0; i < 9; i++)
        arr[i] = a[i];
    Mat f = Mat::fromArray(arr);
    Mat d = Mat::diag(v);
    Mat e;
    c.check(f.size() == 9 && v.size() == 3, "size");
    int n = 0;
    for (float x : f)
    {
        c.check(x == arr[n], "fromArray/begin/end element");
        n++;
    }
    c.check(n == 9, "iteration length");
    for (int i = 0; i < 9; i++)
    {
        c.check(d[i] == (i % 4 ? 0.f : v[i / 4]), "diag(v) element");
        c.check(e[i] == (i % 4 ? 0.f : 1.f), "default matrix is not the identity");
    }
    c.check(v[0] == v.x() && v[1] == v.y() && v[2] == v.z(), "x,y,z accessors");
}

PROPERTY(inverse, 4000000, 80000000, 0.06,
    "a matrix of any shape and scale 1e-6..1e6 (1e-9..1e9 in a quarter of the cases); inverted when its determinant is well above rounding (16 eps * "
    "permanent / |det| < 2e-3); entries compared with Gauss-Jordan in double, product with its inverse compared with the "
    "identity, a vector multiplied there and back restored; non-trivial: inverted and not diagonal")
{
    bool   wide = c.s.draw(4) == 0;
    Mat    a = wide ? matrix(c.s, 1e-9, 1e9) : matrix(c.s, 1e-6, 1e6);
    Tri    v = svec(c.s, 1e-3, 1e3);
    c.note9("A", a);
    c.note3("v", v);
    D9     A   = d9(a);
    double det = ddet(A), rel = std::fabs(det) > 0 ? 16 * EPS * dperm(A) / std::fabs(det) : 1e9;
    if (!(rel < 2e-3) || std::fabs(det) < 1e-30 || std::fabs(det) > 1e30)
    {
        c.label("skipped: near singular");
        return;
    }
    bool diag = true;
    for (int i = 0; i < 9; i++)
        if (i % 4 && A[i] != 0)
            diag = false;
    if (!diag)
        c.nontrivial();
    c.label(det < 0 ? "orientation reversing" : "orientation preserving");
    if (std::fabs(det) < 1e-6)
        c.label("|det| < 1e-6");
    D9     I    = dinv(A), Aa = dabs9(A);
    double cond = dnorm9(A) * dnorm9(I);
    Mat    i1 = Mat::invert(a), i2 = a.invert();
    D9     tol;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
        {
            int    r0 = j == 0 ? 1 : 0, r1 = j == 2 ? 1 : 2, c0 = i == 0 ? 1 : 0, c1 = i == 2 ? 1 : 2;
            double cof = Aa[r0 * 3 + c0] * Aa[r1 * 3 + c1] + Aa[r0 * 3 + c1] * Aa[r1 * 3 + c0];
            double t   = 8 * EPS * cof / std::fabs(det) + std::fabs(I[i * 3 + j]) * (rel + 8 * EPS);
            tol[i * 3 + j] = std::max(t, 4 * EPS * cond * dnorm9(I)) + 1e-38;
        }
    nearMat(c, "invert(A)", i1, I, tol);
    nearMat(c, "A.invert()", i2, I, tol);
    // true inverse, judged with the returned values themselves
    D9 P = dmul(A, d9(i1)), PT = dmul(Aa, tol), Pl = dmul(d9(i1), A), PlT = dmul(tol, Aa);
    for (int i = 0; i < 9; i++)
    {
        c.near("A * inverse = identity", P[i], i % 4 ? 0 : 1, PT[i] + 4 * EPS);
        c.near("inverse * A = identity", Pl[i], i % 4 ? 0 : 1, PlT[i] + 4 * EPS);
    }
    D3      V = d3(v);
    Vector3 w = a.invert().apply(a.apply(v.vec3()));
    D3      t = dapply(tol, dapply(Aa, dabs3(V))), t2 = dapply(dabs9(I), dapply(Aa, dabs3(V)));
    for (int i = 0; i < 3; i++)
        c.near("vector there and back", w[i], V[i], t[i] + 12 * EPS * t2[i] + TINY);
}

PROPERTY(crosstalk, 1000000, 10000000, 0.05,
    "amount r in -2..3 (round values and values around 0, 1/3, 1/2, 1 included) and a colour; non-trivial: r != 0")
{
    float r;
    switch (c.s.draw(4))
    {
    case 0:
        r = (c.s.coin() ? -1 : 1) * nice(c.s);
        if (std::fabs(r) > 3)
            r = 0.1f;
        break;
    case 1: {
        static const float B[] = {0.f, 1.f / 3, 0.5f, 1.f, 0.25f, -1.f};
        r = (float)(B[c.s.draw(6)] + c.s.uniform(-1, 1) * c.s.logu(1e-6, 1e-1));
        break;
    }
    default:
        r = (float)c.s.uniform(-2, 3);
    }
    Tri t = svec(c.s, 1e-3, 1e3);
    c.note("r", r);
    c.note3("colour", t);
    if (r != 0)
        c.nontrivial();
    Mat    m = Mat::crosstalk(r);
    double R = r, a = 1 - 2 * R, sc = std::fabs(a) + 2 * std::fabs(R) + 1;
    for (int i = 0; i < 9; i++)
        c.near("crosstalk element", m[i], i % 4 ? R : a, 4 * EPS * sc);
    float   g = t[0];
    Vector3 n = m.apply(Vector3(g, g, g));
    for (int i = 0; i < 3; i++)
        c.near("neutral kept", n[i], g, 8 * EPS * sc * std::fabs(g) + TINY);
    double d = 1 - 3 * R;
    if (std::fabs(d) > 1e-4)
    {
        Mat    iv = Mat::crosstalkInvert(r);
        double tol = EPS * sc / std::fabs(d) * (8 + 8 / std::fabs(d));
        for (int i = 0; i < 9; i++)
            c.near("crosstalkInvert element", iv[i], i % 4 ? -R / d : (1 - R) / d, tol * 2);
        Vector3 b = iv.apply(m.apply(t.vec3()));
        double  mx = dmax3(d3(t));
        for (int i = 0; i < 3; i++)
            c.near("crosstalk undone", b[i], t[i], mx * sc * tol * 8 + TINY);
    }
}
