// C13: linear systems
#include "pbt.h"
#include "SgLinearSolve.h"

namespace {
typedef long double LD;
typedef std::vector<LD> V;

struct M {
    int r = 0, c = 0;
    V a;
    M(int r_, int c_) : r(r_), c(c_), a(r_ * c_, 0) {}
    LD& operator()(int i, int j) { return a[i * c + j]; }
    LD operator()(int i, int j) const { return a[i * c + j]; }
};

// multiply by the reflection I - 2 v v'/(v'v), from the left
void reflect(pbt::Case& c, M& m) {
    V v(m.r);
    LD s = 0;
    for (auto& x : v) { x = c.real(-1, 1); s += x * x; }
    if (s < 0.01L) return;
    for (int j = 0; j < m.c; ++j) {
        LD d = 0;
        for (int i = 0; i < m.r; ++i) d += v[i] * m(i, j);
        for (int i = 0; i < m.r; ++i) m(i, j) -= 2 * d / s * v[i];
    }
}
M transpose(const M& m) {
    M t(m.c, m.r);
    for (int i = 0; i < m.r; ++i)
        for (int j = 0; j < m.c; ++j) t(j, i) = m(i, j);
    return t;
}
// symmetric positive definite or general square system, pivoting
bool gauss(M a, V b, V& x) {
    int n = a.r;
    for (int k = 0; k < n; ++k) {
        int p = k;
        for (int i = k; i < n; ++i)
            if (fabsl(a(i, k)) > fabsl(a(p, k))) p = i;
        if (a(p, k) == 0) return false;
        for (int j = 0; j < n; ++j) std::swap(a(k, j), a(p, j));
        std::swap(b[k], b[p]);
        for (int i = k + 1; i < n; ++i) {
            LD f = a(i, k) / a(k, k);
            for (int j = k; j < n; ++j) a(i, j) -= f * a(k, j);
            b[i] -= f * b[k];
        }
    }
    x.assign(n, 0);
    for (int k = n - 1; k >= 0; --k) {
        LD s = b[k];
        for (int j = k + 1; j < n; ++j) s -= a(k, j) * x[j];
        x[k] = s / a(k, k);
    }
    return true;
}

// full rank matrix with known singular values; returns the condition number
LD fullRank(pbt::Case& c, int nr, int nc, std::vector<double>& out) {
    M m(nr, nc);
    int how = c.pick({4, 2, nr > 6 || nc > 6 ? 0 : 2});
    LD smin = INFINITY, smax = 0;
    double cond = c.oneof<double>({3, 1, 30, 1000});
    double scale = c.oneof<double>({1, 1e-3, 100, 1e6});
    for (int k = 0; k < std::min(nr, nc); ++k) {
        LD s = std::pow(cond, c.unit());
        smin = std::min(smin, s);
        smax = std::max(smax, s);
        m(k, k) = s * scale;
    }
    if (how == 0) {
        reflect(c, m);
        reflect(c, m);
        M t = transpose(m);
        reflect(c, t);
        reflect(c, t);
        m = transpose(t);
    } else if (how == 1) {
        // permuted diagonal with some signs
        for (int i = nr - 1; i > 0; --i) {
            int j = c.range(0, i);
            for (int k = 0; k < nc; ++k) std::swap(m(i, k), m(j, k));
        }
        for (int j = 0; j < nc; ++j)
            if (c.chance(1, 3))
                for (int i = 0; i < nr; ++i) m(i, j) = -m(i, j);
    } else {
        // upper triangle of small integers
        for (int i = 0; i < nr; ++i)
            for (int j = 0; j < nc; ++j)
                if (j > i) m(i, j) = c.range(-1, 1) * 0.25L * smin * scale;
        smin *= 0.05L;
        smax *= 5;
    }
    out.resize(nr * nc);
    for (int k = 0; k < nr * nc; ++k) out[k] = (double) m.a[k];
    return smax / smin;
}

struct Solver {
    SgLinearSolve_type* p = nullptr;
    Solver(int r, int c) { SgLinearSolve_new(&p, r, c); }
    ~Solver() { SgLinearSolve_del(&p); }
    void mat(const std::vector<double>& a) { SgLinearSolve_setMatrix(&p, a.data()); }
    void rhs(const std::vector<double>& b) { SgLinearSolve_setRightHandSide(&p, b.data()); }
    int solve() { return SgLinearSolve_solve(&p); }
    std::vector<double> x(int n) {
        double* s = nullptr;
        SgLinearSolve_getSolution(&p, &s);
        return std::vector<double>(s, s + n);
    }
    double residual() {
        double r = -1;
        SgLinearSolve_getResidual(&p, &r);
        return r;
    }
};

void verify(int nr, int nc, const std::vector<double>& a, const std::vector<double>& b, const std::vector<double>& x, double res, LD cond) {
    LD na = 0, nb = 0, nx = 0;
    for (double v : a) na += (LD) v * v;
    for (double v : b) nb += (LD) v * v;
    for (double v : x) { CHECK(std::isfinite(v), "solution %g", v); nx += (LD) v * v; }
    na = sqrtl(na);
    nb = sqrtl(nb);
    nx = sqrtl(nx);
    const LD eps = 2.3e-16L;
    LD tolr = 200 * eps * (na * nx + nb) * std::max(nr, nc);
    M A(nr, nc);
    for (int k = 0; k < nr * nc; ++k) A.a[k] = a[k];
    V r(nr);
    LD l1 = 0;
    for (int i = 0; i < nr; ++i) {
        LD s = -(LD) b[i];
        for (int j = 0; j < nc; ++j) s += A(i, j) * x[j];
        r[i] = s;
        l1 += fabsl(s);
    }
    CHECK(fabsl(res - l1) <= tolr, "residual %.17g, should be %.17Lg", res, l1);
    if (nr <= nc)
        CHECK(l1 <= tolr * nr, "the equations are not satisfied, residual %Lg (tolerance %Lg)", l1, tolr * nr);
    // solution in extended precision
    V want;
    if (nr >= nc) {
        M n(nc, nc);
        V t(nc, 0);
        for (int i = 0; i < nc; ++i) {
            for (int j = 0; j < nc; ++j)
                for (int k = 0; k < nr; ++k) n(i, j) += A(k, i) * A(k, j);
            for (int k = 0; k < nr; ++k) t[i] += A(k, i) * b[k];
        }
        CHECK(gauss(n, t, want), "reference");
    } else {
        M n(nr, nr);
        V t(nr), y;
        for (int i = 0; i < nr; ++i) {
            for (int j = 0; j < nr; ++j)
                for (int k = 0; k < nc; ++k) n(i, j) += A(i, k) * A(j, k);
            t[i] = b[i];
        }
        CHECK(gauss(n, t, y), "reference");
        want.assign(nc, 0);
        for (int j = 0; j < nc; ++j)
            for (int i = 0; i < nr; ++i) want[j] += A(i, j) * y[i];
    }
    LD nw = 0, d = 0;
    for (int j = 0; j < nc; ++j) {
        nw += want[j] * want[j];
        d += (want[j] - x[j]) * (want[j] - x[j]);
    }
    LD smin = na / std::max(1.L, sqrtl((LD) std::min(nr, nc))) / cond;
    LD tolx = 1e4L * eps * cond * (sqrtl(nw) + cond * nb / std::max(na, 1e-300L)) + 1e-17L * nb / smin;
    CHECK(sqrtl(d) <= tolx, "%d x %d: the solution is %Lg away from the %s solution of norm %Lg (tolerance %Lg)", nr, nc, sqrtl(d),
          nr == nc ? "" : (nr > nc ? "least squares" : "minimum norm"), sqrtl(nw), tolx);
}

// a matrix with a row of zeros (a column if there are more equations than unknowns) has no inverse
void singular(pbt::Case& c) {
    int nr = c.range(1, 6), nc = c.range(1, 6);
    if (nr == 1 && nc == 1) nc = 2;
    if (std::min(nr, nc) == 1) nr = nc = std::max(nr, nc);
    std::vector<double> a, bad, b(nr);
    LD cond = fullRank(c, nr, nc, a);
    for (auto& v : b) v = c.nice(2);
    bad = a;
    int zero = c.range(0, std::min(nr, nc) - 1);
    if (nr <= nc) zero = c.range(0, nr - 1);
    else zero = c.range(0, nc - 1);
    for (int i = 0; i < nr; ++i)
        for (int j = 0; j < nc; ++j)
            if ((nr <= nc ? i : j) == zero) bad[i * nc + j] = 0;
    if (c.verbose) { c.note("%d x %d, zero %s %d, A {", nr, nc, nr <= nc ? "row" : "column", zero); for (double v : bad) c.note(" %.17g", v); c.note(" }"); }
    Solver o(nr, nc);
    int steps = c.range(1, 4);
    for (int s = 0; s < steps; ++s) {
        bool good = s > 0 && c.chance(1, 2);
        o.mat(good ? a : bad);
        o.rhs(b);
        int ier = o.solve();
        if (good) {
            CHECK(ier == 0, "solve returns %d", ier);
            verify(nr, nc, a, b, o.x(nc), o.residual(), cond);
        } else {
            CHECK(ier > 0, "%d x %d matrix with a zero %s %d, solve returns %d", nr, nc, nr <= nc ? "row" : "column", zero, ier);
        }
        c.label(good, "solved after a failure");
    }
    c.nontrivial = true;
    c.label("singular");
}

void history(pbt::Case& c) {
    int most = c.chance(1, 100) ? (c.chance(1, 30) ? 150 : 40) : 6;
    int nr = c.range(1, most), nc = c.range(1, most);
    if (c.chance(1, 3)) nc = nr;
    Solver o(nr, nc);
    std::vector<double> a, b(nr);
    LD cond = 1;
    int steps = c.range(1, 4);
    for (int s = 0; s < steps; ++s) {
        bool newA = s == 0 || c.chance(1, 2), newB = s == 0 || c.chance(1, 2);
        if (newA) cond = fullRank(c, nr, nc, a);
        if (newB) {
            double sc = c.oneof<double>({1, 1e-4, 1e5});
            for (auto& v : b) v = sc * c.nice(2);
        }
        if (c.verbose) {
            c.note("%s%d x %d", s ? "; " : "", nr, nc);
            if (newA) { c.note(" A {"); for (double v : a) c.note(" %.17g", v); c.note(" }"); }
            if (newB) { c.note(" b {"); for (double v : b) c.note(" %.17g", v); c.note(" }"); }
        }
        std::vector<double> a0 = a, b0 = b;
        bool order = c.chance(1, 2);
        // the solver holds copies, the caller's arrays change afterwards
        std::vector<double> tmpA = a, tmpB = b;
        if (order && newA) o.mat(tmpA);
        if (newB) o.rhs(tmpB);
        if (!order && newA) o.mat(tmpA);
        CHECK(tmpA == a0 && tmpB == b0, "the arguments were modified");
        for (auto& v : tmpA) v = 77;
        for (auto& v : tmpB) v = -33;
        int times = c.chance(1, 4) ? 2 : 1;
        for (int t = 0; t < times; ++t) {
            int ier = o.solve();
            CHECK(ier == 0, "solve returns %d", ier);
        }
        std::vector<double> x = o.x(nc);
        double res = o.residual();
        CHECK(o.residual() == res && o.x(nc) == x, "getting the residual changes the result");
        verify(nr, nc, a, b, x, res, cond);
        Solver f(nr, nc);
        f.mat(a);
        f.rhs(b);
        f.solve();
        std::vector<double> xf = f.x(nc);
        CHECK(xf == x && f.residual() == res, "step %d: a new object gives another solution", s);
        c.label(times > 1, "solved twice");
        c.label(s > 0 && !newA, "other right hand side, same matrix");
        c.label(s > 0 && !newB, "other matrix, same right hand side");
    }
    c.nontrivial = nr > 1 && nc > 1;
    c.label(nr > 6 || nc > 6, "more than 6 rows or columns");
    c.label(nr == nc ? "square" : (nr > nc ? "over determined" : "under determined"));
}

void regressionShapes() {
    for (int nr = 1; nr <= 4; ++nr)
        for (int nc = 1; nc <= 4; ++nc) {
            std::vector<double> a(nr * nc), b(nr);
            for (int i = 0; i < nr; ++i) {
                b[i] = i + 1;
                for (int j = 0; j < nc; ++j) a[i * nc + j] = (i == j ? 3 : 0) + 0.25 * ((i * 3 + j * 5) % 4);
            }
            Solver o(nr, nc);
            o.mat(a);
            o.rhs(b);
            for (int t = 0; t < 3; ++t) {
                CHECK(o.solve() == 0, "%d x %d", nr, nc);
                verify(nr, nc, a, b, o.x(nc), o.residual(), 100);
            }
        }
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C13";
    p.rule = "full rank matrices of 1-6, now and then up to 40 or 150, rows and columns with chosen singular values (condition up to about 1e5, scale 1e-3 to 1e6), "
             "right hand sides, and histories of new matrix / new right hand side / repeated solve on one object; compared with an "
             "elimination in extended precision (least squares, minimum norm) and with a new object; matrices with a zero row or column, which have to be reported. Non-trivial: at least 2 x 2";
    p.subs = {{"history", 6, history}, {"singular", 1, singular}};
    p.regressions = {{"shapes", regressionShapes}};
    return p;
}
