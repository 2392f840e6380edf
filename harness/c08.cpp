// C08: search of the index space position of a point
#include "geom.h"
#include "SgFindPointInCell.h"
using namespace geom;

namespace {

const int MAXD = 5;

// structured grid in 1 to 5 dimensions
struct NGrid {
    int nd = 2;
    int dims[MAXD] = {2, 2, 2, 2, 2}, per[MAXD] = {0, 0, 0, 0, 0};
    std::vector<double> c[MAXD];
    const double* ptr[MAXD];
    std::string kind;
    size_t num() const {
        size_t n = 1;
        for (int i = 0; i < nd; ++i) n *= dims[i];
        return n;
    }
    void alloc() {
        for (int i = 0; i < nd; ++i) {
            c[i].assign(num(), 0);
            ptr[i] = c[i].data();
        }
    }
    // multilinear interpolation of a coordinate
    LD interp(const std::vector<double>& f, const double* d) const {
        int lo[MAXD];
        LD w[MAXD];
        for (int i = 0; i < nd; ++i) {
            lo[i] = std::max(0, std::min(dims[i] - 2, (int) std::floor(d[i])));
            w[i] = (LD) d[i] - lo[i];
        }
        LD r = 0;
        for (int k = 0; k < (1 << nd); ++k) {
            size_t flat = 0;
            LD ww = 1;
            for (int i = 0; i < nd; ++i) {
                int b = (k >> i) & 1;
                flat = flat * dims[i] + lo[i] + b;
                ww *= b ? w[i] : 1 - w[i];
            }
            r += ww * f[flat];
        }
        return r;
    }
    double lo(int i) const { return *std::min_element(c[i].begin(), c[i].end()); }
    double hi(int i) const { return *std::max_element(c[i].begin(), c[i].end()); }
    double maxAbs() const {
        double m = 0;
        for (int i = 0; i < nd; ++i)
            for (double v : c[i]) m = std::max(m, std::fabs(v));
        return m;
    }
    double extent() const {
        double e = 0;
        for (int i = 0; i < nd; ++i) e = std::max(e, hi(i) - lo(i));
        return e;
    }
    std::string str() const {
        std::string s = pbt::fmt("%s dims", kind.c_str());
        for (int i = 0; i < nd; ++i) s += pbt::fmt(" %d%s", dims[i], per[i] ? "(periodic)" : "");
        for (int i = 0; i < nd; ++i) {
            s += pbt::fmt(" x%d {", i);
            for (size_t k = 0; k < std::min<size_t>(num(), 40); ++k) s += pbt::fmt(" %.17g", c[i][k]);
            s += " }";
        }
        return s;
    }
};

NGrid affineGrid(pbt::Case& c) {
    NGrid g;
    g.nd = c.pick({8, 32, 16, 2, 1}) + 1;
    const int most[] = {8, 8, 5, 4, 3};
    for (int i = 0; i < g.nd; ++i) g.dims[i] = c.range(2, most[g.nd - 1]);
    if (g.nd < 4 && c.chance(1, 12)) g.dims[c.range(0, g.nd - 1)] = c.range(2, g.nd == 1 ? 3000 : g.nd == 2 ? 300 : 60); // a long axis
    if (g.nd < 4 && c.chance(1, 1500)) {
        // more nodes than 16 bits can count
        const int lots[] = {70000, 300, 45};
        for (int i = 0; i < g.nd; ++i) g.dims[i] = c.range(lots[g.nd - 1] / 2, lots[g.nd - 1]);
        if (g.nd > 1 && c.chance(1, 2)) {
            // all but along one of the axes, in three dimensions also per layer
            for (int i = 0; i < g.nd; ++i) g.dims[i] = g.nd == 2 ? c.range(30000, 70000) : c.range(180, 280);
            g.dims[c.range(0, g.nd - 1)] = c.range(2, 3);
        }
    }
    g.alloc();
    double s = c.oneof<double>({1, 0.1, 10, 100, 360});
    double a[MAXD][MAXD], t[MAXD];
    for (int i = 0; i < g.nd; ++i) {
        t[i] = s * c.nice(2);
        // diagonally dominant, possibly with the axes swapped
        for (int j = 0; j < g.nd; ++j) a[i][j] = (i == j ? (c.chance(1, 4) ? -1 : 1) * c.real(0.5, 2) : (g.nd > 3 ? 0.1 : 0.2) * c.nice(1)) * s;
    }
    if (g.nd == 2 && c.chance(1, 4))
        for (int j = 0; j < 2; ++j) std::swap(a[0][j], a[1][j]);
    std::vector<double> x(MAXD);
    for (size_t k = 0; k < g.num(); ++k) {
        size_t r = k;
        for (int i = g.nd - 1; i >= 0; --i) {
            x[i] = double(r % g.dims[i]) / (g.dims[i] - 1);
            r /= g.dims[i];
        }
        for (int i = 0; i < g.nd; ++i) {
            g.c[i][k] = t[i];
            for (int j = 0; j < g.nd; ++j) g.c[i][k] += a[i][j] * x[j];
        }
    }
    g.kind = "affine";
    return g;
}

NGrid anyGrid(pbt::Case& c) {
    if (c.chance(1, 4)) {
        NGrid g = affineGrid(c);
        double amp = g.extent() * c.real(0, 0.08);
        for (int i = 0; i < g.nd; ++i)
            for (auto& v : g.c[i]) v += amp * c.real(-1, 1) / 6;
        g.kind = "perturbed";
        for (int i = 0; i < g.nd; ++i) g.per[i] = c.chance(1, 8);
        return g;
    }
    Grid b = unitGrid(c, c.range(0, 5), 7);
    placement(c, true, true).apply(b);
    NGrid g;
    g.dims[0] = b.dims[0];
    g.dims[1] = b.dims[1];
    g.alloc();
    g.c[0] = b.x;
    g.c[1] = b.y;
    g.ptr[0] = g.c[0].data();
    g.ptr[1] = g.c[1].data();
    g.kind = b.kind;
    bool polar = b.kind == "polar" || b.kind == "annulus";
    g.per[1] = polar ? c.chance(3, 4) : c.chance(1, 10);
    g.per[0] = c.chance(1, 12);
    return g;
}

struct Finder {
    SgFindPointInCell_type* p = nullptr;
    Finder(int n, double tol) { SgFindPointInCell_new(&p, n, tol); }
    ~Finder() { SgFindPointInCell_del(&p); }
    void grid(const NGrid& g) { SgFindPointInCell_setGrid(&p, g.nd, g.dims, g.per, (const double**) g.ptr); }
};

// what a search does, step by step
struct Trace {
    std::vector<int> codes;
    std::vector<double> inds, errors, hist;
    std::vector<double> pos;
    bool operator==(const Trace& o) const {
        return codes == o.codes && inds == o.inds && errors == o.errors && hist == o.hist && pos == o.pos;
    }
};

Trace search(Finder& f, const NGrid& g, const double* start, const double* target, int nitermax) {
    Trace t;
    SgFindPointInCell_reset(&f.p, start, target);
    double in[MAXD];
    SgFindPointInCell_getIndices(&f.p, in);
    for (int i = 0; i < g.nd; ++i) CHECK(in[i] == start[i], "index %d after the reset is %g not %g", i, in[i], start[i]);
    int code = 0;
    while (code == 0) {
        CHECK((int) t.codes.size() < std::max(1, nitermax), "no answer after %d iterations", nitermax);
        code = SgFindPointInCell_next(&f.p);
        t.codes.push_back(code);
        double e;
        SgFindPointInCell_getIndices(&f.p, in);
        SgFindPointInCell_getError(&f.p, &e);
        for (int i = 0; i < g.nd; ++i) t.inds.push_back(in[i]);
        t.errors.push_back(e);
        for (int i = 0; i < g.nd; ++i)
            CHECK(code == -3 || (in[i] >= 0 && in[i] <= g.dims[i] - 1), "iteration %zu: index %d is %.17g, not in 0..%d", t.codes.size(), i,
                  in[i], g.dims[i] - 1);
    }
    t.pos.resize(g.nd);
    SgFindPointInCell_getPosition(&f.p, t.pos.data());
    int n = -1;
    double* h = nullptr;
    SgFindPointInCell_getErrorHistory(&f.p, &n, &h);
    CHECK(n >= 0 && n <= (int) t.codes.size(), "history of %d errors after %zu iterations", n, t.codes.size());
    t.hist.assign(h, h + n);
    return t;
}

// properties of any search
void sound(const NGrid& g, const double* start, const double* target, const Trace& t, double tolpos, int nitermax) {
    double eps = 1e-13 * g.maxAbs();
    bool out = false, in = true;
    for (int i = 0; i < g.nd; ++i) {
        double m = std::max(1.0, std::max(std::fabs(g.lo(i)), std::fabs(g.hi(i))));
        if (target[i] < g.lo(i) - 1e-9 * m || target[i] > g.hi(i) + 1e-9 * m) out = true;
        if (target[i] < g.lo(i) || target[i] > g.hi(i)) in = false;
    }
    int last = t.codes.back();
    CHECK(last == 1 || last == -1 || last == -2 || last == -3, "code %d", last);
    CHECK(!out || (last == -3 && t.codes.size() == 1), "the target is outside the box of the grid but the code is %d", last);
    CHECK(!in || last != -3, "the target is inside the box of the grid but the code says outside");
    CHECK(last != -1 || (int) t.codes.size() == std::max(1, nitermax), "code -1 after %zu iterations of %d", t.codes.size(), nitermax);
    const double* d = &t.inds[t.inds.size() - g.nd];
    LD err = 0;
    for (int i = 0; i < g.nd; ++i) {
        LD x = g.interp(g.c[i], d);
        CHECK(std::abs(x - t.pos[i]) <= eps, "position %d is %.17g, should be %.17Lg at these indices", i, t.pos[i], x);
        err += (x - target[i]) * (x - target[i]);
    }
    err = std::sqrt(err);
    CHECK(std::abs(err - t.errors.back()) <= 4 * eps, "error is %.17g, should be %.17Lg", t.errors.back(), err);
    if (last == 1) CHECK(err <= tolpos + 4 * eps, "converged but the distance to the target is %Lg, the tolerance %g", err, tolpos);
    if (last != -3) {
        CHECK(t.hist.size() == t.codes.size(), "history of %zu errors after %zu iterations", t.hist.size(), t.codes.size());
        for (size_t k = 0; k < t.hist.size(); ++k)
            CHECK(t.hist[k] == t.errors[k], "error %zu of the history is %.17g, was %.17g", k, t.hist[k], t.errors[k]);
        for (size_t k = 0; k + 1 < t.hist.size(); ++k)
            CHECK(!(t.hist[k] < tolpos) , "iteration %zu has reached the tolerance (%g < %g) but the search goes on", k, t.hist[k], tolpos);
    }
    (void) start;
}

void note(pbt::Case& c, const NGrid& g, const double* start, const double* target, double tolpos, int nitermax) {
    if (!c.verbose) return;
    c.note("%s start", g.str().c_str());
    for (int i = 0; i < g.nd; ++i) c.note(" %.17g", start[i]);
    c.note(" target");
    for (int i = 0; i < g.nd; ++i) c.note(" %.17g", target[i]);
    c.note(" tolerance %g, %d iterations at most\n", tolpos, nitermax);
}

void startInds(pbt::Case& c, const NGrid& g, double* d) {
    for (int i = 0; i < g.nd; ++i)
        d[i] = c.chance(1, 3) ? c.range(0, g.dims[i] - 1) : c.real(0, g.dims[i] - 1);
}

// the unit of the coordinates does not matter
void otherUnit(pbt::Case& c, const NGrid& g0, const double* start, const double* target0, const Trace& t, double tol, int nmax) {
    for (size_t k = 1; k < t.hist.size(); ++k)
        if (t.hist[k] > t.hist[k - 1]) return; // whether it gives up depends on an absolute tolerance
    NGrid g = g0;
    int e = c.oneof<int>({-20, -10, -3, 3, 10, 20});
    double target[MAXD];
    for (int i = 0; i < g.nd; ++i) {
        for (auto& v : g.c[i]) v = ldexp(v, e);
        g.ptr[i] = g.c[i].data();
        target[i] = ldexp(target0[i], e);
    }
    c.note("again in another unit, 2^%d\n", e);
    Finder f(nmax, ldexp(tol, e));
    f.grid(g);
    Trace o = search(f, g, start, target, nmax);
    CHECK(o.codes == t.codes, "%zu iterations and code %d, in another unit %zu iterations and code %d", t.codes.size(), t.codes.back(),
          o.codes.size(), o.codes.back());
    for (size_t k = 0; k < t.inds.size(); ++k)
        CHECK(std::fabs(o.inds[k] - t.inds[k]) <= 1e-9, "iteration %zu: index %.17g, in another unit %.17g", k / g.nd, t.inds[k], o.inds[k]);
    for (size_t k = 0; k < t.hist.size(); ++k)
        CHECK(std::fabs(ldexp(o.hist[k], -e) - t.hist[k]) <= 1e-9 * g0.extent(), "iteration %zu: error %.17g, in another unit %.17g times 2^%d", k,
              t.hist[k], o.hist[k], -e);
    c.label("another unit");
}

// affine grids: the point is found whatever the start
void affine(pbt::Case& c) {
    NGrid g = affineGrid(c);
    double ext = g.extent(), tol = 1e-9 * ext;
    int nmax = c.range(4, 30);
    Finder f(nmax, tol);
    f.grid(g);
    int n = c.range(1, 4);
    for (int s = 0; s < n; ++s) {
        double start[MAXD], want[MAXD], target[MAXD];
        startInds(c, g, start);
        startInds(c, g, want);
        for (int i = 0; i < g.nd; ++i) target[i] = (double) g.interp(g.c[i], want);
        note(c, g, start, target, tol, nmax);
        Trace t = search(f, g, start, target, nmax);
        CHECK(t.codes.back() == 1, "search %d: code %d after %zu iterations", s, t.codes.back(), t.codes.size());
        CHECK(t.codes.size() <= 3, "search %d: %zu iterations on an affine grid", s, t.codes.size());
        for (int i = 0; i < g.nd; ++i)
            CHECK(std::fabs(t.inds[t.inds.size() - g.nd + i] - want[i]) <= 1e-7 * g.dims[i], "search %d: index %d is %.17g, should be %.17g", s, i,
                  t.inds[t.inds.size() - g.nd + i], want[i]);
        sound(g, start, target, t, tol, nmax);
        if (c.chance(1, 4)) otherUnit(c, g, start, target, t, tol, nmax);
    }
    c.nontrivial = g.num() > (size_t) (1 << g.nd);
    c.label(g.num() > 10000, "more than 10000 nodes");
    c.label(pbt::fmt("%d dimensions", g.nd));
}

// any grid, any target: what the search says is true, and does not depend on what has been searched before
void any(pbt::Case& c) {
    NGrid g = anyGrid(c);
    double tol = g.extent() * c.oneof<double>({1e-10, 1e-8, 1e-6, 1e-3});
    int nmax = c.oneof<int>({20, 3, 1, 2, 5, 100, 0});
    Finder f(nmax, tol);
    if (c.chance(1, 3)) {
        // something else before
        NGrid o = anyGrid(c);
        f.grid(o);
        double start[MAXD], want[MAXD], target[MAXD];
        startInds(c, o, start);
        startInds(c, o, want);
        for (int i = 0; i < o.nd; ++i) target[i] = (double) o.interp(o.c[i], want);
        search(f, o, start, target, nmax);
        c.label("another grid before");
    }
    f.grid(g);
    int n = c.range(1, 4), found = 0, outside = 0;
    for (int s = 0; s < n; ++s) {
        double start[MAXD], want[MAXD], target[MAXD];
        startInds(c, g, start);
        startInds(c, g, want);
        for (int i = 0; i < g.nd; ++i) {
            target[i] = (double) g.interp(g.c[i], want);
            if (c.chance(1, 6)) target[i] = g.lo(i) + (g.hi(i) - g.lo(i)) * c.real(-0.3, 1.3);
        }
        note(c, g, start, target, tol, nmax);
        Trace t = search(f, g, start, target, nmax);
        sound(g, start, target, t, tol, nmax);
        found += t.codes.back() == 1;
        outside += t.codes.back() == -3;
        Finder fresh(nmax, tol);
        fresh.grid(g);
        Trace t2 = search(fresh, g, start, target, nmax);
        CHECK(t == t2, "search %d differs from that of a new object: codes %d and %d, %zu and %zu iterations", s, t.codes.back(), t2.codes.back(),
              t.codes.size(), t2.codes.size());
        if (c.chance(1, 4)) {
            // from where it ended
            double again[MAXD];
            for (int i = 0; i < g.nd; ++i) again[i] = t.inds[t.inds.size() - g.nd + i];
            if (t.codes.back() == 1 && nmax > 1) {
                Trace t3 = search(f, g, again, target, nmax);
                CHECK(t3.codes.back() != -3, "outside when started from the solution");
                sound(g, again, target, t3, tol, nmax);
            }
        }
    }
    c.nontrivial = found > 0;
    c.label(found > 0, "found");
    c.label(outside > 0, "outside the box");
    c.label(g.per[0] || g.per[1], "periodic");
    c.label(g.kind);
}

// polar grid, periodic or not: sectors and rings are searched successfully
void ring(pbt::Case& c) {
    bool full = c.chance(1, 2);
    Grid b(c.range(2, 6), c.range(full ? 9 : 3, 16));
    double r0 = c.real(0.25, 0.8), th0 = c.nice(3), dth = full ? 2 * M_PI / (b.dims[1] - 1) : c.real(0.05, 0.8) * std::min(1.0, 6.0 / b.dims[1]);
    for (int i = 0; i < b.dims[0]; ++i)
        for (int j = 0; j < b.dims[1]; ++j) {
            double r = r0 + (1 - r0) * i / (b.dims[0] - 1), th = th0 + dth * j;
            b.set(i, j, r * cos(th), r * sin(th));
        }
    b.kind = full ? "annulus" : "sector";
    placement(c, true, true).apply(b);
    NGrid g;
    g.dims[0] = b.dims[0];
    g.dims[1] = b.dims[1];
    g.alloc();
    g.c[0] = b.x;
    g.c[1] = b.y;
    g.ptr[0] = g.c[0].data();
    g.ptr[1] = g.c[1].data();
    g.kind = b.kind;
    double tol = 1e-9 * g.extent();
    int nmax = 50;
    Finder f(nmax, tol);
    f.grid(g);
    double start[MAXD] = {0, 0, 0, 0, 0}, want[MAXD], target[MAXD];
    startInds(c, g, want);
    // started in the same cell the search converges
    for (int i = 0; i < 2; ++i) {
        int cell = std::min((int) want[i], g.dims[i] - 2);
        start[i] = cell + c.real(0.25, 0.75);
    }
    for (int i = 0; i < 2; ++i) target[i] = (double) g.interp(g.c[i], want);
    note(c, g, start, target, tol, nmax);
    Trace t = search(f, g, start, target, nmax);
    sound(g, start, target, t, tol, nmax);
    CHECK(t.codes.back() == 1, "code %d after %zu iterations", t.codes.back(), t.codes.size());
    if (c.chance(1, 3)) otherUnit(c, g, start, target, t, tol, nmax);
    c.nontrivial = true;
    c.label(g.kind);
}

// setting another grid
void regressionSetGrid() {
    Finder f(20, 1e-10);
    NGrid a, b;
    for (NGrid* g : {&a, &b}) {
        g->dims[0] = g->dims[1] = 3;
        g->alloc();
        for (int k = 0; k < 9; ++k) {
            g->c[0][k] = k / 3 + (g == &b ? 10 : 0);
            g->c[1][k] = k % 3;
        }
    }
    a.per[0] = 1;
    f.grid(a);
    f.grid(b);
    double start[] = {1, 1}, target[] = {0.5, 0.5}, target2[] = {10.5, 0.5};
    Trace t = search(f, b, start, target, 20);
    CHECK(t.codes.back() == -3, "a point of the previous grid: code %d", t.codes.back());
    t = search(f, b, start, target2, 20);
    CHECK(t.codes.back() == 1, "code %d", t.codes.back());
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C08";
    p.rule = "affine grids in 1-5 dimensions with up to 3000 points along an axis, curvilinear/perturbed/polar/sector grids with random periodicity flags, targets at random "
             "index positions or anywhere, random starts, tolerances and iteration limits, one object reused over several searches, grids and targets in another unit; "
             "the answers are checked against an independent multilinear interpolation, the box of the grid and a new object. "
             "Non-trivial: more than one cell (affine), at least one point found (others)";
    p.subs = {{"affine", 2, affine}, {"any", 3, any}, {"ring", 1, ring}};
    p.regressions = {{"setGrid", regressionSetGrid}};
    return p;
}
