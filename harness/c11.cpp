// C11: cells under a polygon
#include "geom.h"
#include "SgFindOverlappingCells2D.h"
using namespace geom;

namespace {

struct Cells {
    SgFindOverlappingCells2D_type* p = nullptr;
    Cells() { SgFindOverlappingCells2D_new(&p); }
    ~Cells() { SgFindOverlappingCells2D_del(&p); }
    void grid(const Grid& g, const int per[]) { SgFindOverlappingCells2D_setSrcGrid(&p, g.dims, per, (const double**) g.c); }
    void polygon(const std::vector<double>& f) { SgFindOverlappingCells2D_setPolygonPoints(&p, (int) f.size() / 2, f.data()); }
    std::vector<int> find() {
        SgFindOverlappingCells2D_findSrcCellIndices(&p);
        int n = -1, *v = nullptr;
        SgFindOverlappingCells2D_getNumberOfSrcCellIndices(&p, &n);
        SgFindOverlappingCells2D_getSrcCellIndices(&p, &v);
        CHECK(n >= 0, "%d cells", n);
        CHECK(n == 0 || v, "%d cells, no array", n);
        return std::vector<int>(v, v + n);
    }
};

void valid(const Grid& g, const std::vector<int>& r) {
    std::set<int> seen;
    for (int k : r) {
        CHECK(k >= 0 && k < g.numCells(), "cell %d, the grid has %d", k, g.numCells());
        CHECK(seen.insert(k).second, "cell %d is there twice", k);
    }
}

// u, v: index position of the polygon's vertices (clamped to the grid), inside: those that are in the interior of the grid
void complete(const Grid& g, const Poly& poly, const std::vector<LD>& u, const std::vector<LD>& v, const std::vector<char>& inside, const std::vector<int>& r) {
    std::vector<char> in(g.numCells(), 0);
    for (int k : r) in[k] = 1;
    Poly h = hull(poly);
    LD lo[2] = {INFINITY, INFINITY}, hi[2] = {-INFINITY, -INFINITY};
    for (size_t i = 0; i < u.size(); ++i) {
        lo[0] = std::min(lo[0], u[i]);
        hi[0] = std::max(hi[0], u[i]);
        lo[1] = std::min(lo[1], v[i]);
        hi[1] = std::max(hi[1], v[i]);
    }
    // the polygon's vertices, also of one that is a point or a line, are in or at the border of some cell that is listed
    const LD tol = 1e-4L + 2e-8L * std::max(g.dims[0], g.dims[1]);
    for (size_t p = 0; p < u.size(); ++p) {
        bool held = !inside[p];
        for (size_t m = 0; m < r.size() && !held; ++m) {
            int i = r[m] / (g.dims[1] - 1), j = r[m] % (g.dims[1] - 1);
            held = u[p] >= i - tol && u[p] <= i + 1 + tol && v[p] >= j - tol && v[p] <= j + 1 + tol;
        }
        CHECK(held, "no cell is listed that holds point %zu, at indices %.6Lf %.6Lf", p, u[p], v[p]);
    }
    for (int k = 0; k < g.numCells(); ++k) {
        int i = k / (g.dims[1] - 1), j = k % (g.dims[1] - 1);
        Poly q = g.quad(k);
        if (!in[k]) {
            LD a = h.size() < 3 || boxesApart(q, h) ? 0 : overlapArea(ccw(q), h), cell = std::abs(signedArea(q));
            CHECK(a <= 1e-5L * cell, "cell %d (%d,%d) is not listed but %Lg of its area is under the polygon", k, i, j, a / cell);
        } else {
            CHECK(i + 2 >= lo[0] - 0.02L && i - 1 <= hi[0] + 0.02L && j + 2 >= lo[1] - 0.02L && j - 1 <= hi[1] + 0.02L,
                  "cell %d (%d,%d) is listed, the polygon spans the indices %.3Lf-%.3Lf %.3Lf-%.3Lf", k, i, j, lo[0], hi[0], lo[1], hi[1]);
        }
    }
}

// uniform grid in the plane
Grid uniform(pbt::Case& c, bool shear) {
    bool many = c.chance(1, 2000);
    Grid g(c.range(2, 12), c.range(2, 12));
    if (many) {
        // more cells than 16 bits can count
        int n0 = c.range(150, 300), n1 = c.range(150, 300);
        if (c.chance(2, 3)) n0 = c.range(2, 3), n1 = c.range(257, 70000);
        if (c.chance(1, 2)) std::swap(n0, n1);
        g = Grid(n0, n1);
    }
    int unit[2];
    for (int k = 0; k < 2; ++k) unit[k] = many ? std::max(g.dims[0], g.dims[1]) : g.dims[k] - 1; // many cells are squares
    for (int i = 0; i < g.dims[0]; ++i)
        for (int j = 0; j < g.dims[1]; ++j) g.set(i, j, i / double(unit[0]), j / double(unit[1]));
    g.kind = shear ? "affine" : "rect";
    if (many) g.kind += ", many cells";
    if (shear) {
        Affine a;
        a.a[1] = c.real(-0.8, 0.8);
        a.apply(g);
    }
    Affine f = placement(c, shear);
    f.apply(g);
    if (!shear && c.chance(1, 4))
        for (auto& x : g.x) x = -x;
    if (!shear && c.chance(1, 4))
        for (auto& y : g.y) y = -y;
    if (!shear && c.chance(1, 4)) {
        g.x.swap(g.y);
        g.c[0] = g.x.data();
        g.c[1] = g.y.data();
    }
    return g;
}

P indexToSpace(const Grid& g, LD u, LD v) {
    P o = g.at(0, 0), a = g.at(g.dims[0] - 1, 0), b = g.at(0, g.dims[1] - 1);
    u /= g.dims[0] - 1;
    v /= g.dims[1] - 1;
    return P{o.x + u * (a.x - o.x) + v * (b.x - o.x), o.y + u * (a.y - o.y) + v * (b.y - o.y)};
}

void polygons(pbt::Case& c, bool partlyOutside) {
    const int per[] = {0, 0};
    Cells obj;
    int ngrids = c.chance(1, 4) ? 2 : 1;
    for (int gi = 0; gi < ngrids; ++gi) {
        Grid g = uniform(c, !partlyOutside);
        obj.grid(g, per);
        int n = c.range(1, 3), some = 0;
        for (int s = 0; s < n; ++s) {
            int np = c.chance(1, 10) ? c.range(7, 60) : c.range(3, 6);
            LD cu = c.real(0, g.dims[0] - 1), cv = c.real(0, g.dims[1] - 1);
            if (g.numCells() > 1000 && c.chance(1, 2)) {
                cu = g.dims[0] - 1 - c.real(0, 3);
                cv = g.dims[1] - 1 - c.real(0, 3);
            }
            LD size = c.oneof<double>({1, 0.3, 3, 20});
            if (partlyOutside) {
                cu += c.nice(1) * g.dims[0];
                cv += c.nice(1) * g.dims[1];
            }
            std::vector<double> flat;
            std::vector<LD> u, v;
            std::vector<char> in;
            // sometimes a point or a line along or across the grid lines
            int flatU = c.chance(1, 12), flatV = c.chance(1, 12);
            LD u0 = 0, v0 = 0;
            for (int k = 0; k < np; ++k) {
                LD a = cu + size * c.real(-1, 1), b = cv + size * c.real(-1, 1);
                if (c.chance(1, 4)) a = roundl(a);
                if (c.chance(1, 4)) b = roundl(b);
                if (k == 0) u0 = a, v0 = b;
                if (flatU) a = u0;
                if (flatV) b = v0;
                LD ca = std::max(0.L, std::min((LD) g.dims[0] - 1, a)), cb = std::max(0.L, std::min((LD) g.dims[1] - 1, b));
                if (!partlyOutside) { a = ca; b = cb; }
                P p = indexToSpace(g, a, b);
                flat.push_back((double) p.x);
                flat.push_back((double) p.y);
                u.push_back(ca);
                v.push_back(cb);
                in.push_back(a > 1e-4L && a < g.dims[0] - 1 - 1e-4L && b > 1e-4L && b < g.dims[1] - 1 - 1e-4L);
            }
            if (c.verbose) {
                c.note("src %s polygon", g.str().c_str());
                for (size_t k = 0; k < flat.size(); k += 2) c.note(" (%.17g,%.17g)", flat[k], flat[k + 1]);
                c.note("\n");
            }
            obj.polygon(flat);
            std::vector<int> r = obj.find();
            valid(g, r);
            complete(g, fromFlat(flat.data(), flat.size() / 2), u, v, in, r);
            some += !r.empty();
            Cells fresh;
            if (c.chance(1, 2)) { fresh.grid(g, per); fresh.polygon(flat); }
            else { fresh.polygon(flat); fresh.grid(g, per); }
            CHECK(fresh.find() == r, "another result from a new object");
        }
        if (some && g.numCells() > 4) c.nontrivial = true;
        c.label(some < n, "no cells");
        c.label(g.kind);
    }
    c.label(ngrids > 1, "two grids");
}
void inside(pbt::Case& c) { polygons(c, false); }
void anywhere(pbt::Case& c) { polygons(c, true); }

// the unit of the coordinates does not matter: a grid where the search converges, multiplied by a power of two
void units(pbt::Case& c) {
    int kind = c.range(0, 2);
    Grid g = kind == 0 ? uniform(c, true) : Grid(c.range(2, 7), c.range(9, 20));
    if (kind) {
        double r0 = c.real(0.25, 0.8), th0 = c.nice(3), span = kind == 1 ? c.real(0.3, 5) : 2 * M_PI;
        for (int i = 0; i < g.dims[0]; ++i)
            for (int j = 0; j < g.dims[1]; ++j) {
                double r = r0 + (1 - r0) * i / (g.dims[0] - 1), th = th0 + span * j / (g.dims[1] - 1);
                g.set(i, j, r * cos(th), r * sin(th));
            }
        g.kind = kind == 1 ? "sector" : "annulus";
        placement(c, true).apply(g);
    }
    const int per[] = {0, 0};
    int np = c.range(3, 8), ci = c.range(0, g.dims[0] - 2), cj = c.range(0, g.dims[1] - 2), reach = c.range(0, 2);
    std::vector<double> flat;
    for (int k = 0; k < np; ++k) {
        int i = std::min(g.dims[0] - 2, ci + c.range(0, reach)), j = std::min(g.dims[1] - 2, cj + c.range(0, reach));
        P p = bilinear(g.quad(i * (g.dims[1] - 1) + j), c.real(0.01, 0.99), c.real(0.01, 0.99));
        flat.push_back((double) p.x);
        flat.push_back((double) p.y);
    }
    if (c.verbose) {
        c.note("src %s polygon", g.str().c_str());
        for (size_t k = 0; k < flat.size(); k += 2) c.note(" (%.17g,%.17g)", flat[k], flat[k + 1]);
        c.note("\n");
    }
    Cells obj;
    obj.grid(g, per);
    obj.polygon(flat);
    std::vector<int> r = obj.find();
    valid(g, r);
    int e = c.oneof<int>({-30, -20, -10, -3, 3, 10, 20});
    c.note("scale 2^%d\n", e);
    for (auto& x : g.x) x = ldexp(x, e);
    for (auto& y : g.y) y = ldexp(y, e);
    for (auto& f : flat) f = ldexp(f, e);
    if (c.chance(1, 2)) {
        obj.grid(g, per);
        obj.polygon(flat);
        CHECK(obj.find() == r, "another list of cells in another unit");
    } else {
        Cells other;
        other.grid(g, per);
        other.polygon(flat);
        CHECK(other.find() == r, "another list of cells in another unit");
    }
    c.nontrivial = kind != 0;
    c.label(kind ? "unit, curved" : "unit, affine");
}

// any grid, the indices are valid and do not depend on the past
void any(pbt::Case& c) {
    Cells obj;
    for (int gi = 0; gi < 2; ++gi) {
        Grid g = unitGrid(c, c.range(0, 5), 8);
        placement(c, true).apply(g);
        bool polar = g.kind == "polar" || g.kind == "annulus";
        int per[] = {0, polar && c.chance(1, 2)};
        obj.grid(g, per);
        int np = c.chance(1, 10) ? c.range(7, 60) : c.range(1, 6);
        std::vector<double> flat;
        for (int k = 0; k < np; ++k) {
            Poly q = g.quad(c.range(0, g.numCells() - 1));
            LD far = c.chance(1, 3) ? 3 : 0;
            P p = bilinear(q, c.real(0, 1) + far * c.real(-1, 1), c.real(0, 1) + far * c.real(-1, 1));
            flat.push_back((double) p.x);
            flat.push_back((double) p.y);
        }
        if (c.verbose) {
            c.note("src %s polygon", g.str().c_str());
            for (size_t k = 0; k < flat.size(); k += 2) c.note(" (%.17g,%.17g)", flat[k], flat[k + 1]);
            c.note("\n");
        }
        obj.polygon(flat);
        std::vector<int> r = obj.find();
        valid(g, r);
        Cells fresh;
        fresh.grid(g, per);
        fresh.polygon(flat);
        CHECK(fresh.find() == r, "another result from a new object");
        c.nontrivial |= r.size() > 1;
        c.label(g.kind);
    }
}

void regressionOutside() {
    Grid g(5, 4);
    const int per[] = {0, 0};
    for (int i = 0; i < 5; ++i)
        for (int j = 0; j < 4; ++j) g.set(i, j, i, j);
    Cells obj;
    obj.grid(g, per);
    obj.polygon({-5, -5, 9, -5, 9, 9, -5, 9});
    CHECK(obj.find().size() == 12, "%zu cells instead of all", obj.find().size());
    obj.polygon({3.2, 2.2, 3.8, 2.2, 3.8, 2.8});
    std::vector<int> r = obj.find();
    CHECK(std::find(r.begin(), r.end(), 11) != r.end(), "the last cell is not found");
    obj.polygon({20, 20, 21, 20, 21, 21});
    valid(g, obj.find());
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C11";
    p.rule = "uniform grids (axis aligned, with swapped or reversed axes, sheared, rotated) with polygons of 3-6 points (sometimes up to 60, or on one line) placed inside, or "
             "anywhere for axis aligned grids, compared with the exact overlap of every cell; any other grid for the validity of the "
             "indices; the same grid in another unit; one object used for several polygons and grids, compared with new objects. Non-trivial: the grid has more than "
             "four cells and some are listed";
    p.subs = {{"inside", 3, inside}, {"anywhere", 3, anywhere}, {"any", 1, any}, {"units", 1, units}};
    p.regressions = {{"outside", regressionOutside}};
    return p;
}
