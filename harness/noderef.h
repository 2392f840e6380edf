// Common parts of C09 and C10: nodal interpolation
#ifndef NODEREF_H
#define NODEREF_H
#include "geom.h"
#include "SgNodeInterp2D.h"
namespace geom {

const double UNTOUCHED = -54321.125;

struct NodeInterp {
    SgNodeInterp2D_type* p = nullptr;
    NodeInterp(int nitermax, double tol) { SgNodeInterp2D_new(&p, nitermax, tol); }
    ~NodeInterp() { SgNodeInterp2D_del(&p); }
    NodeInterp(const NodeInterp&) = delete;
    void src(const Grid& g, const int per[]) { SgNodeInterp2D_setSrcGrid(&p, g.dims, per, (const double**) g.c); }
    void dst(const Grid& g) { SgNodeInterp2D_setDstGrid(&p, g.dims, (const double**) g.c); }
    void compute() { SgNodeInterp2D_computeWeights(&p); }
    std::vector<double> apply(const std::vector<double>& s, int n) {
        std::vector<double> copy = s;
        std::vector<double> r = applied(n, UNTOUCHED, [&](double* d) { SgNodeInterp2D_apply(&p, copy.data(), d); });
        CHECK(same(copy, s), "apply modified the source data");
        return r;
    }
};

// size of the grid
inline double extent(const Grid& g) {
    double lx = *std::min_element(g.x.begin(), g.x.end()), hx = *std::max_element(g.x.begin(), g.x.end());
    double ly = *std::min_element(g.y.begin(), g.y.end()), hy = *std::max_element(g.y.begin(), g.y.end());
    return std::max(hx - lx, hy - ly);
}
// is the point clearly outside the box of the grid?
inline bool outsideBox(const Grid& g, double x, double y, double margin) {
    double lx = *std::min_element(g.x.begin(), g.x.end()), hx = *std::max_element(g.x.begin(), g.x.end());
    double ly = *std::min_element(g.y.begin(), g.y.end()), hy = *std::max_element(g.y.begin(), g.y.end());
    return x < lx - margin || x > hx + margin || y < ly - margin || y > hy + margin;
}

// A source grid. covered: the search is known to find every point of the grid
inline Grid nodeSource(pbt::Case& c, bool& covered, int per[], bool many = false) {
    per[0] = per[1] = 0;
    covered = false;
    Grid g;
    int how = many ? 0 : c.pick({3, 2, 2, 3});
    if (how == 0) {
        // affine: uniform, possibly sheared
        g = Grid(c.range(2, 9), c.range(2, 9));
        if (many) {
            int n0 = c.range(150, 300), n1 = c.range(150, 300);
            if (c.chance(1, 2)) n0 = c.range(2, 3), n1 = c.range(257, 70000);
            if (c.chance(1, 2)) std::swap(n0, n1);
            g = Grid(n0, n1);
        }
        double sh = c.chance(1, 2) ? c.real(-0.8, 0.8) : 0;
        for (int i = 0; i < g.dims[0]; ++i)
            for (int j = 0; j < g.dims[1]; ++j) {
                double u = i / double(g.dims[0] - 1), v = j / double(g.dims[1] - 1);
                g.set(i, j, u + sh * v, v);
            }
        g.kind = "affine";
        covered = true;
    } else if (how == 1) {
        g = Grid(c.range(2, 7), c.range(3, 12));
        double r0 = c.real(0.25, 0.8), th0 = c.nice(3), dth = c.real(0.05, 0.8) * std::min(1.0, 6.0 / g.dims[1]);
        for (int i = 0; i < g.dims[0]; ++i)
            for (int j = 0; j < g.dims[1]; ++j) {
                double r = r0 + (1 - r0) * i / (g.dims[0] - 1), th = th0 + dth * j;
                g.set(i, j, r * cos(th), r * sin(th));
            }
        g.kind = "sector";
        covered = true;
    } else if (how == 2) {
        g = Grid(c.range(2, 6), c.range(9, 20));
        double r0 = c.real(0.25, 0.8), th0 = c.nice(3);
        for (int i = 0; i < g.dims[0]; ++i)
            for (int j = 0; j < g.dims[1]; ++j) {
                double r = r0 + (1 - r0) * i / (g.dims[0] - 1), th = th0 + 2 * M_PI * j / (g.dims[1] - 1);
                g.set(i, j, r * cos(th), r * sin(th));
            }
        g.kind = "annulus";
        per[1] = c.chance(1, 2);
        covered = true;
    } else {
        g = unitGrid(c, c.range(0, 5), 8);
        bool polar = g.kind == "polar" || g.kind == "annulus";
        per[1] = polar ? c.chance(2, 3) : 0;
    }
    placement(c, true).apply(g);
    if (c.chance(1, 6)) {
        g = flipped(g);
    }
    return g;
}

// destination points as an n0 x n1 "grid"; in: index position in the source grid or -1 when placed anywhere
inline Grid nodeTargets(pbt::Case& c, const Grid& g, std::vector<LD>& u, std::vector<LD>& v, int maxn) {
    bool crowd = maxn == 0;
    Grid d(c.range(2, crowd ? 300 : 3), 2);
    d = crowd ? Grid(d.dims[0], c.range(30000, 70000) / d.dims[0]) : Grid(d.dims[0], c.range(2, maxn));
    uint64_t seed = crowd ? c.range(0, 1 << 30) : 0;
    u.assign(d.numNodes(), -1);
    v.assign(d.numNodes(), -1);
    int far = c.pick({4, 2, 1});
    for (int k = 0; crowd && k < d.numNodes(); ++k) { // all of them inside, from one choice
        uint64_t h = pbt::mix(seed ^ pbt::mix(k));
        int i = (int) (h % (g.dims[0] - 1)), j = (int) (h / 4096 % (g.dims[1] - 1));
        LD a = (h >> 32 & 255) / 256.0L, b = (h >> 40 & 255) / 256.0L;
        P p = bilinear(g.quad(i * (g.dims[1] - 1) + j), a, b);
        d.x[k] = (double) p.x;
        d.y[k] = (double) p.y;
        u[k] = i + a;
        v[k] = j + b;
    }
    for (int k = 0; !crowd && k < d.numNodes(); ++k) {
        int i = c.range(0, g.dims[0] - 2), j = c.range(0, g.dims[1] - 2);
        if (g.numNodes() > 10000 && c.chance(1, 2)) {
            i = g.dims[0] - 2;
            j = std::max(0, g.dims[1] - 2 - c.range(0, 2));
        }
        Poly q = g.quad(i * (g.dims[1] - 1) + j);
        LD a = c.chance(1, 4) ? c.range(0, 1) : c.unit(), b = c.chance(1, 4) ? c.range(0, 1) : c.unit();
        if (far == 2 || (far == 1 && c.chance(1, 4))) {
            P p = bilinear(q, c.real(-4, 5), c.real(-4, 5));
            d.x[k] = (double) p.x;
            d.y[k] = (double) p.y;
            continue;
        }
        P p = bilinear(q, a, b);
        d.x[k] = (double) p.x;
        d.y[k] = (double) p.y;
        u[k] = i + a;
        v[k] = j + b;
    }
    d.kind = "points";
    return d;
}

} // namespace geom
#endif
