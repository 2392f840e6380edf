// C09: weights of the nodal interpolation
#include "noderef.h"
using namespace geom;

namespace {

void weights(pbt::Case& c) {
    bool covered;
    int per[2];
    Grid g = nodeSource(c, covered, per);
    std::vector<LD> u, v;
    Grid d = nodeTargets(c, g, u, v, 6);
    double tol = extent(g) * c.oneof<double>({1e-10, 1e-8, 1e-9});
    c.note("src %s periodic %d %d dst %s tolerance %g\n", g.str().c_str(), per[0], per[1], d.str().c_str(), tol);
    NodeInterp o(c.oneof<int>({100, 50, 200}), tol);
    if (c.chance(1, 2)) { o.src(g, per); o.dst(d); }
    else { o.dst(d); o.src(g, per); }
    o.compute();
    int n = d.numNodes(), m = g.numNodes();
    // the weights are the interpolation of unit vectors
    std::vector<std::vector<double>> w(m);
    std::vector<double> e(m, 0);
    for (int k = 0; k < m; ++k) {
        e[k] = 1;
        w[k] = o.apply(e, n);
        e[k] = 0;
    }
    std::vector<double> ones = o.apply(std::vector<double>(m, 1.0), n);
    int found = 0;
    for (int i = 0; i < n; ++i) {
        bool un = ones[i] == UNTOUCHED;
        LD sum = 0, x = 0, y = 0;
        int lo0 = 1 << 30, hi0 = -1, lo1 = 1 << 30, hi1 = -1, count = 0;
        for (int k = 0; k < m; ++k) {
            CHECK((w[k][i] == UNTOUCHED) == un, "point %d is sometimes interpolated", i);
            if (un) continue;
            CHECK(w[k][i] >= -1e-13 && w[k][i] <= 1 + 1e-13, "point %d: weight of node %d is %.17g", i, k, w[k][i]);
            sum += w[k][i];
            x += (LD) w[k][i] * g.x[k];
            y += (LD) w[k][i] * g.y[k];
            if (w[k][i] != 0) {
                count++;
                lo0 = std::min(lo0, k / g.dims[1]);
                hi0 = std::max(hi0, k / g.dims[1]);
                lo1 = std::min(lo1, k % g.dims[1]);
                hi1 = std::max(hi1, k % g.dims[1]);
            }
        }
        if (un) {
            CHECK(!(covered && u[i] >= 0), "point %d (%.17g,%.17g) at index position %Lg %Lg has no weights", i, d.x[i], d.y[i], u[i], v[i]);
            continue;
        }
        found++;
        CHECK(std::abs(sum - 1) <= 1e-12L && std::fabs(ones[i] - 1) <= 1e-12, "point %d: the weights add up to %.17Lg", i, sum);
        CHECK(count >= 1 && count <= 4 && hi0 - lo0 <= 1 && hi1 - lo1 <= 1, "point %d: %d nodes, rows %d-%d, columns %d-%d", i, count, lo0,
              hi0, lo1, hi1);
        LD err = std::hypot(x - d.x[i], y - d.y[i]);
        CHECK(err <= 1.0001L * tol + 1e-13L * g.maxAbs(), "point %d (%.17g,%.17g): the weighted nodes give (%.17Lg,%.17Lg), %Lg away", i, d.x[i],
              d.y[i], x, y, err);
    }
    c.nontrivial = found >= 2 && g.numCells() > 1;
    c.label(found < n, "some not interpolated");
    c.label(found == n, "all interpolated");
    c.label(per[1], "periodic");
    c.label(g.kind);
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C09";
    p.rule = "a source grid (affine, sector, annulus, periodic or not, curvilinear, perturbed, polar, clockwise) and 4 to 18 target points "
             "inside cells, on sides, on nodes or anywhere; every weight is read off by interpolating unit vectors. "
             "Non-trivial: more than one cell and at least two points interpolated";
    p.subs = {{"weights", 1, weights}};
    return p;
}
