// C01: the conservative weights are overlap areas divided by destination cell areas
#include "geom.h"
#include "SgConserveInterp2D.h"
using namespace geom;

namespace {

struct Weights {
    std::map<std::pair<int, int>, double> w; // (dst, src)
    bool duplicates = false;
};

Weights compute(const Grid& src, const Grid& dst) {
    Weights r;
    SgConserveInterp2D_type* o = nullptr;
    SgConserveInterp2D_new(&o);
    const int per[] = {0, 0};
    SgConserveInterp2D_setDstGrid(&o, dst.dims, (const double**) dst.c);
    SgConserveInterp2D_setSrcGrid(&o, src.dims, per, (const double**) src.c);
    SgConserveInterp2D_computeWeights(&o);
    SgConserveInterp2D_reset(&o);
    int end = 0;
    long count = 0;
    while (!end && count++ < 4000000) {
        int s = -1, d = -1;
        double w = 0;
        SgConserveInterp2D_get(&o, &s, &d, &w);
        if (s >= 0 && d >= 0) {
            if (!r.w.insert({{d, s}, w}).second) r.duplicates = true;
        }
        end = SgConserveInterp2D_next(&o);
    }
    SgConserveInterp2D_del(&o);
    return r;
}

void checkPair(pbt::Case& c, const Grid& src, const Grid& dst, bool srcFolded = false, bool dstFolded = false) {
    Weights r = compute(src, dst);
    CHECK(!r.duplicates, "a pair of cells is listed twice");
    double big = std::max(src.maxAbs(), dst.maxAbs());
    std::vector<LD> dstSum(dst.numCells(), 0), srcSum(src.numCells(), 0), dstTrue(dst.numCells(), 0),
        srcTrue(src.numCells(), 0), dstTol(dst.numCells(), 0), srcTol(src.numCells(), 0);
    int npos = 0, npartial = 0;
    for (auto& e : r.w) {
        CHECK(e.first.first >= 0 && e.first.first < dst.numCells(), "dst index %d", e.first.first);
        CHECK(e.first.second >= 0 && e.first.second < src.numCells(), "src index %d", e.first.second);
    }
    std::vector<Poly> sq(src.numCells());
    std::vector<LD> sarea(src.numCells());
    for (int s = 0; s < src.numCells(); ++s) {
        sq[s] = src.quad(s);
        sarea[s] = std::abs(signedArea(sq[s]));
    }
    for (int d = 0; d < dst.numCells(); ++d) {
        Poly dq = dst.quad(d);
        LD darea = std::abs(signedArea(dq)), dper = perimeter(dq);
        for (int s = 0; s < src.numCells(); ++s) {
            LD ov = boxesApart(dq, sq[s]) ? 0 : overlapArea(dq, sq[s]);
            auto it = r.w.find({d, s});
            LD w = it == r.w.end() ? 0 : (LD) it->second;
            LD per = std::min(dper, perimeter(sq[s]));
            LD tol = 1e-9L * std::min(darea, sarea[s]) + 2e-12L * big * per;
            CHECK(w >= -1e-12L, "negative weight %.17g src cell %d dst cell %d", (double) w, s, d);
            CHECK(std::abs(w * darea - ov) <= tol,
                  "src cell %d dst cell %d: weight %.15g, overlap area / dst area %.15g (%.15g/%.15g)", s, d,
                  (double) w, (double) (ov / darea), (double) ov, (double) darea);
            dstSum[d] += w;
            srcSum[s] += w * darea;
            dstTrue[d] += ov;
            srcTrue[s] += ov;
            dstTol[d] += tol / darea;
            srcTol[s] += tol;
            if (ov > 1e-3L * darea) npos++;
            if (ov > 1e-3L * darea && ov < 0.999L * darea && ov < 0.999L * sarea[s]) npartial++;
        }
        // a covered cell: partition of unity
        if (!srcFolded && dstTrue[d] > darea * (1 - 1e-14L)) {
            CHECK(std::abs(dstSum[d] - 1) <= dstTol[d] + 1e-13L, "dst cell %d is covered, the weights add to %.15g", d,
                  (double) dstSum[d]);
            c.label("covered dst cell");
        }
    }
    for (int s = 0; s < src.numCells(); ++s) {
        // a source cell inside the destination grid is entirely redistributed
        if (!dstFolded && srcTrue[s] > sarea[s] * (1 - 1e-14L)) {
            CHECK(std::abs(srcSum[s] - sarea[s]) <= srcTol[s] + 1e-13L * sarea[s],
                  "src cell %d is covered, area %.15g redistributed %.15g", s, (double) sarea[s], (double) srcSum[s]);
            c.label("covered src cell");
        }
    }
    c.nontrivial = npos >= 2 && npartial >= 1;
    c.label(npos == 0, "disjoint");
    c.label(npartial > 0, "partial overlap");
    c.label(src.kind == "polar" || dst.kind == "polar", "polar");
}

void pairs(pbt::Case& c) {
    GridPair g = gridPair(c, 9, true);
    c.note("relation %s\nsrc %s\ndst %s", g.relation.c_str(), g.src.str().c_str(), g.dst.str().c_str());
    c.label("rel:" + g.relation);
    c.label("src:" + g.src.kind);
    checkPair(c, g.src, g.dst);
}

// more cells than 16 bits can count
void large(pbt::Case& c) {
    GridPair g = largePair(c);
    c.note("src %s\ndst %s", g.src.str().c_str(), g.dst.str().c_str());
    checkPair(c, g.src, g.dst);
}

// coordinates on a coarse lattice: plenty of shared nodes, aligned edges and nodes on edges. The lines of a grid may go back
// and forth, such grids are folded: their cells overlap or coincide.
void lattice(pbt::Case& c) {
    bool folded[2] = {c.chance(1, 4), c.chance(1, 8)};
    auto make = [&](int maxn, bool fold) {
        int n0 = c.range(2, maxn), n1 = c.range(2, maxn);
        Grid g(n0, n1);
        std::vector<int> u(n0), v(n1);
        u[0] = c.range(-2, 4);
        v[0] = c.range(-2, 4);
        for (int i = 1; i < n0; ++i) u[i] = u[i - 1] + c.range(1, 3) * (fold && c.chance(1, 3) ? -1 : 1);
        for (int i = 1; i < n1; ++i) v[i] = v[i - 1] + c.range(1, 3) * (fold && c.chance(1, 6) ? -1 : 1);
        int shear = c.range(0, 1), diag = c.range(0, 2);
        for (int i = 0; i < n0; ++i)
            for (int j = 0; j < n1; ++j) {
                int x = u[i], y = v[j];
                if (shear) x += (y - v[0]) / 2 * 1;
                if (diag == 1) { int a = x - y, b = x + y; x = a; y = b; }
                g.set(i, j, x, y);
            }
        g.kind = fold ? "folded lattice" : "lattice";
        return g;
    };
    Grid src = make(6, folded[0]), dst = make(6, folded[1]);
    if (src.cellConvexity() <= 0.05 || dst.cellConvexity() <= 0.05) {
        folded[0] = folded[1] = false;
        for (Grid* g : {&src, &dst})
            for (int i = 0; i < g->dims[0]; ++i)
                for (int j = 0; j < g->dims[1]; ++j) g->set(i, j, i * 2, j * 3);
    }
    double s = c.oneof<double>({1, 0.5, 0.1, 1. / 3., 0.7, 1e-7, 1e6});
    for (Grid* g : {&src, &dst})
        for (int k = 0; k < g->numNodes(); ++k) { g->x[k] *= s; g->y[k] *= s; }
    c.note("src %s\ndst %s", src.str().c_str(), dst.str().c_str());
    c.label(folded[0] || folded[1], "folded");
    checkPair(c, src, dst, folded[0], folded[1]);
}

// a ring of more than one turn, or folded: several source cells lie over each other
void winding(pbt::Case& c) {
    Grid g[2] = {Grid(2, 2), Grid(2, 2)};
    bool multi[2] = {true, c.chance(1, 3)};
    for (int k = 0; k < 2; ++k) {
        int n0 = c.range(2, 4), n1 = c.range(3, 12);
        g[k] = Grid(n0, n1);
        double r0 = c.real(0.2, 1), r1 = r0 + c.real(0.1, 1), t = c.nice(3), step = c.real(0.2, 1.2), dr = multi[k] ? c.real(-0.05, 0.2) : 0;
        if (!multi[k]) step = 6.0 / (n1 - 1) > 1.2 ? 0.6 : 6.0 / (n1 - 1);
        bool exact = multi[k] && c.chance(1, 3); // the turns coincide up to round off
        if (exact) { step = 2 * M_PI / c.range(5, 9); dr = 0; }
        for (int j = 0; j < n1; ++j) {
            for (int i = 0; i < n0; ++i) {
                double r = r0 + (r1 - r0) * i / (n0 - 1) + dr * j * step / 6.3;
                g[k].set(i, j, r * cos(t), r * sin(t));
            }
            t += step;
        }
        g[k].kind = multi[k] ? "spiral" : "ring";
    }
    double th = c.real(-3, 3), tx = c.real(-0.5, 0.5), s = c.chance(1, 6) ? 1e-6 : 1;
    for (int k = 0; k < g[1].numNodes(); ++k) {
        double x = g[1].x[k], y = g[1].y[k];
        g[1].x[k] = cos(th) * x - sin(th) * y + tx;
        g[1].y[k] = sin(th) * x + cos(th) * y;
    }
    for (Grid& h : g)
        for (int k = 0; k < h.numNodes(); ++k) { h.x[k] *= s; h.y[k] *= s; }
    if (c.chance(1, 2)) { std::swap(g[0], g[1]); std::swap(multi[0], multi[1]); }
    if (g[0].cellConvexity() <= 0.03 || g[1].cellConvexity() <= 0.03) { c.label("discarded"); return; }
    c.note("src %s\ndst %s", g[0].str().c_str(), g[1].str().c_str());
    checkPair(c, g[0], g[1], multi[0], multi[1]);
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C01";
    p.rule = "two structured grids of convex quads (rectilinear, sheared, curvilinear, randomly perturbed, polar with "
             "its singular centre, lattice aligned; identical, nested, shifted, rotated, inside, covering, swapped, "
             "clockwise; tens of thousands of cells; folded and winding grids whose cells overlap each other; sizes from 1e-8 to 1e10); the weight of every pair of cells is compared with the overlap area obtained by polygon "
             "clipping in extended precision. Non-trivial: at least two pairs of cells overlap and one of the overlaps "
             "is a proper part of both cells";
    p.subs = {{"pairs", 1200, pairs}, {"lattice", 600, lattice}, {"winding", 200, winding}, {"large", 1, large}};
    return p;
}
