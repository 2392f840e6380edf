// C07: flow interpolation
#include "flowref.h"
#include "SgFlowInterp2D.h"
using namespace geom;

namespace {

const double SENTINEL = -98765.25;

std::vector<double> interpolate(const Grid& g, const std::vector<double>& x, const std::vector<double>& y, const EdgeData& d,
                                bool order) {
    SgFlowInterp2D_type* o = nullptr;
    SgFlowInterp2D_new(&o);
    const int n[] = {(int) x.size()};
    const double* xy[] = {x.data(), y.data()};
    if (order) SgFlowInterp2D_setDstGrid(&o, n, xy);
    SgFlowInterp2D_setSrcGrid(&o, g.dims, (const double**) g.c);
    if (!order) SgFlowInterp2D_setDstGrid(&o, n, xy);
    SgFlowInterp2D_computeWeights(&o);
    EdgeData copy = d;
    copy.bind();
    std::vector<double> r = applied((int) x.size() - 1, SENTINEL, [&](double* p) { SgFlowInterp2D_apply(&o, copy.c, p); });
    SgFlowInterp2D_del(&o);
    CHECK(same(copy.e[0], d.e[0]) && same(copy.e[1], d.e[1]), "apply modified the source data");
    return r;
}

// fraction of the segment that runs along the outer boundary of the grid, to within eps
LD alongBoundary(const Grid& g, const P& a, const P& b, LD eps) {
    LD res = 0;
    auto side = [&](const P& p, const P& q) {
        LD l = dist(p, q);
        if (l == 0) return;
        P t{(q.x - p.x) / l * eps, (q.y - p.y) / l * eps};
        Poly box{{p.x - t.x + t.y, p.y - t.y - t.x}, {q.x + t.x + t.y, q.y + t.y - t.x},
                 {q.x + t.x - t.y, q.y + t.y + t.x}, {p.x - t.x - t.y, p.y - t.y + t.x}};
        LD t0, t1;
        if (clipSegment(a, b, box, 0, t0, t1)) res += t1 - t0;
    };
    int n0 = g.dims[0], n1 = g.dims[1];
    for (int i = 0; i + 1 < n0; ++i) { side(g.at(i, 0), g.at(i + 1, 0)); side(g.at(i, n1 - 1), g.at(i + 1, n1 - 1)); }
    for (int j = 0; j + 1 < n1; ++j) { side(g.at(0, j), g.at(0, j + 1)); side(g.at(n0 - 1, j), g.at(n0 - 1, j + 1)); }
    return res;
}

void check(pbt::Case& c, const Grid& g, const std::vector<double>& x, const std::vector<double>& y) {
    int nseg = (int) x.size() - 1;
    if (c.verbose) {
        c.note("src %s\npolyline", g.str().c_str());
        for (size_t i = 0; i < x.size(); ++i) c.note(" (%.17g,%.17g)", x[i], y[i]);
    }
    // either the differences of a potential or arbitrary edge values
    bool potential = !c.chance(1, 3);
    std::vector<double> psi(g.numNodes());
    EdgeData d;
    int how = c.range(0, 2);
    for (int k = 0; k < g.numNodes(); ++k)
        psi[k] = how == 0 ? c.real(-1, 1) : (how == 1 ? (double) c.range(-2, 2) : k % g.dims[1] + 0.1 * (k / g.dims[1]));
    d = fromPotential(g, psi);
    if (!potential)
        for (auto& e : d.e)
            for (auto& v : e) v = c.nice(1);
    LD amp = 1e-30L;
    for (auto& e : d.e)
        for (double v : e) amp = std::max(amp, std::abs((LD) v));
    LD big = g.maxAbs(), edge = g.minEdge(), cell = 0; // the largest cell
    for (int k = 0; k < g.numCells(); ++k) cell = std::max(cell, perimeter(g.quad(k)) / 2);
    for (double v : x) big = std::max(big, std::abs((LD) v));
    for (double v : y) big = std::max(big, std::abs((LD) v));

    std::vector<double> r = interpolate(g, x, y, d, c.chance(1, 2));
    if (c.chance(1, 8)) {
        // in another unit
        int e = someUnit(c);
        EdgeData de = d;
        for (auto& v : de.e) v = inUnit(v, e);
        std::vector<double> re = interpolate(g, x, y, de, c.chance(1, 2));
        for (int k = 0; k < nseg; ++k)
            if (r[k] != SENTINEL) CHECK(re[k] == std::ldexp(r[k], e), "segment %d: data times 2^%d give %.17g instead of %.17g times that", k, e, re[k], r[k]);
        c.label("another unit");
    }
    if (c.chance(1, 8)) {
        // values that are missing on the edges of cells that are elsewhere
        int k = c.range(0, nseg - 1);
        double gone = missing(c);
        EdgeData dm = d;
        LD lox = std::min(x[k], x[k + 1]) - 0.05L * edge, hix = std::max(x[k], x[k + 1]) + 0.05L * edge;
        LD loy = std::min(y[k], y[k + 1]) - 0.05L * edge, hiy = std::max(y[k], y[k + 1]) + 0.05L * edge;
        std::vector<char> near0(d.e[0].size(), 0), near1(d.e[1].size(), 0);
        int m1 = g.dims[1] - 1;
        for (int q = 0; q < g.numCells(); ++q) {
            LD l0 = INFINITY, h0 = -INFINITY, l1 = INFINITY, h1 = -INFINITY;
            for (const P& p : g.quad(q)) {
                l0 = std::min(l0, p.x);
                h0 = std::max(h0, p.x);
                l1 = std::min(l1, p.y);
                h1 = std::max(h1, p.y);
            }
            if (h0 < lox || l0 > hix || h1 < loy || l1 > hiy) continue;
            int i = q / m1, j = q % m1;
            near0[i * g.dims[1] + j] = near0[i * g.dims[1] + j + 1] = near1[i * m1 + j] = near1[(i + 1) * m1 + j] = 1;
        }
        int gaps = 0;
        for (size_t q = 0; q < near0.size(); ++q) if (!near0[q]) { dm.e[0][q] = gone; gaps++; }
        for (size_t q = 0; q < near1.size(); ++q) if (!near1[q]) { dm.e[1][q] = gone; gaps++; }
        std::vector<double> rm = interpolate(g, x, y, dm, c.chance(1, 2));
        CHECK(rm[k] == r[k], "segment %d: %.17g instead of %.17g because of the data on the edges of other cells", k, rm[k], r[k]);
        c.label(gaps > 0, "missing values elsewhere");
    }
    LD total = 0, wantTotal = 0, tolTotal = 0;
    int cells = 0, segs = 0;
    bool along = false, outside = false, slanted = false;
    for (int k = 0; k < nseg; ++k) {
        P a{(LD) x[k], (LD) y[k]}, b{(LD) x[k + 1], (LD) y[k + 1]};
        FlowRef f = refFlow(g, d, a, b);
        CHECK(f.ok, "reference failed");
        LD tol = amp * (f.cells + 2) * (1e-9L + (3e-9L * cell + 1e-12L * big) / edge);
        // slivers: a segment that leaves a cell side at a very small angle is inside for a while, to within round off
        for (LD grow : {0.L, 1e-13L, 1e-12L * (1 + big / edge)}) {
            FlowRef o = refFlow(g, d, a, b, grow);
            if (o.ok && std::abs(o.inside - f.inside) < 1e-4L) tol = std::max(tol, 1.01L * std::abs(o.value - f.value) + tol);
        }
        // in or out is a matter of round off on a slanted boundary
        if (a.x != b.x && a.y != b.y && alongBoundary(g, a, b, 1e-13L * (big + edge)) * dist(a, b) > 1e-7L * edge) {
            slanted = true;
            continue;
        }
        if (r[k] == SENTINEL) {
            // on the boundary and beyond it by round off counts as outside here
            FlowRef o = refFlow(g, d, a, b, 0);
            CHECK(std::min(f.inside, o.inside) * dist(a, b) <= 1e-9L * edge,
                  "segment %d has no value but %.3g of its length is inside the grid", k, (double) f.inside);
            outside = true;
            continue;
        }
        CHECK(std::isfinite(r[k]), "segment %d: %g", k, r[k]);
        CHECK(std::abs(r[k] - f.value) <= tol, "segment %d (%s data, %.6g of its length inside, %d cells%s): flow %.15g, should be %.15g", k,
              potential ? "potential" : "edge", (double) f.inside, f.cells, f.along ? ", along a cell side" : "", r[k], (double) f.value);
        total += r[k];
        wantTotal += f.value;
        tolTotal += tol;
        cells += f.cells;
        segs += f.cells > 0;
        along |= f.along;
        if (f.inside < 1 - 1e-9L) outside = true;
    }
    c.nontrivial = cells >= 3 && segs >= 1;
    c.label(along, "along a cell side");
    c.label(outside, "partly outside");
    c.label(slanted, "along a slanted boundary: not decided");
    c.label(potential, "potential");
    c.label(cells >= 6, "six cells or more");
    c.label(nseg > 30, "more than 30 segments");
    c.label("src:" + g.kind);
}

Grid source(pbt::Case& c) {
    Grid g = unitGrid(c, c.pick({4, 2, 2, 0, 2, 2}), 7);
    if (g.convexity() < 0.3L || g.minEdge() < 0.01) {
        int n0 = g.dims[0], n1 = g.dims[1];
        for (int i = 0; i < n0; ++i)
            for (int j = 0; j < n1; ++j) g.set(i, j, i / double(n0 - 1), j / double(n1 - 1));
        g.kind = "rect";
    }
    return g;
}

void polyline(pbt::Case& c) {
    Grid g = source(c);
    Affine f = placement(c, true, true);
    f.apply(g);
    if (c.chance(1, 6)) g = flipped(g);
    int n = c.chance(1, 30) ? c.range(2, 150) : c.range(2, 6);
    bool closed = n > 3 && c.chance(1, 3);
    std::vector<double> x, y;
    for (int i = 0; i < n; ++i) {
        P p;
        int ci = c.range(0, g.dims[0] - 2), cj = c.range(0, g.dims[1] - 2);
        Poly q = g.quad(ci * (g.dims[1] - 1) + cj);
        switch (c.pick({4, 2, 1, 1})) {
        case 0: p = bilinear(q, c.unit(), c.unit()); break;
        case 1: p = g.at(c.range(0, g.dims[0] - 1), c.range(0, g.dims[1] - 1)); break; // a node
        case 2: p = bilinear(q, c.range(0, 1), c.unit()); break; // on a cell side
        default: { // anywhere
            LD far = c.chance(1, 4) ? 1000 : 3;
            p = bilinear(q, c.real(-1, 1) * far, c.real(-1, 1) * far);
        }
        }
        x.push_back((double) p.x);
        y.push_back((double) p.y);
        // a dst node that is repeated is not interesting, except for being harmless
        if (i > 0 && x[i] == x[i - 1] && y[i] == y[i - 1] && !c.chance(1, 8)) {
            P m = bilinear(q, 0.3L, 0.6L);
            x[i] = (double) m.x;
            y[i] = (double) m.y;
        }
    }
    if (closed) {
        x.push_back(x[0]);
        y.push_back(y[0]);
    }
    check(c, g, x, y);
}

// along the lines of the grid
void gridLines(pbt::Case& c) {
    Grid g = source(c);
    if (g.kind == "sector" && c.chance(1, 2)) g.kind = "sector";
    Affine f = placement(c, true, true);
    f.apply(g);
    std::vector<double> x, y;
    bool first = c.chance(1, 2);
    int line = c.range(0, g.dims[first ? 1 : 0] - 1), n = g.dims[first ? 0 : 1];
    auto at = [&](double t) {
        int k = std::min(n - 2, (int) t);
        LD s = t - k;
        P a = first ? g.at(k, line) : g.at(line, k), b = first ? g.at(k + 1, line) : g.at(line, k + 1);
        x.push_back((double) (a.x + s * (b.x - a.x)));
        y.push_back((double) (a.y + s * (b.y - a.y)));
    };
    bool straight = g.kind == "rect" || g.kind == "sheared";
    if (straight) {
        int m = c.range(2, 5);
        for (int i = 0; i < m; ++i) at(c.chance(1, 2) ? c.range(0, n - 1) : c.real(0, n - 1));
    } else {
        for (int i = 0; i < n; ++i) at(i);
        if (c.chance(1, 2)) { std::reverse(x.begin(), x.end()); std::reverse(y.begin(), y.end()); }
    }
    for (size_t i = 1; i < x.size(); ++i) {
        if (x[i] == x[i - 1] && y[i] == y[i - 1]) { x.erase(x.begin() + i); y.erase(y.begin() + i); i--; }
    }
    if (x.size() < 2) at(x[0] == g.x[0] && y[0] == g.y[0] ? n - 1 : 0);
    if (x.size() < 2 || (x[0] == x[1] && y[0] == y[1])) { x = {g.x[0], g.x[g.numNodes() - 1]}; y = {g.y[0], g.y[g.numNodes() - 1]}; }
    if (c.chance(1, 4)) {
        // nearly along the lines: crosses them at a tiny angle or passes close to them
        double d = (double) g.minEdge();
        for (size_t i = 0; i < x.size(); ++i) {
            if (c.chance(1, 3)) continue;
            x[i] += tiny(c) * d;
            y[i] += tiny(c) * d;
        }
        c.label("nearly along a line");
    }
    check(c, g, x, y);
}

// more cells than 16 bits can count
void large(pbt::Case& c) {
    Grid g = manyCells(c);
    placement(c, true, false).apply(g);
    int n1 = g.dims[1] - 1, ci = someIndex(c, g.dims[0] - 1), cj = someIndex(c, n1);
    Poly q = g.quad(ci * n1 + cj);
    std::vector<double> x, y;
    int n = c.range(2, 4);
    for (int i = 0; i < n; ++i) {
        P p = bilinear(q, c.real(-2, 3), c.real(-2, 3));
        x.push_back((double) p.x);
        y.push_back((double) p.y);
    }
    check(c, g, x, y);
}

void regressionAligned() {
    // an interior line and the boundary of a 2 x 2 grid, one segment per line
    for (double L : {1., 10., 0.1})
        for (int line = 0; line <= 2; ++line)
            for (int dir = 0; dir < 2; ++dir) {
                Grid g(3, 3);
                std::vector<double> psi(9);
                for (int i = 0; i < 3; ++i)
                    for (int j = 0; j < 3; ++j) {
                        g.set(i, j, L * i / 2, L * j / 2);
                        psi[g.node(i, j)] = L * (i + 2 * j) / 2;
                    }
                EdgeData d = fromPotential(g, psi);
                std::vector<double> u = {0, L}, v = {L * line / 2, L * line / 2};
                std::vector<double> r = interpolate(g, dir ? v : u, dir ? u : v, d, false);
                CHECK(std::fabs(r[0] - L * (dir ? 2 : 1)) < 1e-10 * L, "size %g line %d direction %d: %.12g", L, line, dir, r[0]);
            }
}

// round off errors in the intersection of a long segment with small cells
void regressionLong() {
    Grid g(3, 3);
    std::vector<double> psi(9);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            g.set(i, j, 0.5 * i, 0.5 * j);
            psi[g.node(i, j)] = 0.5 * i + j;
        }
    EdgeData d = fromPotential(g, psi);
    for (double L : {1e2, 1e3, 1e4, 1e5}) {
        std::vector<double> r = interpolate(g, {-L, 1.1 * L}, {-.3 * L, .33 * L + 0.01}, d, false);
        FlowRef f = refFlow(g, d, {-L, -.3 * L}, {1.1 * L, .33 * L + 0.01});
        CHECK(std::abs(r[0] - f.value) < 1e-14 * L + 1e-10, "length %g: %.12g, should be %.12Lg", L, r[0], f.value);
    }
}

// segments that cross a slanted line of the grid at a tiny angle
void regressionAngle() {
    Grid g(3, 2);
    std::vector<double> psi;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 2; ++j) {
            g.set(i, j, 0.3 * i + 0.37 * j, 0.11 * i + 0.59 * j);
            psi.push_back(j);
        }
    EdgeData d = fromPotential(g, psi);
    for (double e = 1e-14; e < 1e-3; e *= 1.7)
        for (int k = 1; k < 10; ++k) {
            double x0 = 0.3 - e * k, x1 = 0.67 + e * (10 - k);
            std::vector<double> r = interpolate(g, {x0, x1}, {0.11, 0.7}, d, false);
            CHECK(std::fabs(r[0] - 1) < 3e-9 + 10 * e, "off the line by %g: flow %.15g, should be 1", e, r[0]);
        }
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C07";
    p.rule = "a grid of convex quads (rectilinear, sheared, curvilinear, perturbed, sector, clockwise, tens of thousands of cells) and a polyline (inside, "
             "through nodes and cell sides, along grid lines or at a tiny angle with them, leaving the grid, closed), edge values that are differences of a "
             "nodal potential or arbitrary; the flow of each segment is compared with the sum over the cells of the exact "
             "index-space formula, and with the flow of the same data in another unit or with missing values elsewhere. Non-trivial: the polyline crosses at least three cells";
    p.subs = {{"polyline", 6000, polyline}, {"gridLines", 2000, gridLines}, {"large", 1, large}};
    p.regressions = {{"aligned", regressionAligned}, {"long", regressionLong}, {"angle", regressionAngle}};
    return p;
}
