// C10: nodal interpolation end to end
#include "noderef.h"
using namespace geom;

namespace {

// index space position -> value of a nodal field, in the cell that holds the position
LD fieldAt(const Grid& g, const std::vector<double>& f, LD u, LD v) {
    int i = std::min(g.dims[0] - 2, (int) floorl(u)), j = std::min(g.dims[1] - 2, (int) floorl(v));
    LD a = u - i, b = v - j;
    return (1 - a) * (1 - b) * f[g.node(i, j)] + a * (1 - b) * f[g.node(i + 1, j)] + a * b * f[g.node(i + 1, j + 1)] +
           (1 - a) * b * f[g.node(i, j + 1)];
}

LD spread(const std::vector<double>& f) {
    return *std::max_element(f.begin(), f.end()) - *std::min_element(f.begin(), f.end());
}

void points(pbt::Case& c) {
    bool covered;
    int per[2];
    bool many = c.chance(1, 2000);
    Grid g = nodeSource(c, covered, per, many);
    std::vector<LD> u, v;
    bool crowd = !many && covered && g.kind == "affine" && c.chance(1, 800);
    Grid d = nodeTargets(c, g, u, v, crowd ? 0 : 12);
    double ext = extent(g), big = g.maxAbs(), tol = ext * 1e-9;
    c.note("src %s periodic %d %d dst %s tolerance %g\n", g.str().c_str(), per[0], per[1], d.str().c_str(), tol);
    NodeInterp o(100, tol);
    if (c.chance(1, 2)) { o.src(g, per); o.dst(d); }
    else { o.dst(d); o.src(g, per); }
    o.compute();
    int n = d.numNodes(), m = g.numNodes();

    // linear fields are reproduced
    LD ca = c.nice(1), cb = c.nice(1), cc = c.nice(3) * ext;
    std::vector<double> f(m);
    for (int k = 0; k < m; ++k) f[k] = (double) (ca * g.x[k] + cb * g.y[k] + cc);
    std::vector<double> r = o.apply(f, n);
    LD scale = (std::abs(ca) + std::abs(cb)) * big + std::abs(cc);
    int found = 0, missed = 0;
    for (int i = 0; i < n; ++i) {
        if (r[i] == UNTOUCHED) {
            missed += u[i] >= 0;
            CHECK(!(covered && u[i] >= 0), "point %d (%.17g,%.17g) at index position %Lg %Lg is not interpolated", i, d.x[i], d.y[i], u[i], v[i]);
            continue;
        }
        found++;
        LD want = ca * d.x[i] + cb * d.y[i] + cc;
        CHECK(std::abs(r[i] - want) <= (std::abs(ca) + std::abs(cb)) * tol * 1.01L + 1e-12L * scale, "point %d: linear field %.17g, should be %.17Lg",
              i, r[i], want);
        CHECK(!outsideBox(g, d.x[i], d.y[i], 2 * tol + 1e-9 * std::max(1.0, big)), "point %d (%.17g,%.17g) is outside the box of the grid but is interpolated", i,
              d.x[i], d.y[i]);
    }

    // any field: multilinear in index space
    std::vector<double> h(m);
    for (int k = 0; k < m; ++k) h[k] = c.chance(1, 3) ? c.range(-2, 2) : c.real(-1, 1);
    if (per[1] || g.kind.substr(0, 5) == "polar" || g.kind.substr(0, 7) == "annulus")
        for (int i = 0; i < g.dims[0]; ++i) h[g.node(i, g.dims[1] - 1)] = h[g.node(i, 0)]; // one value at the seam
    bool centre = g.kind.substr(0, 5) == "polar";
    std::vector<double> rh = o.apply(h, n);
    LD sp = spread(h), minEdge = g.minEdge(), convexity = g.convexity();
    for (int i = 0; i < n; ++i) {
        CHECK((rh[i] == UNTOUCHED) == (r[i] == UNTOUCHED), "point %d is interpolated in one apply only", i);
        if (rh[i] == UNTOUCHED) continue;
        LD lo = *std::min_element(h.begin(), h.end()), hi = *std::max_element(h.begin(), h.end());
        CHECK(rh[i] >= lo - 1e-12L && rh[i] <= hi + 1e-12L, "point %d: %.17g is not in %Lg..%Lg", i, rh[i], lo, hi);
        if (u[i] >= 0 && !centre && minEdge > 0) {
            LD want = fieldAt(g, h, u[i], v[i]);
            LD t = sp * 40 * (tol + 1e-13L * big) / minEdge / std::max(0.05L, convexity) + 1e-12L;
            CHECK(std::abs(rh[i] - want) <= t, "point %d at index position %.12Lg %.12Lg: %.15g, should be %.15Lg (tolerance %Lg)", i, u[i], v[i],
                  rh[i], want, t);
        }
    }

    // superposition
    LD s = c.nice(2);
    std::vector<double> mix(m);
    for (int k = 0; k < m; ++k) mix[k] = (double) (f[k] + s * h[k]);
    std::vector<double> rm = o.apply(mix, n);
    for (int i = 0; i < n; ++i)
        if (r[i] != UNTOUCHED)
            CHECK(std::abs(rm[i] - (r[i] + s * rh[i])) <= 1e-12L * (scale + 4), "point %d: not linear: %.17g, should be %.17Lg", i, rm[i], r[i] + s * rh[i]);

    // in another unit
    int e = someUnit(c);
    std::vector<double> re = o.apply(inUnit(h, e), n);
    for (int i = 0; i < n; ++i)
        if (r[i] != UNTOUCHED) CHECK(re[i] == std::ldexp(rh[i], e), "point %d: data times 2^%d give %.17g instead of %.17g times that", i, e, re[i], rh[i]);
    // a missing value at a node matters only in the cells at this node
    int km = c.range(0, m - 1), im = km / g.dims[1], jm = km % g.dims[1];
    std::vector<double> hm = h;
    hm[km] = missing(c);
    std::vector<double> rmiss = o.apply(hm, n);
    for (int i = 0; i < n; ++i)
        if (r[i] == UNTOUCHED || (covered && per[1] == 0 && g.kind.substr(0, 7) != "annulus" && u[i] >= 0 && (std::abs(u[i] - im) > 2 || std::abs(v[i] - jm) > 2)))
            CHECK(rmiss[i] == rh[i], "point %d: %.17g instead of %.17g because of the data at a node of other cells", i, rmiss[i], rh[i]);

    // grids that are not known to be easy: few points may be missed
    if (!covered && !centre) {
        int inside = 0;
        for (LD x : u) inside += x >= 0;
        CHECK(missed <= 2 + inside / 3, "%d of %d points inside the grid are not interpolated", missed, inside);
    }
    c.nontrivial = found >= 2 && g.numCells() > 1;
    c.label(many, "many cells");
    c.label(crowd, "many destination points");
    c.label(found < n, "some not interpolated");
    c.label(missed > 0, "some inside not interpolated");
    c.label(per[1], "periodic");
    c.label(g.kind);
}

// interpolating to the grid itself returns the data
void identity(pbt::Case& c) {
    bool covered;
    int per[2];
    Grid g = nodeSource(c, covered, per);
    bool centre = g.kind.substr(0, 5) == "polar";
    bool seam = centre || g.kind.substr(0, 7) == "annulus";
    double tol = extent(g) * 1e-10;
    Grid d = g;
    std::vector<int> map(g.numNodes());
    for (int k = 0; k < g.numNodes(); ++k) map[k] = k;
    if (c.chance(1, 2)) {
        std::vector<int> is = someLines(c, g.dims[0]), js = someLines(c, g.dims[1]);
        d = subGrid(g, is, js);
        map.clear();
        for (int i : is)
            for (int j : js) map.push_back(g.node(i, j));
    }
    c.note("src %s periodic %d %d, %d nodes of it, tolerance %g\n", g.str().c_str(), per[0], per[1], d.numNodes(), tol);
    NodeInterp o(100, tol);
    o.src(g, per);
    o.dst(d);
    o.compute();
    std::vector<double> h(g.numNodes());
    for (auto& x : h) x = c.real(-1, 1);
    if (seam)
        for (int i = 0; i < g.dims[0]; ++i) h[g.node(i, g.dims[1] - 1)] = h[g.node(i, 0)];
    if (centre)
        for (int j = 0; j < g.dims[1]; ++j) h[g.node(0, j)] = 0.25;
    std::vector<double> r = o.apply(h, d.numNodes());
    int found = 0;
    LD minEdge = g.minEdge();
    if (minEdge == 0) minEdge = extent(g) / 40;
    for (int k = 0; k < d.numNodes(); ++k) {
        if (r[k] == UNTOUCHED) {
            CHECK(!covered, "node %d of %s is not interpolated", k, g.kind.c_str());
            continue;
        }
        found++;
        LD t = 100 * (tol + 1e-13L * g.maxAbs()) / minEdge / std::max(0.05L, centre ? 0.05L : g.convexity()) + 1e-12L;
        CHECK(std::abs(r[k] - h[map[k]]) <= t, "node %d: %.15g, should be %.15g", k, r[k], h[map[k]]);
    }
    c.nontrivial = found > 1 && g.numCells() > 1;
    c.label(g.kind);
    c.label("identity");
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C10";
    p.rule = "source grids as in C09, target points with a known index position (or anywhere), now and then tens of thousands, linear and random nodal fields; the results "
             "are compared with the linear function, with the multilinear interpolation at the known position, with the range of the field, "
             "with the superposition of fields, with the same fields in another unit or with a missing value elsewhere, and with the data itself when the grids share nodes. Non-trivial: more than one cell and at "
             "least two points interpolated";
    p.subs = {{"points", 3, points}, {"identity", 1, identity}};
    return p;
}
