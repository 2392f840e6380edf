// C03: area of the convex hull of a set of points
#include "geom.h"
#include "SgTriangulate.h"
using namespace geom;

namespace {

double area(const std::vector<double>& pts) {
    SgTriangulate_type* o = nullptr;
    static double dummy[2] = {0, 0};
    int n = (int) pts.size() / 2;
    SgTriangulate_new(&o, n, n ? pts.data() : dummy);
    double a = -1;
    SgTriangulate_getConvexHullArea(&o, &a);
    SgTriangulate_del(&o);
    return a;
}

void checkPoints(pbt::Case& c, std::vector<double> pts) {
    size_t n = pts.size() / 2;
    if (c.verbose && n <= 500) {
        c.note("%zu points:", n);
        for (size_t i = 0; i < n; ++i) c.note(" (%.17g,%.17g)", pts[2 * i], pts[2 * i + 1]);
    }
    Poly p = fromFlat(pts.data(), n);
    Poly h = hull(p);
    LD want = h.size() < 3 ? 0 : signedArea(h);
    LD diam = 0;
    bool merge = false, dup = false;
    LD offset = 0;
    for (size_t i = 0; i < n; ++i) {
        offset = std::max(offset, std::max(std::abs(p[i].x), std::abs(p[i].y)));
        if (n > 500) continue;
        for (size_t j = 0; j < i; ++j) {
            LD d = dist(p[i], p[j]);
            diam = std::max(diam, d);
            if (d < 2e-6L && d > 1e-12L) merge = true;
            if (d == 0) dup = true;
        }
    }
    if (n > 500) // the points that are furthest apart are on the hull
        for (auto& a : h) diam = std::max(diam, dist(a, h[0]));
    LD tol = 1e-10L * diam * diam + 1e-13L * offset * diam;

    double got = area(pts);
    CHECK(std::abs((LD) got - want) <= tol, "hull area %.17g, should be %.17g", got, (double) want);

    // any order of the points
    std::vector<double> perm = pts;
    for (size_t i = n; i > 1; --i) {
        size_t j = n > 500 ? pbt::mix(i) % i : (size_t) c.range(0, (int) i - 1);
        std::swap(perm[2 * (i - 1)], perm[2 * j]);
        std::swap(perm[2 * (i - 1) + 1], perm[2 * j + 1]);
    }
    double got2 = area(perm);
    CHECK(std::abs((LD) got2 - want) <= tol, "hull area after a permutation %.17g, should be %.17g", got2, (double) want);
    c.nontrivial = h.size() >= 3 && n >= 4 && (h.size() < n || dup);
    c.label(h.size() < 3, "collinear");
    c.label(h.size() == n, "all on the hull");
    c.label(h.size() > 8, "more than 8 hull points");
    c.label(dup, "duplicates");
    c.label(merge, "near duplicates");
}

std::vector<double> shuffleDup(pbt::Case& c, std::vector<double> pts, double jitter) {
    size_t n = pts.size() / 2;
    if (n == 0) return pts;
    int k = c.range(0, 4);
    for (int i = 0; i < k; ++i) {
        size_t j = (size_t) c.range(0, (int) n - 1);
        pts.push_back(pts[2 * j] + jitter * c.real(-1, 1));
        pts.push_back(pts[2 * j + 1] + jitter * c.real(-1, 1));
    }
    return pts;
}

void lattice(pbt::Case& c) {
    int n = c.range(0, 12), m = c.range(1, 5);
    std::vector<double> pts;
    double s = c.oneof<double>({1, 0.1, 1. / 3, 100, 0.01, 1e-5, 1e5});
    double ox = c.range(-3, 3), oy = c.range(-3, 3);
    for (int i = 0; i < n; ++i) {
        pts.push_back(s * (ox + c.range(0, m)));
        pts.push_back(s * (oy + c.range(0, m)));
    }
    checkPoints(c, pts);
}

void reals(pbt::Case& c) {
    int n = c.range(1, 24);
    std::vector<double> pts;
    double s = std::exp(c.real(std::log(1e-4), std::log(1e4)));
    double ox = c.nice(3), oy = c.nice(3), asp = c.chance(1, 3) ? c.real(0.001, 1) : 1;
    double th = c.chance(1, 3) ? c.real(0, 3.2) : 0;
    int how = c.range(0, 2);
    for (int i = 0; i < n; ++i) {
        double a, b;
        if (how == 1) { double t = 2 * M_PI * c.unit(); a = cos(t); b = sin(t); }
        else { a = c.real(-1, 1); b = c.real(-1, 1); }
        if (how == 2 && c.chance(1, 2)) a = c.range(-1, 1); // many on a few lines
        b *= asp;
        pts.push_back(s * (ox + cos(th) * a - sin(th) * b));
        pts.push_back(s * (oy + sin(th) * a + cos(th) * b));
    }
    if (c.chance(1, 2)) pts = shuffleDup(c, pts, 0);
    else if (c.chance(1, 4)) pts = shuffleDup(c, pts, c.oneof<double>({1e-16, 1e-15, 1e-14, 1e-13, 1e-12, 1e-11, 1e-9, 1e-7, 1e-6, 1e-4}));
    checkPoints(c, pts);
}

// more than a few: in a square, on a circle, on a lattice, on a line
void many(pbt::Case& c) {
    int n = c.range(1, c.chance(1, 4) ? 400 : 80), how = c.range(0, 3), m = c.range(2, 12);
    double s = c.oneof<double>({1, 1e-3, 1e3}), ox = c.nice(3), oy = c.nice(3), asp = c.chance(1, 3) ? c.real(0.01, 1) : 1;
    std::vector<double> pts;
    for (int i = 0; i < n; ++i) {
        double a, b;
        if (how == 0) { a = c.real(-1, 1); b = c.real(-1, 1); }
        else if (how == 1) { double t = 2 * M_PI * c.unit(); a = cos(t); b = sin(t); }
        else if (how == 2) { a = c.range(0, m) / double(m); b = c.range(0, m) / double(m); }
        else { a = c.unit(); b = c.chance(1, 20) ? c.unit() : 0; }
        pts.push_back(s * (ox + a));
        pts.push_back(s * (oy + asp * b));
    }
    if (c.chance(1, 3)) pts = shuffleDup(c, pts, 0);
    checkPoints(c, pts);
    c.label(n > 100, "more than 100 points");
}

// thousands of points, from one choice
void crowd(pbt::Case& c) {
    bool huge = c.chance(1, 60);
    int n = huge ? c.range(65000, 70000) : c.range(500, 4000), how = c.range(0, 3), m = c.range(2, 100);
    if (how == 1) n = 500 + n % 500;
    uint64_t seed = c.range(0, 1 << 30);
    double ox = c.nice(3), oy = c.nice(3), asp = c.chance(1, 3) ? c.real(0.01, 1) : 1;
    auto unit = [&](int i, int what) { return (pbt::mix(seed ^ pbt::mix(2 * (uint64_t) i + what)) >> 11) * 0x1p-53; };
    std::vector<double> pts;
    for (int i = 0; i < n; ++i) {
        double a = unit(i, 0), b = unit(i, 1);
        if (how == 1) { a = i; b = i % 2; } // zigzag
        else if (how == 2) { a = std::floor(a * m) / m; b = std::floor(b * m) / m; }
        else if (how == 3) { // a disk with some points on its border
            double t = 2 * M_PI * a, r = huge || i % 8 ? b : 1;
            a = r * cos(t);
            b = r * sin(t);
        }
        pts.push_back(ox + a);
        pts.push_back(oy + asp * b);
    }
    checkPoints(c, pts);
    c.label(n > 1000, "more than 1000 points");
    c.label(n > 65536, "more than 65536 points");
}

void collinear(pbt::Case& c) {
    int n = c.range(2, 10), extra = c.range(0, 3);
    std::vector<double> pts;
    double dx = c.nice(1), dy = c.nice(1), ox = c.nice(2), oy = c.nice(2);
    for (int i = 0; i < n; ++i) {
        double t = c.chance(1, 2) ? c.range(-4, 4) / 4.0 : c.real(-1, 1);
        pts.push_back(ox + t * dx);
        pts.push_back(oy + t * dy);
    }
    for (int i = 0; i < extra; ++i) {
        pts.push_back(c.nice(2));
        pts.push_back(c.nice(2));
    }
    pts = shuffleDup(c, pts, 0);
    checkPoints(c, pts);
}

// regular polygons, with the centre, the middle of the edges and copies of the vertices
void polygon(pbt::Case& c) {
    int n = c.range(3, 12);
    double r = c.oneof<double>({1, 0.05, 7, 200});
    double th = c.chance(1, 2) ? 0 : c.real(0, 1);
    std::vector<double> v;
    for (int i = 0; i < n; ++i) {
        v.push_back(r * cos(th + 2 * M_PI * i / n));
        v.push_back(r * sin(th + 2 * M_PI * i / n));
    }
    std::vector<double> pts = v;
    if (c.chance(1, 2)) { pts.push_back(0); pts.push_back(0); }
    for (int i = 0; i < n; ++i) {
        int what = c.range(0, 3);
        int j = (i + 1) % n;
        double t = what == 1 ? 0.5 : (what == 2 ? c.unit() : -1);
        if (t >= 0) {
            pts.push_back(v[2 * i] + t * (v[2 * j] - v[2 * i]));
            pts.push_back(v[2 * i + 1] + t * (v[2 * j + 1] - v[2 * i + 1]));
        }
    }
    pts = shuffleDup(c, pts, 0);
    checkPoints(c, pts);
}

void regressionDup() {
    std::vector<double> p = {0, 0, 1, 0, 1, 1, 0, 1, 0.5, 0.5, 0.5, 0.5, 1, 1};
    CHECK(std::fabs(area(p) - 1) < 1e-12, "area %g", area(p));
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C03";
    p.rule = "sets of 0 to 400 points (on a lattice, random, on a few lines, on a circle, regular polygons with their edge "
             "middles, exact and near duplicates, different scales and aspect ratios), in two random orders; the area is "
             "compared with that of the monotone chain hull in extended precision. Non-trivial: a hull with a positive "
             "area that leaves out some of the points or has duplicates";
    p.subs = {{"lattice", 240, lattice}, {"reals", 320, reals}, {"collinear", 160, collinear}, {"polygon", 160, polygon}, {"many", 4, many}, {"crowd", 1, crowd}};
    p.regressions = {{"duplicates", regressionDup}};
    return p;
}
