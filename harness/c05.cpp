// C05: intersection of a segment with a quad
#include "flowref.h"
#include "SgQuadLineIntersect.h"
using namespace geom;

namespace {

void checkSegment(pbt::Case& c, const double* q, const double* s) {
    if (c.verbose) {
        c.note(" quad");
        for (int i = 0; i < 4; ++i) c.note(" (%.17g,%.17g)", q[2 * i], q[2 * i + 1]);
        c.note(" segment (%.17g,%.17g) (%.17g,%.17g)", s[0], s[1], s[2], s[3]);
    }
    std::vector<double> saveQ(q, q + 8), saveS(s, s + 4);
    SgQuadLineIntersect_type* o = nullptr;
    SgQuadLineIntersect_new(&o);
    SgQuadLineIntersect_setQuadPoints(&o, q);
    SgQuadLineIntersect_setLinePoints(&o, s);
    int n = -1;
    double* pts = nullptr;
    SgQuadLineIntersect_collectIntersectPoints(&o, &n, &pts);
    std::vector<double> p;
    if (n > 0 && pts) p.assign(pts, pts + 2 * n);
    SgQuadLineIntersect_del(&o);
    CHECK(n >= 0 && (n == 0 || !p.empty()), "%d points", n);
    CHECK(std::equal(saveQ.begin(), saveQ.end(), q) && std::equal(saveS.begin(), saveS.end(), s), "the input was modified");

    Poly quad = fromFlat(q, 4);
    P a{(LD) s[0], (LD) s[1]}, b{(LD) s[2], (LD) s[3]};
    LD len = dist(a, b), size = std::max(perimeter(quad), len), big = 0;
    for (int i = 0; i < 8; ++i) big = std::max(big, std::abs((LD) q[i]));
    for (int i = 0; i < 4; ++i) big = std::max(big, std::abs((LD) s[i]));
    LD tol = 1e-11L * size + 5e-14L * big;
    LD prev = -INFINITY, lo = INFINITY, hi = -INFINITY;
    for (int i = 0; i < n; ++i) {
        P x{(LD) p[2 * i], (LD) p[2 * i + 1]};
        CHECK(std::isfinite((double) x.x) && std::isfinite((double) x.y), "point %d is (%g, %g)", i, (double) x.x, (double) x.y);
        CHECK(distToSegment(x, a, b) <= tol, "point %d (%.17g, %.17g) is not on the segment", i, (double) x.x, (double) x.y);
        CHECK(depth(x, quad) >= -tol, "point %d (%.17g, %.17g) is outside the quad by %.3g", i, (double) x.x, (double) x.y,
              (double) -depth(x, quad));
        LD t = ((x.x - a.x) * (b.x - a.x) + (x.y - a.y) * (b.y - a.y)) / len;
        CHECK(t >= prev - tol, "point %d comes before the previous one along the segment", i);
        prev = t;
        lo = std::min(lo, t);
        hi = std::max(hi, t);
    }
    // what is well inside must be there
    LD t0, t1, margin = 1e-9L * size + 1e-12L * big;
    bool inside = clipSegment(a, b, quad, -margin, t0, t1);
    LD length = inside ? (t1 - t0) * len : 0;
    if (inside && length > margin) {
        CHECK(n >= 2, "the segment goes through the quad from %.17g to %.17g but there are %d points", (double) t0, (double) t1, n);
        CHECK(lo <= t0 * len + tol && hi >= t1 * len - tol,
              "the segment goes through the quad from %.17g to %.17g, the points go from %.17g to %.17g", (double) t0, (double) t1,
              (double) (lo / len), (double) (hi / len));
    }
    LD s0, s1;
    bool touches = clipSegment(a, b, quad, margin, s0, s1);
    if (!touches) CHECK(n == 0, "the segment misses the quad but there are %d points", n);
    c.nontrivial = length > 0.01L * std::min(size, len) && (t0 > 0.001L || t1 < 0.999L);
    c.label(!touches, "misses");
    c.label(touches && length <= margin, "touches only");
    c.label(inside && t0 == 0 && t1 == 1, "segment inside");
    c.label(inside && t0 > 0 && t1 < 1, "goes across");
}

// a segment related to the quad
void segment(pbt::Case& c, const Poly& q, double* s) {
    auto point = [&](P& r) {
        int how = c.pick({4, 2, 1, 1, 1});
        int e = c.range(0, 3), f = (e + 1) % 4;
        LD t = c.chance(1, 2) ? c.unit() : c.range(0, 4) / 4.0;
        switch (how) {
        case 0: r = bilinear(q, c.real(-1, 2), c.real(-1, 2)); break;
        case 1: r = bilinear(q, c.unit(), c.unit()); break;
        case 2: r = q[e]; break;
        case 3: r = P{q[e].x + t * (q[f].x - q[e].x), q[e].y + t * (q[f].y - q[e].y)}; break;
        default: t = c.real(-1, 2); r = P{q[e].x + t * (q[f].x - q[e].x), q[e].y + t * (q[f].y - q[e].y)};
        }
    };
    P a, b;
    if (c.chance(1, 12)) {
        // crosses an edge, or passes it, at a tiny angle
        int e = c.range(0, 3), f = (e + 1) % 4;
        LD t0 = c.real(-1, 2), t1 = c.real(-1, 2), dx = q[f].x - q[e].x, dy = q[f].y - q[e].y;
        LD d0 = tiny(c), d1 = tiny(c);
        if (fabsl(t1 - t0) < 0.1L) t1 = t0 + 0.5L;
        a = P{q[e].x + t0 * dx - d0 * dy, q[e].y + t0 * dy + d0 * dx};
        b = P{q[e].x + t1 * dx - d1 * dy, q[e].y + t1 * dy + d1 * dx};
        if (dist(q[e], q[f]) == 0) b = q[(e + 2) % 4];
        s[0] = (double) a.x;
        s[1] = (double) a.y;
        s[2] = (double) b.x;
        s[3] = (double) b.y;
        c.label("tiny angle with an edge");
        return;
    }
    point(a);
    if (c.chance(1, 6)) {
        // along an edge or parallel to it
        int e = c.range(0, 3), f = (e + 1) % 4;
        LD t0 = c.range(-4, 8) / 4.0, t1 = c.range(-4, 8) / 4.0;
        if (c.chance(1, 2)) a = q[e];
        if (t0 == t1) t1 += 1;
        b = P{a.x + t1 * (q[f].x - q[e].x), a.y + t1 * (q[f].y - q[e].y)};
        a = P{a.x + t0 * (q[f].x - q[e].x), a.y + t0 * (q[f].y - q[e].y)};
    } else {
        point(b);
    }
    if (c.chance(1, 10)) {
        // far shorter or longer than the quad
        LD l = std::pow(10., c.chance(1, 2) ? -c.real(1, 8) : c.real(1, 6)), u = c.unit();
        if (dist(a, b) < 1e-3L * perimeter(q)) b = P{a.x + (q[2].x - q[0].x) * 0.7L, a.y + (q[2].y - q[0].y) * 0.7L};
        P m{a.x + u * (b.x - a.x), a.y + u * (b.y - a.y)}, d{b.x - a.x, b.y - a.y};
        a = P{m.x - l * u * d.x, m.y - l * u * d.y};
        b = P{m.x + l * (1 - u) * d.x, m.y + l * (1 - u) * d.y};
        c.label(l < 1 ? "far shorter" : "far longer");
    } else if (dist(a, b) < 1e-3L * perimeter(q)) b = P{a.x + (q[2].x - q[0].x) * 0.7L, a.y + (q[2].y - q[0].y) * 0.7L};
    s[0] = (double) a.x;
    s[1] = (double) a.y;
    s[2] = (double) b.x;
    s[3] = (double) b.y;
}

void real(pbt::Case& c) {
    Poly q{P{0, 0}, P{1, 0}, P{1, 1}, P{0, 1}};
    switch (c.pick({1, 3, 1})) {
    case 1:
        for (auto& p : q) { p.x += 0.22L * c.nice(1); p.y += 0.22L * c.nice(1); }
        if (minSine(q) < 0.05L) q = Poly{P{0, 0}, P{1, 0}, P{1, 1}, P{0, 1}};
        break;
    case 2: {
        double r0 = c.chance(1, 2) ? 0 : c.unit(), t0 = c.nice(3), dt = c.real(0.2, 2.2), r1 = r0 + c.real(0.2, 1);
        q = Poly{P{r0 * cosl(t0), r0 * sinl(t0)}, P{r1 * cosl(t0), r1 * sinl(t0)}, P{r1 * cosl(t0 + dt), r1 * sinl(t0 + dt)},
                 P{r0 * cosl(t0 + dt), r0 * sinl(t0 + dt)}};
        break;
    }
    }
    if (c.chance(1, 5)) std::swap(q[1], q[3]);
    Affine f = placement(c, true, true);
    double s[4], fq[8];
    for (int i = 0; i < 4; ++i) {
        double x = (double) q[i].x, y = (double) q[i].y;
        f.apply(x, y);
        fq[2 * i] = x;
        fq[2 * i + 1] = y;
    }
    q = fromFlat(fq, 4);
    segment(c, q, s);
    checkSegment(c, fq, s);
}

void lattice(pbt::Case& c) {
    int w = c.range(1, 4), h = c.range(1, 4), sh = c.range(-1, 1);
    double k = c.oneof<double>({1, 0.1, 1. / 3, 0.7, 50});
    double fq[8] = {0, 0, k * w, 0, k * (w + sh), k * h, k * sh, k * h};
    double s[4];
    for (double& v : s) v = k * c.range(-4, 12) / 2.0;
    if (s[0] == s[2] && s[1] == s[3]) s[2] += k;
    checkSegment(c, fq, s);
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C05";
    p.rule = "a convex quad (square, distorted, polar cell, clockwise, integer coordinates) and a segment that crosses it, ends "
             "in it, on its nodes or edges, runs along or parallel to an edge, or misses it; compared with half-plane clipping "
             "in extended precision. Non-trivial: a sizeable but proper part of the segment is inside the quad";
    p.subs = {{"real", 3, real}, {"lattice", 1, lattice}};
    return p;
}
