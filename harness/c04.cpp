// C04: intersection points of two quads
#include "geom.h"
#include "SgQuadIntersect.h"
#include "SgTriangulate.h"
using namespace geom;

namespace {

std::vector<double> points(const double* a, const double* b) {
    SgQuadIntersect_type* o = nullptr;
    SgQuadIntersect_new(&o);
    SgQuadIntersect_setQuadPoints(&o, a, b);
    int n = -1;
    double* p = nullptr;
    SgQuadIntersect_getIntersectPoints(&o, &n, &p);
    std::vector<double> r;
    if (n > 0 && p) r.assign(p, p + 2 * n);
    bool ok = n >= 0 && (n == 0 || p);
    SgQuadIntersect_del(&o);
    CHECK(ok, "%d points, pointer %s", n, p ? "set" : "null");
    return r;
}

void checkQuads(pbt::Case& c, const double* qa, const double* qb) {
    if (c.verbose) {
        for (const double* q : {qa, qb}) {
            c.note(" quad");
            for (int i = 0; i < 4; ++i) c.note(" (%.17g,%.17g)", q[2 * i], q[2 * i + 1]);
        }
    }
    std::vector<double> saveA(qa, qa + 8), saveB(qb, qb + 8);
    Poly a = fromFlat(qa, 4), b = fromFlat(qb, 4);
    LD size = std::max(perimeter(a), perimeter(b)), small = std::min(perimeter(a), perimeter(b));
    LD big = 0;
    for (int i = 0; i < 8; ++i) big = std::max(big, std::max(std::abs((LD) qa[i]), std::abs((LD) qb[i])));
    LD aa = std::abs(signedArea(a)), ab = std::abs(signedArea(b));
    Poly both = clip(ccw(a), ccw(b));
    LD ov = both.size() < 3 ? 0 : std::abs(signedArea(both));
    LD tolLen = 1e-10L * size + 1e-13L * big, tolArea = 1e-10L * std::min(aa, ab) + 2e-12L * (size + big) * small;
    for (int order = 0; order < 2; ++order) {
        std::vector<double> p = order ? points(qb, qa) : points(qa, qb);
        size_t n = p.size() / 2;
        Poly pp = fromFlat(p.data(), n);
        for (auto& q : pp) {
            CHECK(std::isfinite((double) q.x) && std::isfinite((double) q.y), "point (%g, %g)", (double) q.x, (double) q.y);
            LD da = depth(q, a), db = depth(q, b);
            CHECK(da >= -tolLen && db >= -tolLen, "point (%.17g, %.17g) is outside: distances %.3g and %.3g", (double) q.x,
                  (double) q.y, (double) da, (double) db);
        }
        Poly h = hull(pp);
        LD got = h.size() < 3 ? 0 : signedArea(h);
        CHECK(std::abs(got - ov) <= tolArea, "order %d: %zu points, hull area %.17g, the overlap area is %.17g", order, n,
              (double) got, (double) ov);
        // the library's own area
        if (n >= 3) {
            SgTriangulate_type* t = nullptr;
            SgTriangulate_new(&t, (int) n, p.data());
            double lib = -1;
            SgTriangulate_getConvexHullArea(&t, &lib);
            SgTriangulate_del(&t);
            CHECK(std::abs((LD) lib - ov) <= tolArea + 1e-9L * ov, "triangulated area %.17g, overlap %.17g", lib, (double) ov);
        }
        // the corners of the overlap are among the points
        if (ov > tolArea * 1000) {
            Poly corners = hull(both);
            for (size_t i = 0; i < corners.size(); ++i) {
                const P &l = corners[(i + corners.size() - 1) % corners.size()], &m = corners[i],
                        &r = corners[(i + 1) % corners.size()];
                LD s = cross(l, m, r) / (dist(l, m) * dist(m, r));
                if (dist(l, m) < 1e-4L * small || dist(m, r) < 1e-4L * small || s < 1e-2L) continue;
                LD best = INFINITY;
                for (auto& q : pp) best = std::min(best, dist(q, m));
                CHECK(best <= 1e-7L * size, "the corner (%.17g, %.17g) of the overlap is missing (distance %.3g)", (double) m.x,
                      (double) m.y, (double) best);
            }
        }
    }
    CHECK(std::equal(saveA.begin(), saveA.end(), qa) && std::equal(saveB.begin(), saveB.end(), qb), "the quads were modified");
    c.nontrivial = ov > 1e-4L * std::min(aa, ab);
    c.label(ov == 0, "disjoint or touching");
    c.label(ov > 0.999L * std::min(aa, ab), "one inside the other");
    c.label(both.size() > 4, "more than 4 corners");
}

Poly unitQuad(pbt::Case& c) {
    Poly q{P{0, 0}, P{1, 0}, P{1, 1}, P{0, 1}};
    int how = c.pick({2, 3, 1, 1});
    if (how == 1) {
        for (auto& p : q) { p.x += 0.22L * c.nice(1); p.y += 0.22L * c.nice(1); }
    } else if (how == 2) {
        // a cell of a polar grid, possibly with two coincident nodes at the centre
        double r0 = c.chance(1, 2) ? 0 : c.unit(), t0 = c.nice(3), dt = c.real(0.2, 2.2), r1 = r0 + c.real(0.2, 1);
        q = Poly{P{r0 * cosl(t0), r0 * sinl(t0)}, P{r1 * cosl(t0), r1 * sinl(t0)}, P{r1 * cosl(t0 + dt), r1 * sinl(t0 + dt)},
                 P{r0 * cosl(t0 + dt), r0 * sinl(t0 + dt)}};
    } else if (how == 3) {
        double s = c.nice(1.5), l = c.real(0.05, 4);
        for (auto& p : q) { p.x = p.x * l + s * p.y; }
    }
    if (minSine(q) < 0.05L && how == 1) q = Poly{P{0, 0}, P{1, 0}, P{1, 1}, P{0, 1}};
    return q;
}

void toFlat(const Poly& q, double* f, bool cw) {
    for (int i = 0; i < 4; ++i) {
        const P& p = q[cw ? (4 - i) % 4 : i];
        f[2 * i] = (double) p.x;
        f[2 * i + 1] = (double) p.y;
    }
}

void real(pbt::Case& c) {
    Poly a = unitQuad(c), b = unitQuad(c);
    // place the second relative to the first
    int sizes = c.pick({12, 6, 1});
    double l = sizes == 0 ? 1 : sizes == 1 ? std::exp(c.real(-3, 3)) : std::pow(10., -c.real(1, 8)), th = c.chance(1, 2) ? 0 : c.real(-3.2, 3.2);
    double tx = c.chance(1, 3) ? c.range(-4, 4) / 4.0 : c.real(-1.5, 1.5), ty = c.chance(1, 3) ? c.range(-4, 4) / 4.0 : c.real(-1.5, 1.5);
    for (auto& p : b) p = P{l * (p.x * cosl(th) - p.y * sinl(th)) + tx, l * (p.x * sinl(th) + p.y * cosl(th)) + ty};
    if (sizes == 2) {
        // far smaller than the first, somewhere in or at the border of it
        P p = bilinear(a, c.chance(1, 3) ? c.range(0, 1) : c.unit(), c.chance(1, 3) ? c.range(0, 1) : c.unit());
        LD u = c.unit(), v = c.unit();
        for (auto& x : b) { x.x += p.x - tx - l * u; x.y += p.y - ty - l * v; }
        c.label("far smaller");
    }
    if (c.chance(1, 6)) {
        // an edge of the second is nearly on one of the first: turned by a tiny angle about a point of that edge, or shifted
        int e = c.range(0, 3), g = (e + 1) % 4;
        if (c.chance(1, 2)) b = a;
        int e2 = c.range(0, 3), g2 = (e2 + 1) % 4;
        LD la = dist(a[e], a[g]), lb = dist(b[e2], b[g2]);
        if (la > 0 && lb > 0) {
            // the directions of the two edges, same or opposite
            LD ux = (a[g].x - a[e].x) / la, uy = (a[g].y - a[e].y) / la, vx = (b[g2].x - b[e2].x) / lb, vy = (b[g2].y - b[e2].y) / lb;
            if (c.chance(1, 2)) ux = -ux, uy = -uy;
            LD cs = ux * vx + uy * vy, sn = vx * uy - vy * ux, an = tiny(c), t = c.real(-0.5, 1.5), t2 = c.real(-0.5, 1.5);
            if (c.chance(1, 3)) an = 0;
            LD c1 = cs * cosl(an) - sn * sinl(an), s1 = sn * cosl(an) + cs * sinl(an);
            LD sh = c.chance(1, 3) ? tiny(c) : 0;
            P m{a[e].x + t * (a[g].x - a[e].x) - sh * uy, a[e].y + t * (a[g].y - a[e].y) + sh * ux};
            P o{b[e2].x + t2 * (b[g2].x - b[e2].x), b[e2].y + t2 * (b[g2].y - b[e2].y)};
            for (auto& p : b) p = P{m.x + c1 * (p.x - o.x) - s1 * (p.y - o.y), m.y + s1 * (p.x - o.x) + c1 * (p.y - o.y)};
            c.label("nearly aligned edges");
        }
    }
    Affine f = placement(c, true, true);
    double qa[8], qb[8];
    toFlat(a, qa, c.chance(1, 5));
    toFlat(b, qb, c.chance(1, 5));
    for (int i = 0; i < 4; ++i) {
        f.apply(qa[2 * i], qa[2 * i + 1]);
        f.apply(qb[2 * i], qb[2 * i + 1]);
    }
    checkQuads(c, qa, qb);
}

// convex quads with integer coordinates: common nodes, aligned edges, nodes on edges
void lattice(pbt::Case& c) {
    auto make = [&](int m) {
        // one node on each side of a box keeps the quad convex
        int x0 = c.range(-2, 3), y0 = c.range(-2, 3), w = c.range(1, m), h = c.range(1, m);
        Poly q{P{(LD) x0, (LD) y0}, P{(LD) x0 + w, (LD) y0}, P{(LD) x0 + w, (LD) y0 + h}, P{(LD) x0, (LD) y0 + h}};
        int how = c.range(0, 2);
        if (how == 1 && w > 1 && h > 1) {
            q = Poly{P{(LD) x0 + c.range(0, w - 1), (LD) y0}, P{(LD) x0 + w, (LD) y0 + c.range(0, h - 1)},
                     P{(LD) x0 + 1 + c.range(0, w - 1), (LD) y0 + h}, P{(LD) x0, (LD) y0 + 1 + c.range(0, h - 1)}};
        } else if (how == 2) {
            int s = c.range(-2, 2);
            q[2].x += s;
            q[3].x += s;
        }
        if (minSine(q) < 0.05L) q = Poly{P{(LD) x0, (LD) y0}, P{(LD) x0 + w, (LD) y0}, P{(LD) x0 + w, (LD) y0 + h}, P{(LD) x0, (LD) y0 + h}};
        std::rotate(q.begin(), q.begin() + c.range(0, 3), q.end());
        return q;
    };
    Poly a = make(4), b = c.chance(1, 8) ? a : make(4);
    double s = c.oneof<double>({1, 0.1, 1. / 3, 0.7, 50, 1e-6, 1e-9, 3e7});
    double qa[8], qb[8];
    toFlat(a, qa, c.chance(1, 5));
    toFlat(b, qb, c.chance(1, 5));
    for (int i = 0; i < 8; ++i) {
        qa[i] *= s;
        qb[i] *= s;
    }
    checkQuads(c, qa, qb);
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C04";
    p.rule = "two convex quads (squares, distorted, sheared, polar cells with coincident nodes, integer coordinates with "
             "common nodes and aligned edges; nested, far smaller, crossing, disjoint, clockwise) given in both orders; the points "
             "must lie in both quads, contain the corners of the clipped polygon and span its area. "
             "Non-trivial: the overlap exceeds 1e-4 of the smaller quad";
    p.subs = {{"real", 2, real}, {"lattice", 1, lattice}};
    return p;
}
