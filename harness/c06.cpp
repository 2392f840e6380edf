// C06: flow of the basis functions of a quad across a segment
#include "flowref.h"
#include "SgQuadLineFlows.h"
using namespace geom;

namespace {

void flows(pbt::Case& c) {
    Poly q{P{0, 0}, P{1, 0}, P{1, 1}, P{0, 1}};
    int how = c.pick({1, 2, 4, 2});
    if (how == 1) {
        double s = c.nice(1), r = c.nice(0.5);
        for (auto& p : q) p = P{p.x + s * p.y, p.y + r * p.x};
    } else if (how == 2) {
        for (auto& p : q) { p.x += 0.2L * c.nice(1); p.y += 0.2L * c.nice(1); }
    } else if (how == 3) {
        double r0 = c.real(0.3, 2), t0 = c.nice(3), dt = c.real(0.1, 1.2), r1 = r0 + c.real(0.2, 1);
        q = Poly{P{r0 * cosl(t0), r0 * sinl(t0)}, P{r1 * cosl(t0), r1 * sinl(t0)}, P{r1 * cosl(t0 + dt), r1 * sinl(t0 + dt)},
                 P{r0 * cosl(t0 + dt), r0 * sinl(t0 + dt)}};
    }
    if (minSine(q) < 0.3L) q = Poly{P{0, 0}, P{1, 0}, P{1, 1}, P{0, 1}};
    bool cw = c.chance(1, 5);
    if (cw) std::swap(q[1], q[3]);
    Affine f = placement(c, true, true);
    double fq[8], s[4];
    for (int i = 0; i < 4; ++i) {
        double x = (double) q[i].x, y = (double) q[i].y;
        f.apply(x, y);
        fq[2 * i] = x;
        fq[2 * i + 1] = y;
    }
    q = fromFlat(fq, 4);
    LD big = 0;
    for (double v : fq) big = std::max(big, std::abs((LD) v));
    LD edge = INFINITY, size = perimeter(q) / 2;
    for (int i = 0; i < 4; ++i) edge = std::min(edge, dist(q[i], q[(i + 1) % 4]));
    LD u[2], v[2];
    for (int e = 0; e < 2; ++e) {
        u[e] = c.chance(1, 3) ? c.range(0, 4) / 4.0 : c.unit();
        v[e] = c.chance(1, 3) ? c.range(0, 4) / 4.0 : c.unit();
        P p = bilinear(q, u[e], v[e]);
        s[2 * e] = (double) p.x;
        s[2 * e + 1] = (double) p.y;
    }
    if (c.verbose) {
        c.note("quad");
        for (int i = 0; i < 4; ++i) c.note(" (%.17g,%.17g)", fq[2 * i], fq[2 * i + 1]);
        c.note(" segment (%.17g,%.17g) (%.17g,%.17g)", s[0], s[1], s[2], s[3]);
    }
    std::vector<double> saveQ(fq, fq + 8), saveS(s, s + 4);
    SgQuadLineFlows_type* o = nullptr;
    SgQuadLineFlows_new(&o);
    if (c.chance(1, 2)) {
        SgQuadLineFlows_setQuadPoints(&o, fq);
        SgQuadLineFlows_setLinePoints(&o, s);
    } else {
        SgQuadLineFlows_setLinePoints(&o, s);
        SgQuadLineFlows_setQuadPoints(&o, fq);
    }
    int ier = SgQuadLineFlows_computeProjections(&o);
    double w[4] = {-9, -9, -9, -9};
    SgQuadLineFlows_getProjection(&o, EDGE_LO_0, &w[0]);
    SgQuadLineFlows_getProjection(&o, EDGE_HI_0, &w[1]);
    SgQuadLineFlows_getProjection(&o, EDGE_LO_1, &w[2]);
    SgQuadLineFlows_getProjection(&o, EDGE_HI_1, &w[3]);
    // and the reversed segment, with the same object
    double rs[4] = {s[2], s[3], s[0], s[1]}, rw[4];
    SgQuadLineFlows_setLinePoints(&o, rs);
    int ier2 = SgQuadLineFlows_computeProjections(&o);
    for (int k = 0; k < 4; ++k) SgQuadLineFlows_getProjection(&o, k, &rw[k]);
    // an end that is outside the box of the quad is reported, and does not matter for the next segment
    if (c.chance(1, 6)) {
        int which = c.range(1, 3); // 1: the start, 2: the end, 3: both
        LD lo[2] = {INFINITY, INFINITY}, hi[2] = {-INFINITY, -INFINITY};
        for (int i = 0; i < 8; ++i) { lo[i % 2] = std::min(lo[i % 2], (LD) fq[i]); hi[i % 2] = std::max(hi[i % 2], (LD) fq[i]); }
        double os[4] = {s[0], s[1], s[2], s[3]};
        for (int e = 0; e < 2; ++e) {
            if (!(which & (1 << e))) continue;
            int k = c.range(0, 1);
            double d = (double) (hi[k] - lo[k]) * c.oneof<double>({1e-6, 0.01, 0.5, 3, 100}) + 1e-13 * (double) big;
            os[2 * e + k] = c.chance(1, 2) ? (double) hi[k] + d : (double) lo[k] - d;
        }
        SgQuadLineFlows_setLinePoints(&o, os);
        int code = SgQuadLineFlows_computeProjections(&o);
        CHECK(code == (which == 1 ? 1 : 2), "error code %d, the %s outside the quad: (%.17g,%.17g) (%.17g,%.17g)", code,
              which == 1 ? "start is" : which == 2 ? "end is" : "ends are", os[0], os[1], os[2], os[3]);
        SgQuadLineFlows_setLinePoints(&o, rs);
        int code2 = SgQuadLineFlows_computeProjections(&o);
        CHECK(code2 == ier2, "error code %d, before a segment outside the quad it was %d", code2, ier2);
        for (int k = 0; k < 4; ++k) {
            double again;
            SgQuadLineFlows_getProjection(&o, k, &again);
            CHECK(again == rw[k], "edge %d: %.17g, before a segment outside the quad it was %.17g", k, again, rw[k]);
        }
        c.label("then an end outside");
    }
    SgQuadLineFlows_del(&o);
    CHECK(ier == 0 && ier2 == 0, "error codes %d and %d for a segment inside the quad", ier, ier2);
    CHECK(std::equal(saveQ.begin(), saveQ.end(), fq) && std::equal(saveS.begin(), saveS.end(), s), "the input was modified");
    LD want[4];
    P a{(LD) s[0], (LD) s[1]}, b{(LD) s[2], (LD) s[3]};
    CHECK(edgeWeights(q, a, b, want), "reference failed");
    LD tol = 1e-11L + (1e-9L * size + 1e-13L * big) / edge;
    for (int k = 0; k < 4; ++k) {
        CHECK(std::abs(want[k] - w[k]) <= tol, "edge %d: %.15g, should be %.15g", k, w[k], (double) want[k]);
        CHECK(std::abs(want[k] + rw[k]) <= tol, "edge %d, reversed segment: %.15g, should be %.15g", k, rw[k], (double) -want[k]);
    }
    c.nontrivial = std::abs(u[1] - u[0]) > 0.05L && std::abs(v[1] - v[0]) > 0.05L && how != 0;
    c.label(cw, "clockwise");
    c.label(how == 2, "distorted");
    c.label(u[0] == 0 || u[0] == 1 || v[0] == 0 || v[0] == 1, "starts on the boundary");
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C06";
    p.rule = "a convex quad (parallelogram, distorted, polar cell, clockwise, any scale and rotation) and a segment with both "
             "ends inside it or on its boundary; the four projections are compared with the ones obtained by inverting "
             "the bilinear map in extended precision. Non-trivial: the segment moves in both index directions "
             "of a quad that is not the square";
    p.subs = {{"flows", 1, flows}};
    return p;
}
