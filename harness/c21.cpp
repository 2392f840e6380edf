// C21: line, triangle, tetrahedron
#include "pbt.h"
#include "SgLine.h"
#include "SgTriangle.h"
#include "SgTetrahedron.h"

namespace {

typedef std::vector<double> V3;

V3 point(pbt::Case& c) {
    double s = c.oneof<double>({1, 1e-300, 1e300, 1e6, 0});
    V3 p(3);
    for (auto& v : p) v = s * c.nice(1);
    return p;
}

// one simplex with its own copy of what it should hold
struct Any {
    int n = 0;
    std::vector<V3> pts;
    SgLine_type* l = nullptr;
    SgTriangle_type* t = nullptr;
    SgTetrahedron_type* q = nullptr;

    void create(pbt::Case& c, int n_) {
        n = n_;
        std::vector<V3> tmp;
        for (int k = 0; k < n; ++k) {
            pts.push_back(k > 0 && c.chance(1, 8) ? pts[0] : point(c));
            tmp.push_back(pts.back());
        }
        if (n == 2) SgLine_new(&l, tmp[0].data(), tmp[1].data());
        if (n == 3) SgTriangle_new(&t, tmp[0].data(), tmp[1].data(), tmp[2].data());
        if (n == 4) SgTetrahedron_new(&q, tmp[0].data(), tmp[1].data(), tmp[2].data(), tmp[3].data());
        CHECK(tmp == pts, "the points were modified");
        for (auto& p : tmp) std::fill(p.begin(), p.end(), 4.5); // the object has copies
    }
    void destroy() {
        if (n == 2) SgLine_del(&l);
        if (n == 3) SgTriangle_del(&t);
        if (n == 4) SgTetrahedron_del(&q);
    }
    const double* get(int i) {
        double* p = nullptr;
        if (n == 2) SgLine_getPoint(&l, i, &p);
        if (n == 3) SgTriangle_getPoint(&t, i, &p);
        if (n == 4) SgTetrahedron_getPoint(&q, i, &p);
        return p;
    }
    void check() {
        int np = -1, ne = -1, nf = -1;
        if (n == 2) SgLine_getNumberOfPoints(&l, &np);
        if (n == 3) { SgTriangle_getNumberOfPoints(&t, &np); SgTriangle_getNumberOfEdges(&t, &ne); }
        if (n == 4) {
            SgTetrahedron_getNumberOfPoints(&q, &np);
            SgTetrahedron_getNumberOfEdges(&q, &ne);
            SgTetrahedron_getNumberOfFaces(&q, &nf);
        }
        CHECK(np == n, "%d points, should be %d", np, n);
        for (int i = 0; i < n; ++i) {
            const double* p = get(i);
            CHECK(p && std::equal(p, p + 3, pts[i].begin()), "point %d is not the one given", i);
        }
        if (n == 2) return;
        CHECK(ne == n * (n - 1) / 2, "%d edges", ne);
        std::set<std::set<int>> edges;
        for (int e = 0; e < ne; ++e) {
            int* ids = nullptr;
            if (n == 3) SgTriangle_getEdge(&t, e, &ids);
            if (n == 4) SgTetrahedron_getEdge(&q, e, &ids);
            CHECK(ids && ids[0] != ids[1] && ids[0] >= 0 && ids[1] >= 0 && ids[0] < n && ids[1] < n, "edge %d", e);
            CHECK(edges.insert({ids[0], ids[1]}).second, "edge %d (%d,%d) comes twice", e, ids[0], ids[1]);
            // the edges of a triangle form a cycle
            if (n == 3) CHECK(ids[1] == (ids[0] + 1) % 3, "edge %d of the triangle goes from %d to %d", e, ids[0], ids[1]);
        }
        if (n == 3) return;
        CHECK(nf == 4, "%d faces", nf);
        std::set<std::set<int>> faces;
        for (int f = 0; f < 4; ++f) {
            int* ids = nullptr;
            SgTetrahedron_getFace(&q, f, &ids);
            CHECK(ids, "face %d", f);
            std::set<int> s{ids[0], ids[1], ids[2]};
            CHECK(s.size() == 3 && *s.begin() >= 0 && *s.rbegin() < 4, "face %d: %d %d %d", f, ids[0], ids[1], ids[2]);
            CHECK(faces.insert(s).second, "face %d comes twice", f);
        }
    }
};

void simplices(pbt::Case& c) {
    std::vector<Any> all;
    int n = c.range(1, 6);
    for (int k = 0; k < n; ++k) {
        Any a;
        a.create(c, c.range(2, 4));
        if (c.verbose) {
            c.note(" [");
            for (auto& p : a.pts) c.note(" (%.17g,%.17g,%.17g)", p[0], p[1], p[2]);
            c.note(" ]");
        }
        all.push_back(a);
        if (c.chance(1, 3) && all.size() > 1) {
            // objects do not depend on each other
            size_t i = c.range(0, (int) all.size() - 1);
            all[i].check();
            all[i].destroy();
            all.erase(all.begin() + i);
        }
        for (auto& x : all) x.check();
    }
    for (auto& x : all) x.destroy();
    c.nontrivial = n > 1;
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C21";
    p.rule = "1-6 lines, triangles and tetrahedra of random points (any magnitude, repeated points) that are created, read and destroyed in "
             "random order; points are compared exactly, edges and faces are checked for being all the pairs and triples. Non-trivial: at "
             "least two objects";
    p.subs = {{"simplices", 1, simplices}};
    return p;
}
