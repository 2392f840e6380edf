// the classes of the library, each with a generator of inputs, a way to change a part of them, and what can be observed
#pragma once
#include <memory>
#include "geom.h"
#include "SgBoxIterator.h"
#include "SgConserveInterp2D.h"
#include "SgFindOverlappingCells2D.h"
#include "SgFindPointInCell.h"
#include "SgFlowInterp2D.h"
#include "SgLinearSolve.h"
#include "SgNodeInterp2D.h"
#include "SgOctreePoints.h"
#include "SgQuadIntersect.h"
#include "SgQuadLineFlows.h"
#include "SgQuadLineIntersect.h"
#include "SgTriangulate.h"
#include "flowref.h"
using namespace geom;

namespace {

typedef std::vector<double> D;

// what was observed: integers are compared exactly, values to within a few round off errors
struct Seen {
    std::vector<long> ints;
    D vals;
    void sameAs(const Seen& o, const char* what) const {
        CHECK(ints == o.ints, "%s: %s", what, diff(o).c_str());
        CHECK(vals.size() == o.vals.size(), "%s: %zu values, a new object gives %zu", what, vals.size(), o.vals.size());
        LD big = 1e-300L;
        for (double v : o.vals)
            if (std::isfinite(v)) big = std::max(big, std::abs((LD) v));
        for (size_t k = 0; k < vals.size(); ++k) {
            if (std::isnan(vals[k]) && std::isnan(o.vals[k])) continue;
            CHECK(vals[k] == o.vals[k] || std::abs((LD) vals[k] - o.vals[k]) <= 1e-12L * big, "%s: value %zu is %.17g, a new object gives %.17g",
                  what, k, vals[k], o.vals[k]);
        }
    }
    std::string diff(const Seen& o) const {
        if (ints.size() != o.ints.size()) return pbt::fmt("%zu items, a new object gives %zu", ints.size(), o.ints.size());
        for (size_t k = 0; k < ints.size(); ++k)
            if (ints[k] != o.ints[k]) return pbt::fmt("item %zu is %ld, a new object gives %ld", k, ints[k], o.ints[k]);
        return "";
    }
};

// the arrays given to the library: exact copies on the heap that are checked and scrambled after the call
struct Given {
    std::vector<D> a;
    std::vector<D> keep;
    std::vector<const double*> p;
    bool scramble;
    Given(std::vector<D> v, bool scr) : a(v), keep(v), scramble(scr) {
        for (auto& x : a) p.push_back(x.data());
    }
    const double** ptr() { return p.data(); }
    ~Given() noexcept(false) {
        bool same = a == keep;
        if (scramble)
            for (auto& x : a) std::fill(x.begin(), x.end(), 1e7);
        if (!same && !std::uncaught_exceptions()) pbt::fail("the arguments were modified");
    }
};

Grid anyGrid(pbt::Case& c, bool small) {
    Grid g = unitGrid(c, c.range(0, 5), small ? 4 : 6, 40);
    placement(c, true).apply(g);
    return g;
}

// --------------------------------------------------------------------------- conservative interpolation
struct Conserve {
    static const char* name() { return "conserve"; }
    SgConserveInterp2D_type* o = nullptr;
    struct Cfg {
        Grid src, dst;
        D data;
    };
    Conserve(const Cfg&) { SgConserveInterp2D_new(&o); }
    ~Conserve() { SgConserveInterp2D_del(&o); }
    static Cfg cfg(pbt::Case& c) {
        Cfg k;
        GridPair p = gridPair(c, 5, true);
        k.src = p.src;
        k.dst = p.dst;
        if (c.chance(1, 10)) for (auto& v : k.dst.x) v += 1e4;
        data(c, k);
        return k;
    }
    static void data(pbt::Case& c, Cfg& k) {
        k.data.resize(k.src.numCells());
        for (auto& v : k.data) v = c.nice(10);
    }
    // change a part of the configuration
    static void change(pbt::Case& c, Cfg& k, int part) {
        if (part == 0 || part == 2) {
            k.dst = anyGrid(c, false);
        }
        if (part == 1 || part == 2) {
            k.src = anyGrid(c, false);
            data(c, k);
        }
    }
    void set(const Cfg& k, int part, bool scr) {
        if (part == 0 || part == 2) {
            Given g({k.dst.x, k.dst.y}, scr);
            SgConserveInterp2D_setDstGrid(&o, k.dst.dims, g.ptr());
        }
        if (part == 1 || part == 2) {
            Given g({k.src.x, k.src.y}, scr);
            const int per[] = {0, 0};
            SgConserveInterp2D_setSrcGrid(&o, k.src.dims, per, g.ptr());
        }
    }
    Seen look(const Cfg& k, int how) {
        Seen s;
        SgConserveInterp2D_computeWeights(&o);
        if (how == 1) SgConserveInterp2D_computeWeights(&o);
        if (how == 2) {
            SgConserveInterp2D_reset(&o);
            SgConserveInterp2D_next(&o);
            SgConserveInterp2D_computeWeights(&o);
        }
        std::map<std::pair<int, int>, double> w;
        if (how != 2) SgConserveInterp2D_reset(&o); // new weights start the iteration anew
        int end = 0;
        long n = 0, most = (long) k.src.numCells() * k.dst.numCells() + 2;
        while (!end) {
            int i, j;
            double v;
            SgConserveInterp2D_get(&o, &i, &j, &v);
            w[{j, i}] += v;
            end = SgConserveInterp2D_next(&o);
            n++;
            CHECK(n <= most, "the iteration does not end");
        }
        s.ints.push_back(n);
        for (auto& e : w) {
            s.ints.push_back(e.first.first);
            s.ints.push_back(e.first.second);
            s.vals.push_back(e.second);
        }
        D out(k.dst.numCells(), -777.5);
        {
            Given g({k.data}, false);
            SgConserveInterp2D_apply(&o, g.p[0], out.data());
        }
        s.vals.insert(s.vals.end(), out.begin(), out.end());
        return s;
    }
    static std::string str(const Cfg& k) { return "src " + k.src.str() + " dst " + k.dst.str(); }
};

// --------------------------------------------------------------------------- nodal interpolation
struct Node {
    static const char* name() { return "node"; }
    SgNodeInterp2D_type* o = nullptr;
    struct Cfg {
        Grid src, dst;
        int per[2];
        D data;
    };
    Node(const Cfg&) { SgNodeInterp2D_new(&o, 50, 1e-9); }
    ~Node() { SgNodeInterp2D_del(&o); }
    static void source(pbt::Case& c, Cfg& k) {
        k.src = anyGrid(c, false);
        k.per[0] = c.chance(1, 5);
        k.per[1] = c.chance(1, 3);
        k.data.resize(k.src.numNodes());
        for (auto& v : k.data) v = c.nice(10);
    }
    static void targets(pbt::Case& c, Cfg& k) {
        k.dst = Grid(c.range(2, 4), c.range(2, 4));
        for (int i = 0; i < k.dst.numNodes(); ++i) {
            P p = bilinear(k.src.quad(c.range(0, k.src.numCells() - 1)), c.unit() * 1.2L - 0.1L, c.unit());
            k.dst.x[i] = (double) p.x;
            k.dst.y[i] = (double) p.y;
        }
    }
    static Cfg cfg(pbt::Case& c) {
        Cfg k;
        source(c, k);
        targets(c, k);
        return k;
    }
    static void change(pbt::Case& c, Cfg& k, int part) {
        if (part == 1 || part == 2) source(c, k);
        if (part == 0 || part == 2) targets(c, k);
    }
    void set(const Cfg& k, int part, bool scr) {
        if (part == 0 || part == 2) {
            Given g({k.dst.x, k.dst.y}, scr);
            SgNodeInterp2D_setDstGrid(&o, k.dst.dims, g.ptr());
        }
        if (part == 1 || part == 2) {
            Given g({k.src.x, k.src.y}, scr);
            SgNodeInterp2D_setSrcGrid(&o, k.src.dims, k.per, g.ptr());
        }
    }
    Seen look(const Cfg& k, int how) {
        Seen s;
        SgNodeInterp2D_computeWeights(&o);
        if (how == 1) SgNodeInterp2D_computeWeights(&o);
        D out(k.dst.numNodes(), -777.5);
        Given g({k.data}, false);
        SgNodeInterp2D_apply(&o, g.p[0], out.data());
        if (how == 2) SgNodeInterp2D_apply(&o, g.p[0], out.data());
        for (double v : out) s.ints.push_back(v == -777.5);
        s.vals = out;
        return s;
    }
    static std::string str(const Cfg& k) { return "src " + k.src.str() + " dst " + k.dst.str(); }
};

// --------------------------------------------------------------------------- flow interpolation
struct Flow {
    static const char* name() { return "flow"; }
    SgFlowInterp2D_type* o = nullptr;
    struct Cfg {
        Grid src;
        D x, y;
        D e[2];
    };
    Flow(const Cfg&) { SgFlowInterp2D_new(&o); }
    ~Flow() { SgFlowInterp2D_del(&o); }
    static void source(pbt::Case& c, Cfg& k) {
        k.src = anyGrid(c, false);
        int n0 = k.src.dims[0], n1 = k.src.dims[1];
        k.e[0].resize((n0 - 1) * n1);
        k.e[1].resize(n0 * (n1 - 1));
        for (auto& e : k.e)
            for (auto& v : e) v = c.nice(1);
    }
    static void line(pbt::Case& c, Cfg& k) {
        int n = c.range(2, 5);
        k.x.resize(n);
        k.y.resize(n);
        bool out = c.chance(1, 8);
        for (int i = 0; i < n; ++i) {
            P p = bilinear(k.src.quad(c.range(0, k.src.numCells() - 1)), c.unit(), c.unit());
            k.x[i] = (double) p.x + out * 3e3;
            k.y[i] = (double) p.y;
        }
    }
    static Cfg cfg(pbt::Case& c) {
        Cfg k;
        source(c, k);
        line(c, k);
        return k;
    }
    static void change(pbt::Case& c, Cfg& k, int part) {
        if (part == 1 || part == 2) source(c, k);
        if (part == 0 || part == 2) line(c, k);
    }
    void set(const Cfg& k, int part, bool scr) {
        if (part == 0 || part == 2) {
            Given g({k.x, k.y}, scr);
            const int n[] = {(int) k.x.size()};
            SgFlowInterp2D_setDstGrid(&o, n, g.ptr());
        }
        if (part == 1 || part == 2) {
            Given g({k.src.x, k.src.y}, scr);
            SgFlowInterp2D_setSrcGrid(&o, k.src.dims, g.ptr());
        }
    }
    Seen look(const Cfg& k, int how) {
        Seen s;
        SgFlowInterp2D_computeWeights(&o);
        if (how == 1) SgFlowInterp2D_computeWeights(&o);
        D out(k.x.size() - 1, -777.5);
        Given g({k.e[0], k.e[1]}, false);
        SgFlowInterp2D_apply(&o, g.ptr(), out.data());
        if (how == 2) SgFlowInterp2D_apply(&o, g.ptr(), out.data());
        for (double v : out) s.ints.push_back(v == -777.5);
        s.vals = out;
        return s;
    }
    static std::string str(const Cfg& k) {
        std::string s = "src " + k.src.str() + " line";
        for (size_t i = 0; i < k.x.size(); ++i) s += pbt::fmt(" (%.17g,%.17g)", k.x[i], k.y[i]);
        return s;
    }
};

// --------------------------------------------------------------------------- point finder, in 1 to 3 dimensions
struct Find {
    static const char* name() { return "find"; }
    SgFindPointInCell_type* o = nullptr;
    struct Cfg {
        int nd;
        int dims[3], per[3];
        std::vector<D> xyz;
        D start, target;
    };
    Find(const Cfg&) { SgFindPointInCell_new(&o, 30, 1e-9); }
    ~Find() { SgFindPointInCell_del(&o); }
    static void grid(pbt::Case& c, Cfg& k) {
        k.nd = c.pick({1, 4, 2}) + 1;
        int n = 1;
        for (int i = 0; i < k.nd; ++i) {
            k.dims[i] = c.range(2, 5);
            k.per[i] = c.chance(1, 3);
            n *= k.dims[i];
        }
        k.xyz.assign(k.nd, D(n));
        double amp = c.real(0, 0.2), scale = c.oneof<double>({1, 0.1, 50}), shift = c.nice(3);
        int rot = c.range(0, k.nd - 1);
        for (int f = 0; f < n; ++f) {
            int r = f;
            for (int i = k.nd - 1; i >= 0; --i) {
                k.xyz[(i + rot) % k.nd][f] = scale * (shift + r % k.dims[i] + amp * c.real(-1, 1));
                r /= k.dims[i];
            }
        }
    }
    static void point(pbt::Case& c, Cfg& k) {
        k.start.resize(k.nd);
        k.target.resize(k.nd);
        for (int i = 0; i < k.nd; ++i) {
            k.start[i] = c.real(0, k.dims[i] - 1);
            double lo = *std::min_element(k.xyz[i].begin(), k.xyz[i].end()), hi = *std::max_element(k.xyz[i].begin(), k.xyz[i].end());
            k.target[i] = lo + (hi - lo) * (c.chance(1, 12) ? 2.5 : c.unit());
        }
    }
    static Cfg cfg(pbt::Case& c) {
        Cfg k;
        grid(c, k);
        point(c, k);
        return k;
    }
    static void change(pbt::Case& c, Cfg& k, int part) {
        if (part == 1 || part == 2) grid(c, k);
        point(c, k);
    }
    void set(const Cfg& k, int part, bool scr) {
        if (part == 1 || part == 2) {
            Given g(k.xyz, scr);
            SgFindPointInCell_setGrid(&o, k.nd, k.dims, k.per, g.ptr());
        }
    }
    Seen look(const Cfg& k, int how) {
        Seen s;
        if (how == 1) {
            // an unfinished search before
            SgFindPointInCell_reset(&o, k.target.data(), k.target.data());
            D z(k.nd, 0.);
            SgFindPointInCell_reset(&o, z.data(), k.target.data());
            SgFindPointInCell_next(&o);
            SgFindPointInCell_next(&o);
        }
        {
            Given g({k.start, k.target}, true);
            SgFindPointInCell_reset(&o, g.p[0], g.p[1]);
        }
        int code = 0;
        while (code == 0) {
            code = SgFindPointInCell_next(&o);
            s.ints.push_back(code);
            CHECK(s.ints.size() <= 30, "the search does not end");
        }
        D v(k.nd);
        SgFindPointInCell_getIndices(&o, v.data());
        s.vals = v;
        SgFindPointInCell_getPosition(&o, v.data());
        s.vals.insert(s.vals.end(), v.begin(), v.end());
        if (code != -3) {
            int n = 0;
            double* e = nullptr;
            SgFindPointInCell_getErrorHistory(&o, &n, &e);
            s.ints.push_back(n);
            s.vals.insert(s.vals.end(), e, e + n);
        }
        return s;
    }
    static std::string str(const Cfg& k) {
        std::string s = pbt::fmt("%d dimensions:", k.nd);
        for (int i = 0; i < k.nd; ++i) s += pbt::fmt(" %d%s start %.17g target %.17g", k.dims[i], k.per[i] ? " periodic" : "", k.start[i], k.target[i]);
        return s;
    }
};

// --------------------------------------------------------------------------- cells under a polygon
struct Cells {
    static const char* name() { return "cells"; }
    SgFindOverlappingCells2D_type* o = nullptr;
    struct Cfg {
        Grid src;
        int per[2];
        D poly;
    };
    Cells(const Cfg&) { SgFindOverlappingCells2D_new(&o); }
    ~Cells() { SgFindOverlappingCells2D_del(&o); }
    static void source(pbt::Case& c, Cfg& k) {
        k.src = anyGrid(c, false);
        k.per[0] = c.chance(1, 5);
        k.per[1] = c.chance(1, 3);
    }
    static void poly(pbt::Case& c, Cfg& k) {
        int n = c.range(1, 6);
        k.poly.resize(2 * n);
        bool out = c.chance(1, 6);
        for (int i = 0; i < n; ++i) {
            P p = bilinear(k.src.quad(c.range(0, k.src.numCells() - 1)), c.unit() * (out ? 9 : 1), c.unit());
            k.poly[2 * i] = (double) p.x;
            k.poly[2 * i + 1] = (double) p.y;
        }
    }
    static Cfg cfg(pbt::Case& c) {
        Cfg k;
        source(c, k);
        poly(c, k);
        return k;
    }
    static void change(pbt::Case& c, Cfg& k, int part) {
        if (part == 1 || part == 2) source(c, k);
        if (part == 0 || part == 2) poly(c, k);
    }
    void set(const Cfg& k, int part, bool scr) {
        if (part == 0 || part == 2) {
            Given g({k.poly}, scr);
            SgFindOverlappingCells2D_setPolygonPoints(&o, (int) k.poly.size() / 2, g.p[0]);
        }
        if (part == 1 || part == 2) {
            Given g({k.src.x, k.src.y}, scr);
            SgFindOverlappingCells2D_setSrcGrid(&o, k.src.dims, k.per, g.ptr());
        }
    }
    Seen look(const Cfg&, int how) {
        Seen s;
        SgFindOverlappingCells2D_findSrcCellIndices(&o);
        if (how == 1) SgFindOverlappingCells2D_findSrcCellIndices(&o);
        int n = -1, *v = nullptr;
        SgFindOverlappingCells2D_getNumberOfSrcCellIndices(&o, &n);
        SgFindOverlappingCells2D_getSrcCellIndices(&o, &v);
        std::vector<int> r(v, v + n);
        std::sort(r.begin(), r.end());
        s.ints.assign(r.begin(), r.end());
        return s;
    }
    static std::string str(const Cfg& k) {
        std::string s = "src " + k.src.str() + " polygon";
        for (size_t i = 0; i + 1 < k.poly.size(); i += 2) s += pbt::fmt(" (%.17g,%.17g)", k.poly[i], k.poly[i + 1]);
        return s;
    }
};

// --------------------------------------------------------------------------- quads and segments (the arrays stay alive)
void quadAndOther(pbt::Case& c, D& quad, D& other, int nother, int part) {
    if (part == 1 || part == 2) {
        Poly q{P{0, 0}, P{1, 0}, P{1, 1}, P{0, 1}};
        for (auto& p : q) { p.x += 0.2L * c.nice(1); p.y += 0.2L * c.nice(1); }
        if (minSine(q) < 0.2L) q = Poly{P{0, 0}, P{1, 0}, P{1, 1}, P{0, 1}};
        double s = c.oneof<double>({1, 0.1, 20}), tx = s * c.nice(1), ty = s * c.nice(1);
        quad.clear();
        for (auto& p : q) {
            quad.push_back(tx + s * (double) p.x);
            quad.push_back(ty + s * (double) p.y);
        }
    }
    if (part == 0 || part == 2) {
        Poly q = fromFlat(quad.data(), 4);
        other.clear();
        if (nother == 4) {
            LD u = c.real(-0.9, 0.9), v = c.real(-0.9, 0.9), w = c.real(0.2, 1.5);
            for (auto& p : Poly{P{u, v}, P{u + w, v}, P{u + w, v + w}, P{u, v + w}}) {
                P r = bilinear(q, p.x, p.y);
                other.push_back((double) r.x);
                other.push_back((double) r.y);
            }
        } else {
            for (int i = 0; i < nother; ++i) {
                P r = bilinear(q, c.unit() * 1.6L - 0.3L, c.unit());
                other.push_back((double) r.x);
                other.push_back((double) r.y);
            }
        }
    }
}
void sortedPoints(Seen& s, int n, const double* p) {
    std::vector<std::pair<double, double>> v;
    for (int i = 0; i < n; ++i) v.push_back({p[2 * i], p[2 * i + 1]});
    std::sort(v.begin(), v.end());
    s.ints.push_back(n);
    for (auto& q : v) {
        s.vals.push_back(q.first);
        s.vals.push_back(q.second);
    }
}
struct PairCfg {
    D quad, other;
};
std::string pairStr(const PairCfg& k) {
    std::string s = "quad";
    for (double v : k.quad) s += pbt::fmt(" %.17g", v);
    s += " other";
    for (double v : k.other) s += pbt::fmt(" %.17g", v);
    return s;
}

struct QuadQuad {
    static const char* name() { return "quadQuad"; }
    typedef PairCfg Cfg;
    SgQuadIntersect_type* o = nullptr;
    D q, p;
    QuadQuad(const Cfg&) { SgQuadIntersect_new(&o); }
    ~QuadQuad() { SgQuadIntersect_del(&o); }
    static Cfg cfg(pbt::Case& c) { Cfg k; quadAndOther(c, k.quad, k.other, 4, 2); return k; }
    static void change(pbt::Case& c, Cfg& k, int part) { quadAndOther(c, k.quad, k.other, 4, part); }
    void set(const Cfg& k, int, bool) {
        q = k.quad;
        p = k.other;
        SgQuadIntersect_setQuadPoints(&o, q.data(), p.data());
    }
    Seen look(const Cfg& k, int how) {
        Seen s;
        int n = -1;
        double* r = nullptr;
        SgQuadIntersect_getIntersectPoints(&o, &n, &r);
        if (how == 1) SgQuadIntersect_getIntersectPoints(&o, &n, &r);
        sortedPoints(s, n, r);
        CHECK(q == k.quad && p == k.other, "the arguments were modified");
        return s;
    }
    static std::string str(const Cfg& k) { return pairStr(k); }
};

struct QuadLine {
    static const char* name() { return "quadLine"; }
    typedef PairCfg Cfg;
    SgQuadLineIntersect_type* o = nullptr;
    D q, p;
    QuadLine(const Cfg&) { SgQuadLineIntersect_new(&o); }
    ~QuadLine() { SgQuadLineIntersect_del(&o); }
    static Cfg cfg(pbt::Case& c) { Cfg k; quadAndOther(c, k.quad, k.other, 2, 2); return k; }
    static void change(pbt::Case& c, Cfg& k, int part) { quadAndOther(c, k.quad, k.other, 2, part); }
    void set(const Cfg& k, int part, bool) {
        if (part != 0) {
            q = k.quad;
            SgQuadLineIntersect_setQuadPoints(&o, q.data());
        }
        if (part != 1) {
            p = k.other;
            SgQuadLineIntersect_setLinePoints(&o, p.data());
        }
    }
    Seen look(const Cfg& k, int how) {
        Seen s;
        int n = -1;
        double* r = nullptr;
        SgQuadLineIntersect_collectIntersectPoints(&o, &n, &r);
        if (how == 1) SgQuadLineIntersect_collectIntersectPoints(&o, &n, &r);
        sortedPoints(s, n, r);
        CHECK(q == k.quad && p == k.other, "the arguments were modified");
        return s;
    }
    static std::string str(const Cfg& k) { return pairStr(k); }
};

struct QuadFlow {
    static const char* name() { return "quadFlow"; }
    typedef PairCfg Cfg;
    SgQuadLineFlows_type* o = nullptr;
    D q, p;
    QuadFlow(const Cfg&) { SgQuadLineFlows_new(&o); }
    ~QuadFlow() { SgQuadLineFlows_del(&o); }
    static Cfg inside(pbt::Case& c, Cfg k) {
        Poly q = fromFlat(k.quad.data(), 4);
        k.other.clear();
        for (int i = 0; i < 2; ++i) {
            P r = bilinear(q, c.unit(), c.unit());
            k.other.push_back((double) r.x);
            k.other.push_back((double) r.y);
        }
        return k;
    }
    static Cfg cfg(pbt::Case& c) { Cfg k; quadAndOther(c, k.quad, k.other, 2, 2); return inside(c, k); }
    static void change(pbt::Case& c, Cfg& k, int part) {
        quadAndOther(c, k.quad, k.other, 2, part);
        k = inside(c, k);
    }
    void set(const Cfg& k, int part, bool) {
        if (part != 0) {
            q = k.quad;
            SgQuadLineFlows_setQuadPoints(&o, q.data());
        }
        p = k.other;
        SgQuadLineFlows_setLinePoints(&o, p.data());
    }
    Seen look(const Cfg& k, int how) {
        Seen s;
        s.ints.push_back(SgQuadLineFlows_computeProjections(&o));
        if (how == 1) s.ints[0] = SgQuadLineFlows_computeProjections(&o);
        for (int e = 0; e < 4; ++e) {
            double w = -5;
            SgQuadLineFlows_getProjection(&o, e, &w);
            s.vals.push_back(w);
        }
        CHECK(q == k.quad && p == k.other, "the arguments were modified");
        return s;
    }
    static std::string str(const Cfg& k) { return pairStr(k); }
};

// --------------------------------------------------------------------------- linear systems
struct Linear {
    static const char* name() { return "linear"; }
    struct Cfg {
        int nr, nc;
        D a, b;
    };
    SgLinearSolve_type* o = nullptr;
    Linear(const Cfg& k) { SgLinearSolve_new(&o, k.nr, k.nc); }
    ~Linear() { SgLinearSolve_del(&o); }
    static void fill(pbt::Case& c, Cfg& k, int part) {
        if (part != 0) {
            k.a.assign(k.nr * k.nc, 0);
            for (int i = 0; i < k.nr; ++i)
                for (int j = 0; j < k.nc; ++j) k.a[i * k.nc + j] = c.nice(1) + (i == j ? 4 : 0);
        }
        if (part != 1) {
            k.b.resize(k.nr);
            for (auto& v : k.b) v = c.nice(5);
        }
    }
    static Cfg cfg(pbt::Case& c) {
        Cfg k;
        k.nr = c.range(1, 4);
        k.nc = c.range(1, 4);
        fill(c, k, 2);
        return k;
    }
    static void change(pbt::Case& c, Cfg& k, int part) { fill(c, k, part); }
    void set(const Cfg& k, int part, bool scr) {
        Given g({k.a, k.b}, scr);
        if (part != 0) SgLinearSolve_setMatrix(&o, g.p[0]);
        if (part != 1) SgLinearSolve_setRightHandSide(&o, g.p[1]);
    }
    Seen look(const Cfg& k, int how) {
        Seen s;
        s.ints.push_back(SgLinearSolve_solve(&o));
        if (how == 1) s.ints[0] = SgLinearSolve_solve(&o);
        double* x = nullptr;
        SgLinearSolve_getSolution(&o, &x);
        s.vals.assign(x, x + k.nc);
        double r = -1;
        SgLinearSolve_getResidual(&o, &r);
        s.vals.push_back(1 + r);
        return s;
    }
    static std::string str(const Cfg& k) { return pbt::fmt("%d x %d", k.nr, k.nc); }
};

// --------------------------------------------------------------------------- objects that are set up once
struct Hull {
    static const char* name() { return "hull"; }
    struct Cfg {
        D p;
    };
    SgTriangulate_type* o = nullptr;
    Hull(const Cfg& k) {
        Given g({k.p}, true);
        SgTriangulate_new(&o, (int) k.p.size() / 2, g.p[0]);
    }
    ~Hull() { SgTriangulate_del(&o); }
    static Cfg cfg(pbt::Case& c) {
        Cfg k;
        int n = c.range(3, 8);
        for (int i = 0; i < 2 * n; ++i) k.p.push_back(c.nice(2));
        return k;
    }
    static void change(pbt::Case&, Cfg&, int) {}
    void set(const Cfg&, int, bool) {}
    Seen look(const Cfg&, int how) {
        Seen s;
        double a = -1;
        SgTriangulate_getConvexHullArea(&o, &a);
        if (how == 1) SgTriangulate_getConvexHullArea(&o, &a);
        s.vals.push_back(1 + a);
        return s;
    }
    static std::string str(const Cfg& k) { return pbt::fmt("%zu points", k.p.size() / 2); }
};

struct Tree {
    static const char* name() { return "tree"; }
    struct Cfg {
        int nd, nlev;
        D p, q;
    };
    SgOctreePoints_type* o = nullptr;
    Tree(const Cfg& k) {
        Given g({k.p}, true);
        SgOctreePoints_new(&o, k.nlev, k.nd, (int) k.p.size() / k.nd, g.p[0]);
    }
    ~Tree() { SgOctreePoints_del(&o); }
    static Cfg cfg(pbt::Case& c) {
        Cfg k;
        k.nd = c.range(1, 3);
        k.nlev = c.range(1, 3);
        int n = c.range(2, 9);
        for (int i = 0; i < k.nd * n; ++i) k.p.push_back(c.real(-2, 2));
        for (int i = 0; i < k.nd; ++i) k.q.push_back(c.real(-2, 2));
        return k;
    }
    static void change(pbt::Case& c, Cfg& k, int) {
        for (auto& v : k.q) v = c.real(-2, 2);
    }
    void set(const Cfg&, int, bool) {}
    Seen look(const Cfg& k, int) {
        Seen s;
        for (int lev = 0; lev <= k.nlev; ++lev) {
            std::vector<size_t> key = o->getKey(k.q.data(), lev);
            s.ints.insert(s.ints.end(), key.begin(), key.end());
            std::vector<double> lo = o->getLo(key), hi = o->getHi(key);
            s.vals.insert(s.vals.end(), lo.begin(), lo.end());
            s.vals.insert(s.vals.end(), hi.begin(), hi.end());
        }
        return s;
    }
    static std::string str(const Cfg& k) { return pbt::fmt("%zu points %dD", k.p.size() / k.nd, k.nd); }
};

struct Box {
    static const char* name() { return "box"; }
    struct Cfg {
        std::vector<int> b, e;
        int at;
    };
    SgBoxIterator_type* o = nullptr;
    Box(const Cfg& k) {
        std::vector<int> b = k.b, e = k.e;
        SgBoxIterator_new(&o, (int) b.size(), b.data(), e.data());
        CHECK(b == k.b && e == k.e, "the arguments were modified");
        for (auto& v : b) v = 99;
        for (auto& v : e) v = -99;
    }
    ~Box() { SgBoxIterator_del(&o); }
    static Cfg cfg(pbt::Case& c) {
        Cfg k;
        int nd = c.range(1, 4);
        for (int i = 0; i < nd; ++i) {
            k.b.push_back(c.range(-3, 3));
            k.e.push_back(k.b.back() + c.range(1, 4));
        }
        k.at = c.range(0, 255);
        return k;
    }
    static void change(pbt::Case& c, Cfg& k, int) { k.at = c.range(0, 255); }
    void set(const Cfg&, int, bool) {}
    Seen look(const Cfg& k, int) {
        Seen s;
        int n = -1;
        SgBoxIterator_getNumberOfElements(&o, &n);
        s.ints.push_back(n);
        std::vector<int> v(k.b.size());
        SgBoxIterator_getElement(&o, k.at % n, v.data());
        s.ints.insert(s.ints.end(), v.begin(), v.end());
        int idx = -1;
        SgBoxIterator_getIndex(&o, v.data(), &idx);
        s.ints.push_back(idx);
        CHECK(idx == k.at % n, "element %d of %d has index %d", k.at % n, n, idx);
        return s;
    }
    static std::string str(const Cfg& k) { return pbt::fmt("box of %zu dimensions", k.b.size()); }
};

} // namespace
