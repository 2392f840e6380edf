// C20: whatever the (finite) inputs, valid calls stay within their memory, terminate and release what they allocate.
// The oracles: AddressSanitizer and UBSan (sanitized build), memcheck for undefined values, the balance of the library's
// allocations (plain build), sentinels around the output arrays, and a limit on CPU time.
#include "geom.h"
#include <new>
#include <malloc.h>

namespace {
// allocations made inside of library calls that have not been released
long liveBlocks = 0;
int inLibrary = 0;
const uint64_t MARK = 0x5ca1ab1e0ddba11ULL, PLAIN = 0x0123456789abcdefULL;
}

#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_FUZZ) && !defined(PBT_MEMCHECK)
#define COUNT_BLOCKS 1
void* operator new(std::size_t n) {
    uint64_t* p = (uint64_t*) malloc(n + 16);
    if (!p) throw std::bad_alloc();
    p[0] = inLibrary ? MARK : PLAIN;
    if (inLibrary) liveBlocks++;
    return p + 2;
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* q) noexcept {
    if (!q) return;
    uint64_t* p = (uint64_t*) q - 2;
    if (p[0] == MARK) liveBlocks--;
    p[0] = 0;
    free(p);
}
void operator delete[](void* q) noexcept { operator delete(q); }
void operator delete(void* q, std::size_t) noexcept { operator delete(q); }
void operator delete[](void* q, std::size_t) noexcept { operator delete(q); }
#endif

#include "CmdLineArgParser.h"
#include "SgBoxIterator.h"
#include "SgConserveInterp2D.h"
#include "SgFindOverlappingCells2D.h"
#include "SgFindPointInCell.h"
#include "SgFlowInterp2D.h"
#include "SgLine.h"
#include "SgLinearSolve.h"
#include "SgNodeInterp2D.h"
#include "SgOctreePoints.h"
#include "SgQuadIntersect.h"
#include "SgQuadLineFlows.h"
#include "SgQuadLineIntersect.h"
#include "SgTetrahedron.h"
#include "SgTriangle.h"
#include "SgTriangulate.h"
#include "SgTripolarGrid.h"
#include "createGrids2D.h"
#include <memory>

template <> double CmdLineArgParser::get<double>(const std::string&) const;
template <> int CmdLineArgParser::get<int>(const std::string&) const;
template <> std::string CmdLineArgParser::get<std::string>(const std::string&) const;
template <> bool CmdLineArgParser::get<bool>(const std::string&) const;
template <> std::vector<double> CmdLineArgParser::get<std::vector<double>>(const std::string&) const;
template <> std::vector<int> CmdLineArgParser::get<std::vector<int>>(const std::string&) const;

using namespace geom;

namespace {

#define LIB(call)    \
    do {             \
        inLibrary++; \
        call;        \
        inLibrary--; \
    } while (0)

// calls that always succeed
#define OK(call)                                          \
    do {                                                  \
        int rc_ = 0;                                      \
        LIB(rc_ = call);                                  \
        CHECK(rc_ == 0, "%s returns %d", #call, rc_);     \
    } while (0)

typedef std::vector<double> D;

// heap arrays of the exact size, so that the sanitizer sees every access beyond them
struct Arrays {
    std::vector<std::unique_ptr<double[]>> a;
    std::vector<double*> p;
    std::vector<size_t> n;
    void add(const D& v) {
        a.emplace_back(new double[v.size()]);
        std::copy(v.begin(), v.end(), a.back().get());
        p.push_back(a.back().get());
        n.push_back(v.size());
    }
    const double** c() { return (const double**) p.data(); }
};
std::unique_ptr<int[]> ints(const std::vector<int>& v) {
    std::unique_ptr<int[]> r(new int[v.size()]);
    std::copy(v.begin(), v.end(), r.get());
    return r;
}
// an output array with a sentinel on both sides
struct Out {
    D v;
    Out(size_t n) : v(n + 2, -4.25e200) {}
    double* p() { return v.data() + 1; }
    void check(const char* what) { CHECK(v.front() == -4.25e200 && v.back() == -4.25e200, "%s: written outside the output array", what); }
};
volatile double sinkValue;
// makes memcheck complain about undefined values
void use(double v) {
    if (v > 1e-3) sinkValue = v;
}
void use(int v) {
    if (v > 3) sinkValue = v;
}

double wild(pbt::Case& c) {
    switch (c.range(0, 5)) {
    case 0: return c.range(-3, 3);
    case 1: return c.range(-8, 8) / 4.;
    case 2: return c.real(-1e3, 1e3);
    case 3: return c.chance(1, 4) ? c.real(-1, 1) * 1e12 : 0;
    case 4: return c.real(-1, 1) * 1e-9;
    default: return c.real(-2, 2);
    }
}

// any grid: regular ones, but also tangled, collapsed or coincident nodes
Grid wildGrid(pbt::Case& c) {
    Grid g;
    int how = c.pick({4, 2, 2, 1});
    if (how == 0) {
        g = unitGrid(c, c.range(0, 5), 6, 40);
        placement(c, true).apply(g);
    } else if (how == 1) {
        g = Grid(c.range(2, 5), c.range(2, 5));
        for (auto& v : g.x) v = wild(c);
        for (auto& v : g.y) v = wild(c);
        g.kind = "tangled";
    } else if (how == 2) {
        // small integers: many coincident nodes and aligned sides
        g = Grid(c.range(2, 5), c.range(2, 5));
        for (auto& v : g.x) v = c.range(-1, 2);
        for (auto& v : g.y) v = c.range(-1, 2);
        g.kind = "lattice";
    } else {
        g = unitGrid(c, 0, 5, 40);
        double a = c.range(0, 1), b = c.range(0, 1);
        for (auto& v : g.x) v *= a;
        for (auto& v : g.y) v *= b;
        g.kind = "collapsed";
    }
    return g;
}
D wildPoints(pbt::Case& c, int n, int nd) {
    D r;
    bool lattice = c.chance(1, 2);
    for (int i = 0; i < n * nd; ++i) r.push_back(lattice ? c.range(-2, 2) : wild(c));
    return r;
}
D fieldOf(pbt::Case& c, size_t n) {
    D r(n);
    for (auto& v : r) v = c.nice(3);
    return r;
}

void conserve(pbt::Case& c) {
    SgConserveInterp2D_type* o = nullptr;
    OK(SgConserveInterp2D_new(&o));
    if (c.chance(1, 8)) OK(SgConserveInterp2D_reset(&o));
    int steps = c.range(1, 3);
    Grid src, dst;
    for (int s = 0; s < steps; ++s) {
        for (int k = 0; k < 2; ++k) {
            bool which = (k == 0) ^ c.chance(1, 2);
            if (s > 0 && c.chance(1, 3)) continue;
            Grid& g = which ? src : dst;
            g = wildGrid(c);
            Arrays a;
            a.add(g.x);
            a.add(g.y);
            auto d = ints({g.dims[0], g.dims[1]}), per = ints({c.range(0, 1), c.range(0, 1)});
            c.note("%s %s;", which ? "src" : "dst", g.str().c_str());
            if (which) OK(SgConserveInterp2D_setSrcGrid(&o, d.get(), per.get(), a.c()));
            else OK(SgConserveInterp2D_setDstGrid(&o, d.get(), a.c()));
        }
        for (Grid* g : {&src, &dst})
            if (g->dims[0] == 0) {
                *g = wildGrid(c);
                const int per[] = {0, 0};
                if (g == &src) OK(SgConserveInterp2D_setSrcGrid(&o, g->dims, per, (const double**) g->c));
                else OK(SgConserveInterp2D_setDstGrid(&o, g->dims, (const double**) g->c));
            }
        OK(SgConserveInterp2D_computeWeights(&o));
        long most = (long) src.numCells() * dst.numCells() + 3, n = 0;
        int end = 0;
        if (c.chance(1, 2)) OK(SgConserveInterp2D_reset(&o));
        while (!end && n < most) {
            int i = 0, j = 0;
            double w = 0;
            OK(SgConserveInterp2D_get(&o, &i, &j, &w));
            use(i);
            use(j);
            use(w);
            CHECK(i >= -1 && i < src.numCells() && j >= -1 && j < dst.numCells(), "cells %d and %d", i, j);
            LIB(end = SgConserveInterp2D_next(&o));
            n++;
        }
        CHECK(end, "the iteration does not end");
        Arrays f;
        f.add(fieldOf(c, src.numCells()));
        Out out(dst.numCells());
        OK(SgConserveInterp2D_apply(&o, f.p[0], out.p()));
        out.check("apply");
        for (double v : out.v) use(v);
    }
    OK(SgConserveInterp2D_del(&o));
    c.nontrivial = src.numCells() > 1 && dst.numCells() > 1;
}

void node(pbt::Case& c) {
    SgNodeInterp2D_type* o = nullptr;
    int nmax = c.range(0, 60);
    double tol = c.oneof<double>({1e-8, 1e-3, 1e-14});
    OK(SgNodeInterp2D_new(&o, nmax, tol));
    int steps = c.range(1, 3);
    for (int s = 0; s < steps; ++s) {
        Grid src = wildGrid(c), dst = wildGrid(c);
        c.note("src %s dst %s;", src.str().c_str(), dst.str().c_str());
        for (int k = 0; k < 2; ++k) {
            Grid& g = k ? src : dst;
            Arrays a;
            a.add(g.x);
            a.add(g.y);
            auto d = ints({g.dims[0], g.dims[1]}), per = ints({c.range(0, 1), c.range(0, 1)});
            if (k) OK(SgNodeInterp2D_setSrcGrid(&o, d.get(), per.get(), a.c()));
            else OK(SgNodeInterp2D_setDstGrid(&o, d.get(), a.c()));
        }
        OK(SgNodeInterp2D_computeWeights(&o));
        Arrays f;
        f.add(fieldOf(c, src.numNodes()));
        Out out(dst.numNodes());
        OK(SgNodeInterp2D_apply(&o, f.p[0], out.p()));
        out.check("apply");
        for (double v : out.v) use(v);
        c.nontrivial = src.numCells() > 1;
    }
    OK(SgNodeInterp2D_del(&o));
}

void flow(pbt::Case& c) {
    SgFlowInterp2D_type* o = nullptr;
    OK(SgFlowInterp2D_new(&o));
    int steps = c.range(0, 3);
    for (int s = 0; s < steps; ++s) {
        Grid src = wildGrid(c);
        int n = c.range(2, 6);
        D x = wildPoints(c, n, 1), y = wildPoints(c, n, 1);
        if (c.chance(1, 2))
            for (int i = 0; i < n; ++i) {
                int k = c.range(0, src.numNodes() - 1);
                x[i] = src.x[k];
                y[i] = src.y[k];
            }
        c.note("src %s line", src.str().c_str());
        for (int i = 0; i < n; ++i) c.note(" (%.17g,%.17g)", x[i], y[i]);
        {
            Arrays a, b;
            a.add(src.x);
            a.add(src.y);
            b.add(x);
            b.add(y);
            auto d = ints({src.dims[0], src.dims[1]}), m = ints({n});
            OK(SgFlowInterp2D_setSrcGrid(&o, d.get(), a.c()));
            OK(SgFlowInterp2D_setDstGrid(&o, m.get(), b.c()));
        }
        OK(SgFlowInterp2D_computeWeights(&o));
        Arrays f;
        f.add(fieldOf(c, (src.dims[0] - 1) * src.dims[1]));
        f.add(fieldOf(c, src.dims[0] * (src.dims[1] - 1)));
        Out out(n - 1);
        OK(SgFlowInterp2D_apply(&o, f.c(), out.p()));
        if (c.chance(1, 20)) OK(SgFlowInterp2D_debug(&o));
        out.check("apply");
        for (double v : out.v) use(v);
        c.nontrivial = src.numCells() > 1;
    }
    OK(SgFlowInterp2D_del(&o));
}

void finder(pbt::Case& c) {
    SgFindPointInCell_type* o = nullptr;
    int nmax = c.range(0, 40), limit = std::max(1, nmax);
    double tol = c.oneof<double>({1e-8, 1e-2, 1e-15});
    OK(SgFindPointInCell_new(&o, nmax, tol));
    int steps = c.range(0, 3);
    for (int s = 0; s < steps; ++s) {
        int nd = c.pick({1, 3, 2, 1}) + 1;
        std::vector<int> dims, per;
        int n = 1;
        for (int i = 0; i < nd; ++i) {
            dims.push_back(c.range(2, nd > 2 ? 3 : 5));
            per.push_back(c.range(0, 1));
            n *= dims.back();
        }
        bool regular = c.chance(1, 2);
        Arrays a;
        D lo, hi;
        for (int i = 0; i < nd; ++i) {
            D v = wildPoints(c, n, 1);
            if (regular)
                for (int f = 0; f < n; ++f) {
                    int r = f;
                    for (int j = nd - 1; j > i; --j) r /= dims[j];
                    v[f] = r % dims[i];
                }
            a.add(v);
            lo.push_back(*std::min_element(v.begin(), v.end()));
            hi.push_back(*std::max_element(v.begin(), v.end()));
        }
        {
            auto d = ints(dims), p = ints(per);
            OK(SgFindPointInCell_setGrid(&o, nd, d.get(), p.get(), a.c()));
        }
        int searches = c.range(1, 3);
        for (int k = 0; k < searches; ++k) {
            Arrays b;
            D st, tg;
            for (int i = 0; i < nd; ++i) {
                st.push_back(c.chance(1, 2) ? c.range(0, dims[i] - 1) : c.real(0, dims[i] - 1));
                tg.push_back(c.chance(1, 8) ? wild(c) : lo[i] + c.frac(4) * (hi[i] - lo[i]));
            }
            b.add(st);
            b.add(tg);
            OK(SgFindPointInCell_reset(&o, b.p[0], b.p[1]));
            int code = 0, most = c.chance(1, 4) ? c.range(0, 3) : limit;
            for (int it = 0; it < most && code == 0; ++it) {
                LIB(code = SgFindPointInCell_next(&o));
                double e = 0;
                OK(SgFindPointInCell_getError(&o, &e));
                use(e);
            }
            CHECK(code || most < limit, "the search does not end");
            Out pos(nd), ind(nd);
            OK(SgFindPointInCell_getPosition(&o, pos.p()));
            OK(SgFindPointInCell_getIndices(&o, ind.p()));
            pos.check("getPosition");
            ind.check("getIndices");
            for (int i = 0; i < nd; ++i) {
                use(pos.p()[i]);
                use(ind.p()[i]);
            }
            if (code == 1 || code == -1 || code == -2) {
                int m = 0;
                double* h = nullptr;
                OK(SgFindPointInCell_getErrorHistory(&o, &m, &h));
                for (int i = 0; i < m; ++i) use(h[i]);
            }
            c.nontrivial = true;
        }
    }
    OK(SgFindPointInCell_del(&o));
}

void cells(pbt::Case& c) {
    SgFindOverlappingCells2D_type* o = nullptr;
    OK(SgFindOverlappingCells2D_new(&o));
    int steps = c.range(0, 3);
    for (int s = 0; s < steps; ++s) {
        Grid src = wildGrid(c);
        {
            Arrays a;
            a.add(src.x);
            a.add(src.y);
            auto d = ints({src.dims[0], src.dims[1]}), per = ints({c.range(0, 1), c.range(0, 1)});
            OK(SgFindOverlappingCells2D_setSrcGrid(&o, d.get(), per.get(), a.c()));
        }
        int n = c.range(1, 6);
        D p = wildPoints(c, n, 2);
        if (c.chance(1, 2))
            for (int i = 0; i < n; ++i) {
                P q = bilinear(src.quad(c.range(0, src.numCells() - 1)), c.unit(), c.unit());
                p[2 * i] = (double) q.x;
                p[2 * i + 1] = (double) q.y;
            }
        c.note("src %s polygon", src.str().c_str());
        for (int i = 0; i < n; ++i) c.note(" (%.17g,%.17g)", p[2 * i], p[2 * i + 1]);
        {
            Arrays b;
            b.add(p);
            OK(SgFindOverlappingCells2D_setPolygonPoints(&o, n, b.p[0]));
        }
        OK(SgFindOverlappingCells2D_findSrcCellIndices(&o));
        int m = 0, *v = nullptr;
        OK(SgFindOverlappingCells2D_getNumberOfSrcCellIndices(&o, &m));
        OK(SgFindOverlappingCells2D_getSrcCellIndices(&o, &v));
        CHECK(m >= 0 && m <= src.numCells(), "%d cells of %d", m, src.numCells());
        for (int i = 0; i < m; ++i) CHECK(v[i] >= 0 && v[i] < src.numCells(), "cell %d of %d", v[i], src.numCells());
        c.nontrivial = src.numCells() > 1;
    }
    OK(SgFindOverlappingCells2D_del(&o));
}

D wildQuad(pbt::Case& c, int n = 4) {
    if (c.chance(1, 2)) return wildPoints(c, n, 2);
    D r;
    for (int i = 0; i < 2 * n; ++i) r.push_back(c.nice(1));
    return r;
}

void quads(pbt::Case& c) {
    SgQuadIntersect_type* o = nullptr;
    OK(SgQuadIntersect_new(&o));
    int steps = c.range(0, 4);
    std::vector<std::unique_ptr<Arrays>> keep;
    for (int s = 0; s < steps; ++s) {
        keep.emplace_back(new Arrays);
        Arrays& a = *keep.back();
        a.add(wildQuad(c));
        a.add(c.chance(1, 4) ? D(a.p[0], a.p[0] + 8) : wildQuad(c));
        OK(SgQuadIntersect_setQuadPoints(&o, a.p[0], a.p[1]));
        int m = 0;
        double* v = nullptr;
        OK(SgQuadIntersect_getIntersectPoints(&o, &m, &v));
        CHECK(m >= 0 && m <= 64, "%d points", m);
        for (int i = 0; i < 2 * m; ++i) use(v[i]);
        if (m >= 1) {
            SgTriangulate_type* t = nullptr;
            double area = 0;
            OK(SgTriangulate_new(&t, m, v));
            OK(SgTriangulate_getConvexHullArea(&t, &area));
            OK(SgTriangulate_del(&t));
            use(area);
        }
        c.nontrivial = true;
    }
    OK(SgQuadIntersect_del(&o));
}

void lines(pbt::Case& c) {
    SgQuadLineIntersect_type* o = nullptr;
    SgQuadLineFlows_type* f = nullptr;
    OK(SgQuadLineIntersect_new(&o));
    OK(SgQuadLineFlows_new(&f));
    if (c.chance(1, 6)) {
        int ier = 0;
        LIB(ier = SgQuadLineFlows_computeProjections(&f)); // nothing has been set
        CHECK(ier != 0, "no error without a quad and a line");
    }
    int steps = c.range(0, 4);
    std::vector<std::unique_ptr<Arrays>> keep;
    for (int s = 0; s < steps; ++s) {
        keep.emplace_back(new Arrays);
        Arrays& a = *keep.back();
        a.add(wildQuad(c));
        a.add(wildQuad(c, 2));
        if (c.chance(1, 3)) std::copy(a.p[0], a.p[0] + 4, a.p[1]);
        OK(SgQuadLineIntersect_setQuadPoints(&o, a.p[0]));
        OK(SgQuadLineIntersect_setLinePoints(&o, a.p[1]));
        int m = 0;
        double* v = nullptr;
        OK(SgQuadLineIntersect_collectIntersectPoints(&o, &m, &v));
        CHECK(m >= 0 && m <= 16, "%d points", m);
        for (int i = 0; i < 2 * m; ++i) use(v[i]);
        OK(SgQuadLineFlows_setQuadPoints(&f, a.p[0]));
        OK(SgQuadLineFlows_setLinePoints(&f, a.p[1]));
        int ier = 0;
        LIB(ier = SgQuadLineFlows_computeProjections(&f));
        use(ier);
        for (int e = 0; e < 4 && ier == 0; ++e) {
            double w = 0;
            OK(SgQuadLineFlows_getProjection(&f, e, &w));
            use(w);
        }
        c.nontrivial = true;
    }
    OK(SgQuadLineIntersect_del(&o));
    OK(SgQuadLineFlows_del(&f));
}

void hull(pbt::Case& c) {
    int n = c.range(0, 12);
    Arrays a;
    a.add(wildPoints(c, n, 2));
    if (c.verbose)
        for (int i = 0; i < n; ++i) c.note(" (%.17g,%.17g)", a.p[0][2 * i], a.p[0][2 * i + 1]);
    SgTriangulate_type* t = nullptr;
    double area = 0;
    OK(SgTriangulate_new(&t, n, a.p[0]));
    OK(SgTriangulate_getConvexHullArea(&t, &area));
    OK(SgTriangulate_del(&t));
    use(area);
    c.nontrivial = n > 3;
}

void linear(pbt::Case& c) {
    int nr = c.range(1, 5), nc = c.range(1, 5);
    SgLinearSolve_type* o = nullptr;
    OK(SgLinearSolve_new(&o, nr, nc));
    int steps = c.range(1, 3);
    for (int s = 0; s < steps; ++s) {
        Arrays a;
        a.add(wildPoints(c, nr * nc, 1)); // singular at times
        a.add(wildPoints(c, nr, 1));
        OK(SgLinearSolve_setMatrix(&o, a.p[0]));
        OK(SgLinearSolve_setRightHandSide(&o, a.p[1]));
        int ier = 0;
        LIB(ier = SgLinearSolve_solve(&o));
        CHECK(ier >= 0, "LAPACK says argument %d is wrong", -ier);
        double *x = nullptr, r = 0;
        OK(SgLinearSolve_getSolution(&o, &x));
        OK(SgLinearSolve_getResidual(&o, &r));
        for (int i = 0; i < nc; ++i) use(x[i]);
        use(r);
    }
    OK(SgLinearSolve_del(&o));
    c.nontrivial = nr > 1 && nc > 1;
}

void boxes(pbt::Case& c) {
    int nd = c.range(1, 5);
    std::vector<int> b, e;
    long n = 1;
    for (int i = 0; i < nd; ++i) {
        b.push_back(c.range(-5, 5));
        e.push_back(b.back() + c.range(1, 4));
        n *= e[i] - b[i];
    }
    auto pb = ints(b), pe = ints(e), in = ints(std::vector<int>(nd, 0));
    SgBoxIterator_type* o = nullptr;
    OK(SgBoxIterator_new(&o, nd, pb.get(), pe.get()));
    pb.reset();
    pe.reset();
    int m = 0;
    OK(SgBoxIterator_getNumberOfElements(&o, &m));
    CHECK(m == n, "%d elements of %ld", m, n);
    for (int k = 0; k < m; k += 1 + m / 64) {
        OK(SgBoxIterator_getElement(&o, k, in.get()));
        int idx = -1;
        OK(SgBoxIterator_getIndex(&o, in.get(), &idx));
        use(idx);
    }
    OK(SgBoxIterator_del(&o));
    c.nontrivial = n > 1;
}

void octree(pbt::Case& c) {
    int nd = c.range(1, 3), nlev = c.range(0, nd == 3 ? 2 : 4), n = c.range(1, 20);
    Arrays a;
    a.add(wildPoints(c, n, nd));
    SgOctreePoints_type* o = nullptr;
    OK(SgOctreePoints_new(&o, nlev, nd, n, a.p[0]));
    OK(SgOctreePoints_del(&o));
    c.nontrivial = n > 2 && nlev > 0;
}

void simplices(pbt::Case& c) {
    Arrays a;
    for (int k = 0; k < 4; ++k) a.add(wildPoints(c, 3, 1));
    SgLine_type* l = nullptr;
    SgTriangle_type* t = nullptr;
    SgTetrahedron_type* q = nullptr;
    OK(SgLine_new(&l, a.p[0], a.p[1]));
    OK(SgTriangle_new(&t, a.p[0], a.p[1], a.p[2]));
    OK(SgTetrahedron_new(&q, a.p[0], a.p[1], a.p[2], a.p[3]));
    a = Arrays();
    int n = 0;
    double* p = nullptr;
    int* id = nullptr;
    OK(SgLine_getNumberOfPoints(&l, &n));
    for (int i = 0; i < n; ++i) {
        OK(SgLine_getPoint(&l, i, &p));
        for (int j = 0; j < 3; ++j) use(p[j]);
    }
    OK(SgTriangle_getNumberOfPoints(&t, &n));
    for (int i = 0; i < n; ++i) {
        OK(SgTriangle_getPoint(&t, i, &p));
        for (int j = 0; j < 3; ++j) use(p[j]);
    }
    OK(SgTriangle_getNumberOfEdges(&t, &n));
    for (int i = 0; i < n; ++i) {
        OK(SgTriangle_getEdge(&t, i, &id));
        for (int j = 0; j < 2; ++j) CHECK(id[j] >= 0 && id[j] < 3, "vertex %d", id[j]);
    }
    OK(SgTetrahedron_getNumberOfPoints(&q, &n));
    for (int i = 0; i < n; ++i) {
        OK(SgTetrahedron_getPoint(&q, i, &p));
        for (int j = 0; j < 3; ++j) use(p[j]);
    }
    OK(SgTetrahedron_getNumberOfEdges(&q, &n));
    for (int i = 0; i < n; ++i) {
        OK(SgTetrahedron_getEdge(&q, i, &id));
        for (int j = 0; j < 2; ++j) CHECK(id[j] >= 0 && id[j] < 4, "vertex %d", id[j]);
    }
    OK(SgTetrahedron_getNumberOfFaces(&q, &n));
    for (int i = 0; i < n; ++i) {
        OK(SgTetrahedron_getFace(&q, i, &id));
        for (int j = 0; j < 3; ++j) CHECK(id[j] >= 0 && id[j] < 4, "vertex %d", id[j]);
    }
    OK(SgLine_del(&l));
    OK(SgTriangle_del(&t));
    OK(SgTetrahedron_del(&q));
    c.nontrivial = true;
}

void grids(pbt::Case& c) {
    int how = c.range(0, 3), d[2] = {c.range(2, 12), c.range(2, 12)};
    if (how == 3) {
        d[0] = c.range(3, 12);
        SgTripolarGrid_type* o = nullptr;
        auto dd = ints({d[0], d[1]}), out = ints({0, 0});
        int cap = c.range(1, d[0] - 2);
        OK(SgTripolarGrid_new(&o, dd.get(), cap));
        dd.reset();
        double** p = nullptr;
        OK(SgTripolarGrid_getGrid(&o, out.get(), &p));
        for (int k = 0; k < 2; ++k)
            for (int i = 0; i < d[0] * d[1]; ++i) use(p[k][i]);
        OK(SgTripolarGrid_del(&o));
    } else {
        auto dd = ints({d[0], d[1]});
        Out x(d[0] * d[1]), y(d[0] * d[1]);
        Arrays a;
        a.add(wildPoints(c, 2, 1));
        a.add(wildPoints(c, 2, 1));
        double* p[] = {x.p(), y.p()};
        if (how == 0) LIB(createRectangularGrid(dd.get(), a.p[0], a.p[1], p));
        double u = wild(c), v = wild(c);
        if (how == 1) LIB(createPolarGrid(dd.get(), a.p[0], u, p));
        if (how == 2) LIB(createRotatedPoleGrid(dd.get(), u, v, p));
        x.check("grid");
        y.check("grid");
        for (double v : x.v) use(v);
        for (double v : y.v) use(v);
    }
    c.nontrivial = true;
}

void parser(pbt::Case& c) {
    // a parser of its own, whatever the arguments
    inLibrary++;
    std::unique_ptr<CmdLineArgParser> p(new CmdLineArgParser);
    p->setPurpose("purpose");
    p->set("-d", 1.5, "a number");
    p->set("-i", 3, "an integer");
    p->set("-s", std::string("text"), "a text");
    p->set("-c", "chars", "another text");
    p->set("-b", false, "a flag");
    p->addFootnote("note");
    inLibrary--;
    std::vector<std::string> w = {"prog"};
    int n = c.range(0, 8);
    static const char* pool[] = {"-d", "-i", "-s", "-c", "-b", "-x", "-h", "--help", "-", "--", "", "1", "-1", "-.5", "1e400", "abc", "-d=3", "0,1,2",
                                 ",", "1,,2", "99999999999999", "\xff\xfe", "-1,2", " "};
    for (int k = 0; k < n; ++k) {
        w.push_back(pool[c.range(0, 23)]);
        if (c.chance(1, 6)) w.back() += std::string(c.range(1, 40), (char) c.range(33, 255));
    }
    // arguments in arrays of the exact size
    std::vector<std::unique_ptr<char[]>> s;
    std::unique_ptr<char*[]> argv(new char*[w.size()]);
    for (size_t k = 0; k < w.size(); ++k) {
        s.emplace_back(new char[w[k].size() + 1]);
        memcpy(s.back().get(), w[k].c_str(), w[k].size() + 1);
        argv[k] = s.back().get();
        c.note(" '%s'", w[k].c_str());
    }
    bool help = c.chance(1, 10);
    inLibrary++;
    bool ok = p->parse((int) w.size(), argv.get());
    double d = p->get<double>("-d");
    int i = p->get<int>("-i"), b = p->get<bool>("-b");
    std::string t = p->get<std::string>("-s") + p->get<std::string>("-c");
    std::vector<double> vd = p->get<std::vector<double>>("-s");
    std::vector<int> vi = p->get<std::vector<int>>("-c");
    if (help) p->help();
    use(d);
    use(i + b + ok);
    use((int) (t.size() + vd.size() + vi.size()));
    for (double x : vd) use(x);
    for (int x : vi) use(x);
    p.reset();
    t = std::string();
    t.shrink_to_fit();
    vd = std::vector<double>();
    vi = std::vector<int>();
    inLibrary--;
    c.nontrivial = n > 0;
}

template <void (*F)(pbt::Case&)> void balanced(pbt::Case& c) {
    long before = liveBlocks;
    inLibrary = 0;
    F(c);
#ifdef COUNT_BLOCKS
    CHECK(liveBlocks == before, "%ld blocks allocated by the library have not been released", liveBlocks - before);
#else
    (void) before;
#endif
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C20";
    p.rule = "sequences of valid calls on every class with any finite input: regular, tangled, collapsed and coincident geometry, singular "
             "systems, far away points, odd command lines, objects that are reused; exact size heap arrays. Non-trivial: the object "
             "was used on more than one cell/point";
    p.subs = {{"conserve", 3, balanced<conserve>}, {"node", 3, balanced<node>},     {"flow", 3, balanced<flow>},   {"finder", 3, balanced<finder>},
              {"cells", 3, balanced<cells>},       {"quads", 2, balanced<quads>},   {"lines", 2, balanced<lines>}, {"hull", 2, balanced<hull>},
              {"linear", 2, balanced<linear>},     {"boxes", 1, balanced<boxes>},   {"octree", 1, balanced<octree>},
              {"simplices", 1, balanced<simplices>}, {"grids", 1, balanced<grids>}, {"parser", 2, balanced<parser>}};
    return p;
}
