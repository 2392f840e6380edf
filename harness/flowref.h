// Reference for the flow interpolation: weights of the edges of a quad for a segment, in index space
#ifndef FLOWREF_H
#define FLOWREF_H
#include "geom.h"
namespace geom {

// the part [t0, t1] of the segment a-b that is inside a convex polygon (inflated by grow)
inline bool clipSegment(const P& a, const P& b, const Poly& poly0, LD grow, LD& t0, LD& t1) {
    Poly poly = ccw(poly0);
    t0 = 0;
    t1 = 1;
    for (size_t i = 0; i < poly.size(); ++i) {
        const P &e0 = poly[i], &e1 = poly[(i + 1) % poly.size()];
        LD l = dist(e0, e1);
        if (l == 0) continue;
        LD da = cross(e0, e1, a) / l + grow, db = cross(e0, e1, b) / l + grow;
        if (da < 0 && db < 0) return false;
        if (da < 0) t0 = std::max(t0, da / (da - db));
        if (db < 0) t1 = std::min(t1, da / (da - db));
    }
    return t0 <= t1;
}

// weights of the edges: along the first index at low/high second index, along the second index at low/high first index
inline bool edgeWeights(const Poly& q, const P& a, const P& b, LD w[4]) {
    LD ua, va, ub, vb;
    if (!invBilinear(q, a, ua, va) || !invBilinear(q, b, ub, vb)) return false;
    w[0] = (ub - ua) * (1 - (va + vb) / 2);
    w[1] = (ub - ua) * (va + vb) / 2;
    w[2] = (vb - va) * (1 - (ua + ub) / 2);
    w[3] = (vb - va) * (ua + ub) / 2;
    return true;
}

struct EdgeData {
    std::vector<double> e[2]; // (n0-1) x n1 and n0 x (n1-1)
    const double* c[2];
    void bind() { c[0] = e[0].data(); c[1] = e[1].data(); }
};

inline EdgeData fromPotential(const Grid& g, const std::vector<double>& psi) {
    EdgeData d;
    int n0 = g.dims[0], n1 = g.dims[1];
    for (int i = 0; i < n0 - 1; ++i)
        for (int j = 0; j < n1; ++j) d.e[0].push_back(psi[g.node(i + 1, j)] - psi[g.node(i, j)]);
    for (int i = 0; i < n0; ++i)
        for (int j = 0; j < n1 - 1; ++j) d.e[1].push_back(psi[g.node(i, j + 1)] - psi[g.node(i, j)]);
    d.bind();
    return d;
}

struct FlowRef {
    LD value = 0;
    LD inside = 0; // fraction of the segment inside the grid
    int cells = 0; // number of cells that hold a part of the segment
    bool along = false; // part of the segment runs along the side shared by two cells
    bool ok = true;
};

inline FlowRef refFlow(const Grid& g, const EdgeData& d, const P& a, const P& b, LD grow = 1e-14L) {
    FlowRef r;
    int n1 = g.dims[1];
    std::vector<std::pair<LD, LD>> done;
    for (int k = 0; k < g.numCells(); ++k) {
        Poly q = g.quad(k);
        LD t0, t1;
        LD scale = perimeter(q);
        if (boxesApart(q, {a, b})) continue;
        if (!clipSegment(a, b, q, grow * scale, t0, t1) || t1 - t0 < 1e-11L) continue;
        // leave out what has been taken by a previous cell
        std::vector<std::pair<LD, LD>> todo{{t0, t1}};
        for (auto& x : done) {
            std::vector<std::pair<LD, LD>> next;
            for (auto& y : todo) {
                if (x.second <= y.first || x.first >= y.second) { next.push_back(y); continue; }
                if (x.second - x.first > 1e-6L && std::min(x.second, y.second) - std::max(x.first, y.first) > 1e-6L) r.along = true;
                if (x.first > y.first) next.push_back({y.first, x.first});
                if (x.second < y.second) next.push_back({x.second, y.second});
            }
            todo.swap(next);
        }
        for (auto& y : todo) {
            if (y.second - y.first < 1e-11L) continue;
            P pa{a.x + y.first * (b.x - a.x), a.y + y.first * (b.y - a.y)};
            P pb{a.x + y.second * (b.x - a.x), a.y + y.second * (b.y - a.y)};
            LD w[4];
            if (!edgeWeights(q, pa, pb, w)) { r.ok = false; return r; }
            int i = k / (n1 - 1), j = k % (n1 - 1);
            r.value += w[0] * d.e[0][i * n1 + j] + w[1] * d.e[0][i * n1 + j + 1] + w[2] * d.e[1][i * (n1 - 1) + j] +
                       w[3] * d.e[1][(i + 1) * (n1 - 1) + j];
            r.inside += y.second - y.first;
            r.cells++;
            done.push_back(y);
        }
    }
    return r;
}

} // namespace geom
#endif
