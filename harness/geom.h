// Reference geometry (in extended precision, written independently of the library)
// and generators of grids.
#ifndef GEOM_H
#define GEOM_H

#include "pbt.h"
#include <array>
#include <cstring>

namespace geom {

typedef long double LD;
struct P {
    LD x, y;
};
typedef std::vector<P> Poly;

inline LD cross(const P& o, const P& a, const P& b) {
    return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x);
}
inline LD dist(const P& a, const P& b) { return std::hypot(a.x - b.x, a.y - b.y); }

inline LD signedArea(const Poly& p) {
    LD a = 0;
    for (size_t i = 1; i + 1 < p.size(); ++i) a += cross(p[0], p[i], p[i + 1]);
    return a / 2;
}
inline LD perimeter(const Poly& p) {
    LD s = 0;
    for (size_t i = 0; i < p.size(); ++i) s += dist(p[i], p[(i + 1) % p.size()]);
    return s;
}
inline Poly ccw(Poly p) {
    if (signedArea(p) < 0) std::reverse(p.begin(), p.end());
    return p;
}
inline Poly fromFlat(const double* c, size_t n) {
    Poly p(n);
    for (size_t i = 0; i < n; ++i) p[i] = P{(LD) c[2 * i], (LD) c[2 * i + 1]};
    return p;
}

// convex polygon a clipped by the convex polygon b (Sutherland-Hodgman), both ccw
inline Poly clip(Poly a, const Poly& b) {
    for (size_t k = 0; k < b.size() && !a.empty(); ++k) {
        const P& e0 = b[k];
        const P& e1 = b[(k + 1) % b.size()];
        if (dist(e0, e1) == 0) continue;
        Poly r;
        for (size_t i = 0; i < a.size(); ++i) {
            const P& p = a[i];
            const P& q = a[(i + 1) % a.size()];
            LD dp = cross(e0, e1, p), dq = cross(e0, e1, q);
            if (dp >= 0) r.push_back(p);
            if ((dp > 0 && dq < 0) || (dp < 0 && dq > 0)) {
                LD t = dp / (dp - dq);
                r.push_back(P{p.x + t * (q.x - p.x), p.y + t * (q.y - p.y)});
            }
        }
        a.swap(r);
    }
    return a;
}

// area of the intersection of two convex polygons of any orientation
inline LD overlapArea(const Poly& a, const Poly& b) {
    Poly r = clip(ccw(a), ccw(b));
    return r.size() < 3 ? 0 : std::abs(signedArea(r));
}

// Andrew's monotone chain
inline Poly hull(Poly p) {
    std::sort(p.begin(), p.end(), [](const P& a, const P& b) { return a.x < b.x || (a.x == b.x && a.y < b.y); });
    p.erase(std::unique(p.begin(), p.end(), [](const P& a, const P& b) { return a.x == b.x && a.y == b.y; }), p.end());
    size_t n = p.size();
    if (n < 3) return p;
    Poly h(2 * n);
    size_t k = 0;
    for (size_t i = 0; i < n; ++i) {
        while (k >= 2 && cross(h[k - 2], h[k - 1], p[i]) <= 0) k--;
        h[k++] = p[i];
    }
    for (size_t i = n - 1, t = k + 1; i > 0; --i) {
        while (k >= t && cross(h[k - 2], h[k - 1], p[i - 1]) <= 0) k--;
        h[k++] = p[i - 1];
    }
    h.resize(k - 1);
    return h;
}

inline LD distToSegment(const P& p, const P& a, const P& b) {
    LD l2 = (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y);
    LD t = l2 > 0 ? ((p.x - a.x) * (b.x - a.x) + (p.y - a.y) * (b.y - a.y)) / l2 : 0;
    t = std::min<LD>(1, std::max<LD>(0, t));
    return dist(p, P{a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)});
}

// distance to the boundary, > 0 inside and < 0 outside a convex polygon
inline LD depth(const P& p, const Poly& poly0) {
    Poly poly = ccw(poly0);
    bool in = true;
    LD d = INFINITY;
    for (size_t i = 0; i < poly.size(); ++i) {
        const P& a = poly[i];
        const P& b = poly[(i + 1) % poly.size()];
        if (dist(a, b) == 0) continue;
        if (cross(a, b, p) < 0) in = false;
        d = std::min(d, distToSegment(p, a, b));
    }
    return in ? d : -d;
}

inline bool crossing(const P& a, const P& b, const P& c, const P& d, P& out, LD& t) {
    LD den = (b.x - a.x) * (d.y - c.y) - (b.y - a.y) * (d.x - c.x);
    if (den == 0) return false;
    t = ((c.x - a.x) * (d.y - c.y) - (c.y - a.y) * (d.x - c.x)) / den;
    LD s = ((c.x - a.x) * (b.y - a.y) - (c.y - a.y) * (b.x - a.x)) / den;
    out = P{a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)};
    return t >= 0 && t <= 1 && s >= 0 && s <= 1;
}

// smallest sine of the angles of a convex quad, <= 0 if not convex (for this orientation)
inline LD minSine(const Poly& q) {
    LD m = INFINITY;
    for (size_t i = 0; i < q.size(); ++i) {
        const P &a = q[(i + q.size() - 1) % q.size()], &b = q[i], &c = q[(i + 1) % q.size()];
        LD l = dist(a, b) * dist(b, c);
        m = std::min(m, l > 0 ? cross(a, b, c) / l : (LD) -1);
    }
    return m;
}

// bilinear map of a quad, nodes (0,0),(1,0),(1,1),(0,1)
inline P bilinear(const Poly& q, LD u, LD v) {
    LD w[4] = {(1 - u) * (1 - v), u * (1 - v), u * v, (1 - u) * v};
    P r{0, 0};
    for (int i = 0; i < 4; ++i) {
        r.x += w[i] * q[i].x;
        r.y += w[i] * q[i].y;
    }
    return r;
}

// inverse of the bilinear map of a convex quad for a point inside or close to it
inline bool invBilinear(const Poly& q0, const P& p0, LD& u, LD& v) {
    // relative to the first node, the coordinates can be large
    Poly q = q0;
    for (auto& n : q) { n.x -= q0[0].x; n.y -= q0[0].y; }
    P p{p0.x - q0[0].x, p0.y - q0[0].y};
    u = v = 0.5L;
    LD size = std::max(dist(q[0], q[2]), dist(q[1], q[3]));
    for (int it = 0; it < 200; ++it) {
        P r = bilinear(q, u, v);
        LD fx = r.x - p.x, fy = r.y - p.y;
        LD f = std::hypot(fx, fy);
        if (f <= 1e-17L * size) return true;
        LD a = (1 - v) * (q[1].x - q[0].x) + v * (q[2].x - q[3].x);
        LD c = (1 - v) * (q[1].y - q[0].y) + v * (q[2].y - q[3].y);
        LD b = (1 - u) * (q[3].x - q[0].x) + u * (q[2].x - q[1].x);
        LD d = (1 - u) * (q[3].y - q[0].y) + u * (q[2].y - q[1].y);
        LD det = a * d - b * c;
        if (det == 0) return false;
        LD du = (d * fx - b * fy) / det, dv = (a * fy - c * fx) / det;
        // damped
        LD s = 1;
        for (int k = 0; k < 40; ++k) {
            LD nu = u - s * du, nv = v - s * dv;
            P r2 = bilinear(q, nu, nv);
            if (std::hypot(r2.x - p.x, r2.y - p.y) < f || k == 39) {
                u = nu;
                v = nv;
                break;
            }
            s /= 2;
        }
        if (std::abs(s * du) + std::abs(s * dv) < 1e-19L) return f <= 1e-13L * size;
    }
    P r = bilinear(q, u, v);
    return dist(r, p) <= 1e-13L * size;
}

// ---------------------------------------------------------------------------

// structured grid, the last index varies fastest
struct Grid {
    int dims[2];
    std::vector<double> x, y;
    const double* c[2];
    std::string kind;

    Grid() { dims[0] = dims[1] = 0; }
    Grid(int n0, int n1) { alloc(n0, n1); }
    Grid(const Grid& o) { *this = o; }
    Grid& operator=(const Grid& o) {
        dims[0] = o.dims[0];
        dims[1] = o.dims[1];
        x = o.x;
        y = o.y;
        kind = o.kind;
        c[0] = x.data();
        c[1] = y.data();
        return *this;
    }
    void alloc(int n0, int n1) {
        dims[0] = n0;
        dims[1] = n1;
        x.assign(n0 * n1, 0);
        y.assign(n0 * n1, 0);
        c[0] = x.data();
        c[1] = y.data();
    }
    int numNodes() const { return dims[0] * dims[1]; }
    int numCells() const { return (dims[0] - 1) * (dims[1] - 1); }
    int node(int i, int j) const { return i * dims[1] + j; }
    P at(int i, int j) const { return P{(LD) x[node(i, j)], (LD) y[node(i, j)]}; }
    void set(int i, int j, double px, double py) {
        x[node(i, j)] = px;
        y[node(i, j)] = py;
    }
    Poly quad(int cell) const {
        int i = cell / (dims[1] - 1), j = cell % (dims[1] - 1);
        return Poly{at(i, j), at(i + 1, j), at(i + 1, j + 1), at(i, j + 1)};
    }
    Poly boundary() const {
        Poly b;
        for (int i = 0; i < dims[0] - 1; ++i) b.push_back(at(i, 0));
        for (int j = 0; j < dims[1] - 1; ++j) b.push_back(at(dims[0] - 1, j));
        for (int i = dims[0] - 1; i > 0; --i) b.push_back(at(i, dims[1] - 1));
        for (int j = dims[1] - 1; j > 0; --j) b.push_back(at(0, j));
        return b;
    }
    double maxAbs() const {
        double m = 0;
        for (double v : x) m = std::max(m, std::fabs(v));
        for (double v : y) m = std::max(m, std::fabs(v));
        return m;
    }
    // smallest sine over all the cells, each of its own orientation
    LD cellConvexity() const {
        LD m = INFINITY;
        for (int k = 0; k < numCells(); ++k) {
            Poly q = quad(k);
            if (signedArea(q) < 0) std::reverse(q.begin(), q.end());
            m = std::min(m, minSine(q));
        }
        return m;
    }
    // smallest sine over all the cells, all of the same orientation
    LD convexity() const {
        LD m = INFINITY;
        bool pos = signedArea(quad(0)) > 0;
        for (int k = 0; k < numCells(); ++k) {
            Poly q = quad(k);
            if (!pos) std::reverse(q.begin(), q.end());
            m = std::min(m, minSine(q));
        }
        return m;
    }
    double minEdge() const {
        LD m = INFINITY;
        for (int k = 0; k < numCells(); ++k) {
            Poly q = quad(k);
            for (int e = 0; e < 4; ++e) m = std::min(m, dist(q[e], q[(e + 1) % 4]));
        }
        return (double) m;
    }
    std::string str() const {
        std::string s = pbt::fmt("%s %dx%d nodes {", kind.c_str(), dims[0], dims[1]);
        for (int k = 0; k < numNodes(); ++k) {
            if (k == 36) { s += " ..."; break; }
            s += pbt::fmt("%s(%.17g,%.17g)", k % dims[1] == 0 && k ? " | " : " ", x[k], y[k]);
        }
        return s + " }";
    }
};

// a small number of either sign, of any magnitude
inline double tiny(pbt::Case& c) { return (c.chance(1, 2) ? 1 : -1) * std::pow(10., c.real(-13, -1)); }

// affine map of the plane
struct Affine {
    double a[4] = {1, 0, 0, 1};
    double t[2] = {0, 0};
    void apply(double& x, double& y) const {
        double u = a[0] * x + a[1] * y + t[0];
        double v = a[2] * x + a[3] * y + t[1];
        x = u;
        y = v;
    }
    void apply(Grid& g) const {
        for (int k = 0; k < g.numNodes(); ++k) apply(g.x[k], g.y[k]);
    }
};

// increasing values from 0 to 1, uniform or not
inline std::vector<double> ticks(pbt::Case& c, int n) {
    std::vector<double> v(n), w(n, 1.0);
    int how = c.pick({3, 2, n <= 20 ? 1 : 0});
    if (how == 1) for (auto& q : w) q = 0.25 + c.unit();
    if (how == 2) { double r = c.real(0.7, 1.4); double f = 1; for (auto& q : w) { q = f; f *= r; } }
    double s = 0;
    v[0] = 0;
    if (how == 0) {
        for (int i = 0; i < n; ++i) v[i] = i / double(n - 1);
        return v;
    }
    for (int i = 1; i < n; ++i) { s += w[i]; v[i] = s; }
    for (int i = 1; i < n; ++i) v[i] /= s;
    return v;
}

enum { RECT = 0, CURVI, PERTURBED, POLAR, SECTOR, SHEARED };

// number of nodes along an axis
inline int genDim(pbt::Case& c, int maxn) {
    return 2 + c.pick(maxn >= 5 ? std::vector<int>{3, 4, 4, 3, std::max(1, maxn - 4)} : std::vector<int>(maxn - 1, 1)) ;
}
inline int genSize(pbt::Case& c, int maxn) {
    int n = genDim(c, maxn);
    if (n == 6 && maxn > 6) n = c.range(6, maxn);
    return std::min(n, maxn);
}

// A grid of convex cells that covers about [0,1]x[0,1] (or the unit disk for the polar grid)
inline Grid unitGrid(pbt::Case& c, int kind, int maxn, int longest = 280) {
    int n0 = genSize(c, maxn), n1 = genSize(c, maxn);
    // now and then many cells, mostly along one axis
    if (c.chance(1, 120)) {
        n0 = c.range(2, 4);
        n1 = c.range(12, longest);
        if (c.chance(1, 4)) n0 = n1 = c.range(9, longest > 100 ? 24 : 14);
        if (c.chance(1, 2)) std::swap(n0, n1);
    }
    if (kind == POLAR) n1 = std::max(n1, 4);
    Grid g(n0, n1);
    if (kind == POLAR || kind == SECTOR) {
        double r0 = 0, span = 2 * M_PI;
        bool centre = kind == POLAR && c.chance(3, 4);
        if (!centre) r0 = 0.125 + 0.5 * c.unit();
        double th0 = c.chance(1, 2) ? 0 : c.real(-3, 3);
        if (kind == SECTOR) span = std::min(1.2 * (n1 - 1), 0.3 + 4.5 * c.unit());
        for (int i = 0; i < n0; ++i)
            for (int j = 0; j < n1; ++j) {
                double r = r0 + (1 - r0) * i / double(n0 - 1), th = th0 + span * j / double(n1 - 1);
                g.set(i, j, r * cos(th), r * sin(th));
            }
        g.kind = kind == POLAR ? (centre ? "polar" : "annulus") : "sector";
        return g;
    }
    std::vector<double> u = ticks(c, n0), v = ticks(c, n1);
    for (int i = 0; i < n0; ++i)
        for (int j = 0; j < n1; ++j) g.set(i, j, u[i], v[j]);
    g.kind = "rect";
    if (kind == RECT) return g;
    if (kind == SHEARED) {
        double s = c.real(-0.8, 0.8), r = c.real(-0.4, 0.4);
        for (int k = 0; k < g.numNodes(); ++k) {
            double a = g.x[k], b = g.y[k];
            g.x[k] = a + s * b;
            g.y[k] = b + r * a;
        }
        g.kind = "sheared";
        return g;
    }
    Grid base = g;
    double amp = kind == CURVI ? c.real(0.02, 0.15) : c.real(0.02, 0.25);
    std::vector<double> rx(g.numNodes(), 0), ry(g.numNodes(), 0);
    if (kind == CURVI) {
        double px = c.unit(), py = c.unit();
        int kx = c.range(1, 2), ky = c.range(1, 2);
        for (int k = 0; k < g.numNodes(); ++k) {
            rx[k] = sin(2 * M_PI * (0.5 * ky * base.y[k] + py)) * 0.9 + 0.3 * base.x[k] * base.y[k];
            ry[k] = sin(2 * M_PI * (0.5 * kx * base.x[k] + px));
        }
    } else {
        for (int i = 0; i < n0; ++i)
            for (int j = 0; j < n1; ++j) {
                double hx = INFINITY, hy = INFINITY;
                if (i > 0) hx = std::min(hx, u[i] - u[i - 1]);
                if (i < n0 - 1) hx = std::min(hx, u[i + 1] - u[i]);
                if (j > 0) hy = std::min(hy, v[j] - v[j - 1]);
                if (j < n1 - 1) hy = std::min(hy, v[j + 1] - v[j]);
                rx[g.node(i, j)] = hx * c.real(-1, 1);
                ry[g.node(i, j)] = hy * c.real(-1, 1);
            }
    }
    g.kind = kind == CURVI ? "curvilinear" : "perturbed";
    for (int it = 0; it < 12; ++it) {
        for (int k = 0; k < g.numNodes(); ++k) {
            g.x[k] = base.x[k] + amp * rx[k];
            g.y[k] = base.y[k] + amp * ry[k];
        }
        if (g.convexity() > 0.1) return g;
        amp /= 1.7;
    }
    g = base;
    g.kind = "rect";
    return g;
}

// swap the direction of the second index, the cells become clockwise
inline Grid flipped(const Grid& g) {
    Grid r = g;
    for (int i = 0; i < g.dims[0]; ++i)
        for (int j = 0; j < g.dims[1]; ++j) {
            int k = g.node(i, g.dims[1] - 1 - j);
            r.set(i, j, g.x[k], g.y[k]);
        }
    r.kind += "(cw)";
    return r;
}

// placement of the unit square in the plane; the coordinates stay below about 1e3 times the size
inline Affine placement(pbt::Case& c, bool rotations, bool anyScale = false) {
    Affine f;
    double s = 1;
    switch (c.pick({4, 2, 2, 1})) {
    case 1: s = c.oneof<double>({0.1, 10, 2, 0.5, 100}); break;
    case 2: s = std::exp(c.real(std::log(0.05), std::log(300.0))); break;
    case 3: s = 360; break;
    }
    // areas have no natural unit: the same must hold in metres or in micrometres
    if (anyScale && c.chance(1, 6)) s *= c.oneof<double>({1e-7, 1e-5, 1e-3, 1e4, 1e6, 1e8});
    double th = 0, sx = s, sy = s;
    if (rotations && c.chance(1, 2)) th = c.chance(1, 3) ? M_PI / 4 * c.range(0, 7) : c.real(-3.2, 3.2);
    if (c.chance(1, 4)) sy = s * c.real(0.3, 3);
    f.a[0] = cos(th) * sx;
    f.a[1] = -sin(th) * sy;
    f.a[2] = sin(th) * sx;
    f.a[3] = cos(th) * sy;
    switch (c.pick({3, 2, 1})) {
    case 1: f.t[0] = s * c.real(-3, 3); f.t[1] = s * c.real(-3, 3); break;
    case 2: f.t[0] = s * c.range(-20, 20); f.t[1] = s * c.range(-20, 20); break;
    }
    // far away from the origin, as projected coordinates are
    if (anyScale && c.chance(1, 10)) {
        double far = s * c.oneof<double>({100, 1e3, 1e4, 1e6});
        for (double& t : f.t) t += far * c.nice(1);
    }
    return f;
}

// take a subset of the lines of a grid
inline Grid subGrid(const Grid& g, const std::vector<int>& is, const std::vector<int>& js) {
    Grid r((int) is.size(), (int) js.size());
    for (size_t i = 0; i < is.size(); ++i)
        for (size_t j = 0; j < js.size(); ++j) {
            int k = g.node(is[i], js[j]);
            r.set((int) i, (int) j, g.x[k], g.y[k]);
        }
    r.kind = g.kind + "/subset";
    return r;
}

inline std::vector<int> someLines(pbt::Case& c, int n) {
    // at least two, increasing
    std::vector<int> v;
    for (int i = 0; i < n; ++i) if (!c.chance(1, 3)) v.push_back(i);
    if (v.size() < 2) v = {0, n - 1};
    return v;
}

// a refinement of a grid by bilinear interpolation, m sub-cells per cell and direction
inline Grid refined(const Grid& g, int m0, int m1) {
    Grid r((g.dims[0] - 1) * m0 + 1, (g.dims[1] - 1) * m1 + 1);
    for (int i = 0; i < r.dims[0]; ++i)
        for (int j = 0; j < r.dims[1]; ++j) {
            int i0 = std::min(i / m0, g.dims[0] - 2), j0 = std::min(j / m1, g.dims[1] - 2);
            LD u = LD(i - i0 * m0) / m0, v = LD(j - j0 * m1) / m1;
            P p = bilinear(g.quad(i0 * (g.dims[1] - 1) + j0), u, v);
            r.set(i, j, (double) p.x, (double) p.y);
        }
    r.kind = g.kind + "/refined";
    return r;
}

// a grid of tens of thousands of cells, more than 16 bits can count. The cells are squares, or nearly so
inline Grid manyCells(pbt::Case& c, bool affine = false) {
    int n0, n1;
    switch (c.range(0, 2)) {
    case 0: n0 = c.range(150, 300); n1 = c.range(150, 300); break;
    case 1: n0 = c.range(2, 3); n1 = c.range(257, 70000); break;
    default: n0 = c.range(257, 70000); n1 = c.range(2, 3);
    }
    Grid g(n0, n1);
    double amp = affine || c.chance(1, 2) ? 0 : c.real(0, 0.2), sh = c.chance(1, 2) ? c.real(-0.5, 0.5) : 0, s = 1. / std::max(n0, n1);
    for (int i = 0; i < n0; ++i)
        for (int j = 0; j < n1; ++j)
            g.set(i, j, s * (i + sh * j + amp * sin(0.3 * i + 0.2 * j)), s * (j + amp * cos(0.7 * j - 0.4 * i)));
    g.kind = "many cells";
    return g;
}

// an index along an axis of n cells, at the far end half of the time
inline int someIndex(pbt::Case& c, int n) { return c.chance(1, 2) ? c.range(std::max(0, n - 3), n - 1) : c.range(0, n - 1); }

struct GridPair {
    Grid src, dst;
    std::string relation;
};

// two grids of convex cells and the relation between them
inline GridPair gridPair(pbt::Case& c, int maxn, bool allowPolar, bool anyScale = true) {
    GridPair r;
    int kind = c.pick({4, 2, 3, allowPolar ? 2 : 0, 1, 1});
    int longest = 12 * maxn; // every cell is compared with every cell
    r.src = unitGrid(c, kind, maxn, longest);
    int rel = c.pick({6, 1, 2, 2, 2, 1});
    bool ok = false;
    switch (rel) {
    case 1:
        r.dst = r.src;
        r.relation = "identical";
        ok = true;
        break;
    case 2:
        r.dst = subGrid(r.src, someLines(c, r.src.dims[0]), someLines(c, r.src.dims[1]));
        r.relation = "coarsened";
        // thin out to a single cell for the grids that close on themselves
        ok = r.src.kind != "polar" && r.src.kind != "annulus" && r.dst.convexity() > 0.05;
        break;
    case 3:
        r.dst = refined(r.src, c.range(1, 3), c.range(1, 3));
        r.relation = "refined";
        ok = r.dst.convexity() > 0.05 && r.dst.numCells() <= 4 * maxn * maxn;
        if (r.src.kind == "polar") ok = false;
        break;
    case 4: {
        // shifted by a fraction of a cell
        r.dst = r.src;
        P a = r.src.at(0, 0), b = r.src.at(1, 0), d = r.src.at(0, 1);
        double f = c.oneof<double>({0.5, 1.0, 0.25, -0.5, -1.0}), h = c.oneof<double>({0, 0.5, 1.0, -0.5});
        for (int k = 0; k < r.dst.numNodes(); ++k) {
            r.dst.x[k] += f * double(b.x - a.x) + h * double(d.x - a.x);
            r.dst.y[k] += f * double(b.y - a.y) + h * double(d.y - a.y);
        }
        r.relation = "shifted";
        ok = true;
        break;
    }
    case 5: {
        r.dst = Grid(2, 2);
        double lo[2], len[2];
        for (int k = 0; k < 2; ++k) { lo[k] = c.range(-4, 12) / 8.0; len[k] = c.range(1, 16) / 8.0; }
        for (int i = 0; i < 2; ++i)
            for (int j = 0; j < 2; ++j) r.dst.set(i, j, lo[0] + i * len[0], lo[1] + j * len[1]);
        r.dst.kind = "box";
        r.relation = "one cell";
        ok = true;
        break;
    }
    }
    if (!ok) {
        r.dst = unitGrid(c, c.pick({4, 2, 3, allowPolar ? 1 : 0, 1, 1}), maxn, longest);
        // place the destination relative to the source
        Affine f;
        switch (c.pick({6, 6, 4, 4, 1})) {
        case 0: r.relation = "same box"; break;
        case 4: { // far smaller than the cells of the other grid
            double l = std::pow(10., -c.real(1, 8));
            Poly q = r.src.quad(c.range(0, r.src.numCells() - 1));
            P p = bilinear(q, c.chance(1, 4) ? c.range(0, 1) : c.unit(), c.chance(1, 4) ? c.range(0, 1) : c.unit());
            f.a[0] = f.a[3] = l;
            f.t[0] = (double) p.x - l * c.unit();
            f.t[1] = (double) p.y - l * c.unit();
            r.relation = "far smaller";
            break;
        }
        case 1: { // inside
            double l = c.real(0.2, 0.6);
            f.a[0] = f.a[3] = l;
            f.t[0] = 0.2 + c.unit() * (0.6 - l);
            f.t[1] = 0.2 + c.unit() * (0.6 - l);
            r.relation = "inside";
            break;
        }
        case 2: { // covering
            double l = c.real(1.5, 3);
            f.a[0] = f.a[3] = l;
            f.t[0] = f.t[1] = -l / 4;
            r.relation = "covering";
            break;
        }
        default: { // anywhere, any orientation
            double l = c.real(0.3, 1.5), th = c.real(-3.2, 3.2);
            f.a[0] = f.a[3] = l * cos(th);
            f.a[1] = -l * sin(th);
            f.a[2] = l * sin(th);
            f.t[0] = c.real(-0.5, 1);
            f.t[1] = c.real(-0.5, 1);
            r.relation = "anywhere";
        }
        }
        f.apply(r.dst);
    }
    if (c.chance(1, 10)) {
        // lines that cross at a tiny angle, nodes that are nearly but not on a line
        double th = c.chance(2, 3) ? tiny(c) : 0, x = c.real(0, 1), y = c.real(0, 1);
        Affine t;
        t.a[0] = t.a[3] = cos(th);
        t.a[1] = -sin(th);
        t.a[2] = sin(th);
        t.t[0] = x - (t.a[0] * x + t.a[1] * y) + (c.chance(1, 3) ? tiny(c) : 0);
        t.t[1] = y - (t.a[2] * x + t.a[3] * y) + (c.chance(1, 3) ? tiny(c) : 0);
        t.apply(r.dst);
        r.relation += ", nudged";
    }
    Affine f = placement(c, true, anyScale);
    f.apply(r.src);
    f.apply(r.dst);
    if (c.chance(1, 6)) r.src = flipped(r.src);
    if (c.chance(1, 6)) r.dst = flipped(r.dst);
    if (c.chance(1, 5) && r.src.kind.substr(0, 5) != "polar") {
        std::swap(r.src, r.dst);
        r.relation += " (swapped)";
    }
    return r;
}

// a grid of many cells and one of a few cells somewhere over it
inline GridPair largePair(pbt::Case& c) {
    GridPair r;
    r.src = manyCells(c);
    int n1 = r.src.dims[1] - 1, i = someIndex(c, r.src.dims[0] - 1), j = someIndex(c, n1);
    Poly q = r.src.quad(i * n1 + j);
    r.dst = Grid(c.range(2, 4), c.range(2, 4));
    LD u0 = c.real(-2, 1), v0 = c.real(-2, 1), u1 = c.real(0.2, 2), v1 = c.real(0.2, 2), t = c.chance(1, 2) ? 0 : c.real(-0.3, 0.3);
    for (int k = 0; k < r.dst.dims[0]; ++k)
        for (int l = 0; l < r.dst.dims[1]; ++l) {
            LD u = u1 * k, v = v1 * l;
            P p = q[0], a = q[1], b = q[3];
            LD x = u0 + u - t * v, y = v0 + v + t * u;
            r.dst.set(k, l, (double) (p.x + x * (a.x - p.x) + y * (b.x - p.x)), (double) (p.y + x * (a.y - p.y) + y * (b.y - p.y)));
        }
    r.dst.kind = "few cells";
    r.relation = "many and few cells";
    Affine f = placement(c, true, false);
    f.apply(r.src);
    f.apply(r.dst);
    if (c.chance(1, 2)) std::swap(r.src, r.dst);
    return r;
}

// boxes of two sets of points that are clearly apart
inline bool boxesApart(const Poly& a, const Poly& b) {
    LD lo[2][2], hi[2][2];
    for (int k = 0; k < 2; ++k) {
        lo[k][0] = lo[k][1] = INFINITY;
        hi[k][0] = hi[k][1] = -INFINITY;
        for (const P& p : k ? b : a) {
            lo[k][0] = std::min(lo[k][0], p.x);
            hi[k][0] = std::max(hi[k][0], p.x);
            lo[k][1] = std::min(lo[k][1], p.y);
            hi[k][1] = std::max(hi[k][1], p.y);
        }
    }
    for (int d = 0; d < 2; ++d) {
        LD m = 0.01L * (hi[0][d] - lo[0][d] + hi[1][d] - lo[1][d]);
        if (lo[0][d] > hi[1][d] + m || lo[1][d] > hi[0][d] + m) return true;
    }
    return false;
}

// Runs an apply function, which fills an array of n values, twice: on an array of sentinels and on one full of garbage
// (not a number, infinite, huge, as memory that was never initialised may hold). Both must give the same values and
// leave the same elements alone.
template <class F> std::vector<double> applied(int n, double sentinel, F apply) {
    std::vector<double> r(n, sentinel), g(n);
    const double junk[] = {std::nan(""), HUGE_VAL, -1e308, -HUGE_VAL};
    for (int k = 0; k < n; ++k) g[k] = junk[k % 4];
    std::vector<double> g0 = g;
    apply(r.data());
    apply(g.data());
    for (int k = 0; k < n; ++k) {
        if (r[k] == sentinel)
            CHECK(std::memcmp(&g[k], &g0[k], sizeof(double)) == 0, "element %d is left alone when it holds %g but not when it holds %g", k,
                  sentinel, g0[k]);
        else
            CHECK(g[k] == r[k] || (std::isnan(g[k]) && std::isnan(r[k])), "element %d: %.17g, but %.17g if the output array holds %g", k,
                  r[k], g[k], g0[k]);
    }
    return r;
}

// same bits
inline bool same(const std::vector<double>& a, const std::vector<double>& b) {
    return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}
// a power of two, data multiplied by it give a result multiplied by it
inline int someUnit(pbt::Case& c) { return c.oneof<int>({1, -1, 20, -20, -45, 45, 100, -100, 300, -300}); }
inline std::vector<double> inUnit(std::vector<double> f, int e) {
    for (auto& v : f) v = std::ldexp(v, e);
    return f;
}
// what a missing value may look like
inline double missing(pbt::Case& c) { return c.oneof<double>({NAN, INFINITY, -INFINITY, 1e20, 1e308, -9999}); }

} // namespace geom

#endif // GEOM_H
