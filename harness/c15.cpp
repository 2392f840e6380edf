// C15: grid generators
#include "pbt.h"
#include "createGrids2D.h"

namespace {
typedef long double LD;
const LD PI = 3.14159265358979323846264338327950288L;

struct Coords {
    std::vector<double> v[2];
    double* p[2];
    size_t n;
    explicit Coords(size_t n_) : n(n_) {
        for (int k = 0; k < 2; ++k) {
            v[k].assign(n + 2, -7.5e77); // one more on each side
            p[k] = v[k].data() + 1;
        }
    }
    void done() {
        for (int k = 0; k < 2; ++k) {
            CHECK(v[k][0] == -7.5e77 && v[k][n + 1] == -7.5e77, "component %d: written outside the array", k);
            for (size_t i = 0; i < n; ++i) CHECK(std::isfinite(p[k][i]) && p[k][i] != -7.5e77, "component %d node %zu: %g", k, i, p[k][i]);
        }
    }
};

void dims(pbt::Case& c, int* d) {
    d[0] = c.range(2, 30);
    d[1] = c.range(2, 30);
    if (c.chance(1, 20)) d[c.range(0, 1)] = c.range(31, 400);
    if (c.chance(1, 5000)) d[c.range(0, 1)] = c.range(400, 70000); // more nodes than 16 bits can count
}

void rectangular(pbt::Case& c) {
    int d[2];
    dims(c, d);
    double s = c.oneof<double>({1, 1e-3, 360, 1e6});
    double lo[2], hi[2];
    for (int k = 0; k < 2; ++k) {
        lo[k] = s * c.nice(2);
        hi[k] = lo[k] + s * c.real(0.01, 4) * (c.chance(1, 6) ? -1 : 1);
    }
    c.note("rectangular %d x %d, %.17g..%.17g %.17g..%.17g", d[0], d[1], lo[0], hi[0], lo[1], hi[1]);
    Coords g((size_t) d[0] * d[1]);
    createRectangularGrid(d, lo, hi, g.p);
    g.done();
    for (int i = 0; i < d[0]; ++i)
        for (int j = 0; j < d[1]; ++j) {
            int k = i * d[1] + j;
            LD x = lo[0] + ((LD) hi[0] - lo[0]) * i / (d[0] - 1), y = lo[1] + ((LD) hi[1] - lo[1]) * j / (d[1] - 1);
            LD t = 1e-14L * (std::fabs(lo[0]) + std::fabs(hi[0])), t2 = 1e-14L * (std::fabs(lo[1]) + std::fabs(hi[1]));
            CHECK(fabsl(g.p[0][k] - x) <= t && fabsl(g.p[1][k] - y) <= t2, "node (%d,%d) is (%.17g,%.17g), should be (%.17Lg,%.17Lg)", i, j, g.p[0][k],
                  g.p[1][k], x, y);
        }
    CHECK(g.p[0][0] == lo[0] && g.p[1][0] == lo[1], "first node");
    c.nontrivial = d[0] > 2 && d[1] > 2;
}

void polar(pbt::Case& c) {
    int d[2];
    dims(c, d);
    double s = c.oneof<double>({1, 1e-3, 360, 1e6});
    double ctr[2] = {s * c.nice(2), s * c.nice(2)}, r = s * c.real(0.01, 4);
    c.note("polar %d x %d, center %.17g %.17g radius %.17g", d[0], d[1], ctr[0], ctr[1], r);
    Coords g((size_t) d[0] * d[1]);
    createPolarGrid(d, ctr, r, g.p);
    g.done();
    LD tol = 1e-14L * (r + std::fabs(ctr[0]) + std::fabs(ctr[1]));
    for (int i = 0; i < d[0]; ++i)
        for (int j = 0; j < d[1]; ++j) {
            int k = i * d[1] + j;
            LD rho = (LD) r * i / (d[0] - 1), th = 2 * PI * j / (d[1] - 1);
            LD x = ctr[0] + rho * cosl(th), y = ctr[1] + rho * sinl(th);
            CHECK(fabsl(g.p[0][k] - x) <= tol && fabsl(g.p[1][k] - y) <= tol, "node (%d,%d) is (%.17g,%.17g), should be (%.17Lg,%.17Lg)", i, j,
                  g.p[0][k], g.p[1][k], x, y);
        }
    c.nontrivial = d[0] > 2 && d[1] > 2;
}

struct X3 {
    LD x, y, z;
};
X3 sphere(LD latDeg, LD lonDeg) {
    LD a = latDeg * PI / 180, b = lonDeg * PI / 180;
    return X3{cosl(a) * cosl(b), cosl(a) * sinl(b), sinl(a)};
}
LD dot(const X3& a, const X3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
LD det(const X3& a, const X3& b, const X3& c) {
    return a.x * (b.y * c.z - b.z * c.y) - a.y * (b.x * c.z - b.z * c.x) + a.z * (b.x * c.y - b.y * c.x);
}

void rotated(pbt::Case& c) {
    int d[2];
    dims(c, d);
    // displacement of the pole
    double dlat = c.pick({1, 3, 2}), dlon;
    int how = (int) dlat;
    dlat = how == 0 ? 0 : (how == 1 ? c.real(-90, 90) : c.range(-6, 6) * 15);
    dlon = c.chance(1, 4) ? c.range(-12, 12) * 15 : c.real(-180, 180);
    if (c.chance(1, 5)) dlon = 0;
    // more than one turn
    if (c.chance(1, 6)) dlon = c.chance(1, 3) ? c.range(-48, 48) * 15 : c.real(-720, 720);
    if (c.chance(1, 10)) dlat = c.chance(1, 3) ? c.range(-24, 24) * 15 : c.real(-400, 400);
    c.label(std::fabs(dlon) > 180 || std::fabs(dlat) > 90, "displacement of more than half a turn");
    c.note("rotated pole %d x %d, displacement %.17g %.17g", d[0], d[1], dlat, dlon);
    Coords g((size_t) d[0] * d[1]);
    createRotatedPoleGrid(d, dlat, dlon, g.p);
    g.done();
    auto at = [&](int j, int i) { return sphere(g.p[0][j * d[1] + i], g.p[1][j * d[1] + i]); };
    auto orig = [&](int j, int i) { return sphere(-90 + 180.L * j / (d[0] - 1), -180 + 360.L * i / (d[1] - 1)); };
    // latitudes close to the poles are ill conditioned (asin)
    const LD tol = 1e-7L;
    LD a = dlat * PI / 180, b = dlon * PI / 180;
    for (int j = 0; j < d[0]; ++j)
        for (int i = 0; i < d[1]; ++i) {
            double lat = g.p[0][j * d[1] + i], lon = g.p[1][j * d[1] + i];
            CHECK(lat >= -90 - 1e-12 && lat <= 90 + 1e-12 && lon >= -180 - 1e-12 && lon <= 180 + 1e-12, "node (%d,%d): %.17g %.17g", j, i, lat, lon);
            X3 p = orig(j, i);
            // tilt about the y axis, then turn about the polar axis
            LD u = cosl(a) * p.x + sinl(a) * p.z, w = cosl(a) * p.z - sinl(a) * p.x;
            X3 q{cosl(b) * u + sinl(b) * p.y, cosl(b) * p.y - sinl(b) * u, w};
            X3 r = at(j, i);
            LD e = sqrtl((q.x - r.x) * (q.x - r.x) + (q.y - r.y) * (q.y - r.y) + (q.z - r.z) * (q.z - r.z));
            LD colat = acosl(std::min(1.L, fabsl(q.z)));
            LD t = std::min(tol, 1e-13L / std::max(colat, 1e-9L) + 1e-14L);
            CHECK(e <= t, "node (%d,%d) is at (%.17g,%.17g), %Lg away from the rotated position", j, i, lat, lon, e);
        }
    // it is a rotation: angles and orientation between nodes are kept
    for (int t = 0; t < 4; ++t) {
        int j[3], i[3];
        for (int k = 0; k < 3; ++k) { j[k] = c.range(0, d[0] - 1); i[k] = c.range(0, d[1] - 1); }
        LD d1 = dot(at(j[0], i[0]), at(j[1], i[1])), d0 = dot(orig(j[0], i[0]), orig(j[1], i[1]));
        CHECK(fabsl(d1 - d0) <= 2 * tol, "nodes (%d,%d) and (%d,%d): the cosine of their angle is %Lg, was %Lg", j[0], i[0], j[1], i[1], d1, d0);
        LD v1 = det(at(j[0], i[0]), at(j[1], i[1]), at(j[2], i[2])), v0 = det(orig(j[0], i[0]), orig(j[1], i[1]), orig(j[2], i[2]));
        CHECK(fabsl(v1 - v0) <= 4 * tol, "orientation of three nodes changes, %Lg to %Lg", v0, v1);
    }
    c.nontrivial = d[0] > 2 && d[1] > 2 && (dlat != 0 || dlon != 0);
    c.label(dlat == 0 && dlon == 0, "no displacement");
}

void matrices(pbt::Case& c) {
    double a[9], b[9], v[3], r[9], w[3];
    for (double& x : a) x = c.nice(3);
    for (double& x : b) x = c.nice(3);
    for (double& x : v) x = c.nice(3);
    c.note("3x3 products");
    for (double& x : r) x = 1e9;
    for (double& x : w) x = 1e9;
    matrixDotMatrix(a, b, r);
    matrixDotVector(a, v, w);
    for (int i = 0; i < 3; ++i) {
        LD s = 0;
        for (int k = 0; k < 3; ++k) s += (LD) a[3 * i + k] * v[k];
        CHECK(fabsl(s - w[i]) <= 1e-14L, "matrix times vector, row %d: %.17g, should be %.17Lg", i, w[i], s);
        for (int j = 0; j < 3; ++j) {
            s = 0;
            for (int k = 0; k < 3; ++k) s += (LD) a[3 * i + k] * b[3 * k + j];
            CHECK(fabsl(s - r[3 * i + j]) <= 1e-14L, "matrix product (%d,%d): %.17g, should be %.17Lg", i, j, r[3 * i + j], s);
        }
    }
    c.nontrivial = true;
}

void regressionCentre() {
    int d[] = {3, 5};
    double ctr[] = {10, -20};
    Coords g(15);
    createPolarGrid(d, ctr, 2, g.p);
    CHECK(g.p[0][0] == 10 && g.p[1][0] == -20, "the first node is (%g,%g)", g.p[0][0], g.p[1][0]);
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C15";
    p.rule = "rectangular, polar and rotated pole grids of 2-400 nodes per axis, any corner/centre/radius/displacement; every node is "
             "compared with the closed form in extended precision, the rotated pole grid also through invariants of rotations; 3x3 "
             "products. Non-trivial: more than two nodes per axis and a displaced pole";
    p.subs = {{"rectangular", 2, rectangular}, {"polar", 2, polar}, {"rotated", 3, rotated}, {"matrices", 1, matrices}};
    p.regressions = {{"centre", regressionCentre}};
    return p;
}
