// C16: tripolar grid
#include "pbt.h"
#include "SgTripolarGrid.h"

namespace {
typedef long double LD;
const LD PI = 3.14159265358979323846264338327950288L;

struct X3 {
    LD x, y, z;
};
X3 sphere(LD latDeg, LD lonDeg) {
    LD a = latDeg * PI / 180, b = lonDeg * PI / 180;
    return X3{cosl(a) * cosl(b), cosl(a) * sinl(b), sinl(a)};
}
LD gap(const X3& a, const X3& b) { return sqrtl((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)); }

// position on the cap: the pole of the bipolar coordinates is on the perimeter at longitudes 0 and 180
X3 capPoint(LD pc, LD elc, LD perim) {
    LD chi = acosl(std::max(-1.L, std::min(1.L, cosl(elc) * cosl(pc))));
    LD lat = PI / 2 - 2 * atanl(tanl(perim / 2) * tanl(chi / 2));
    LD lon = -atan2l(sinl(elc), tanl(pc));
    return sphere(lat * 180 / PI, lon * 180 / PI);
}

void tripolar(pbt::Case& c) {
    int dims[2] = {c.range(4, 24), c.range(4, 40)};
    // the round off in the middle column depends on the number of longitudes
    if (c.chance(1, 3)) dims[1] = c.chance(1, 4) ? c.range(4, 2000) : c.range(4, 400);
    if (c.chance(1, 12)) dims[0] = c.range(4, 150);
    int cap = c.range(1, dims[0] - 2);
    if (c.chance(1, 3)) cap = std::max(1, std::min(dims[0] - 2, dims[0] / 2 + c.range(0, dims[0] / 3)));
    int nlat = dims[0], nlon = dims[1];
    c.note("tripolar grid %d latitudes %d longitudes, cap at %d", nlat, nlon, cap);
    SgTripolarGrid_type* o = nullptr;
    SgTripolarGrid_new(&o, dims, cap);
    int out[2] = {-1, -1};
    double** p = nullptr;
    SgTripolarGrid_getGrid(&o, out, &p);
    CHECK(out[0] == nlon && out[1] == nlat, "dimensions %d %d", out[0], out[1]);
    std::vector<double> lat(p[0], p[0] + nlat * nlon), lon(p[1], p[1] + nlat * nlon);
    if (c.chance(1, 4)) {
        SgTripolarGrid_getGrid(&o, out, &p);
        CHECK(out[0] == nlon && out[1] == nlat, "dimensions %d %d the second time", out[0], out[1]);
        CHECK(std::equal(lat.begin(), lat.end(), p[0]) && std::equal(lon.begin(), lon.end(), p[1]), "another grid the second time");
    }
    SgTripolarGrid_del(&o);
    LD capLat = -90 + 180.L * cap / (nlat - 1);
    LD perim = PI - cap * PI / (nlat - 1);
    auto at = [&](int j, int i) { return sphere(lat[j * nlon + i], lon[j * nlon + i]); };
    for (int j = 0; j < nlat; ++j)
        for (int i = 0; i < nlon; ++i) {
            double a = lat[j * nlon + i], b = lon[j * nlon + i];
            CHECK(std::isfinite(a) && std::isfinite(b), "node (%d,%d): %g %g", j, i, a, b);
            CHECK(a >= -90 - 1e-9 && a <= 90 + 1e-9 && b >= -180 - 1e-9 && b <= 180 + 1e-9, "node (%d,%d): %.17g %.17g", j, i, a, b);
            if (j <= cap) {
                // regular up to the perimeter of the cap
                LD wa = -90 + 180.L * j / (nlat - 1), wb = -180 + 360.L * i / (nlon - 1);
                CHECK(fabsl(a - wa) <= 1e-6L, "node (%d,%d): latitude %.12g, should be %.12Lg", j, i, a, wa);
                LD e = gap(sphere(wa, b), sphere(wa, wb));
                CHECK(j == 0 || e <= 1e-6L, "node (%d,%d): longitude %.12g, should be %.12Lg", j, i, b, wb);
                if (j < cap) CHECK(fabsl(a - wa) <= 1e-11L && fabsl(b - wb) <= 1e-11L, "node (%d,%d): %.17g %.17g, should be %.17Lg %.17Lg", j, i, a, b, wa, wb);
            } else {
                CHECK(a >= capLat - 1e-6L, "node (%d,%d) of the cap is at %.12g, south of its perimeter %.12Lg", j, i, a, capLat);
                // where the bipolar coordinates put it
                bool west = i < nlon / 2;
                LD di = 2 * PI / (nlon - 1), dj = PI / 2 / (nlat - cap - 1);
                LD pc = -PI / 2 + (west ? i : nlon - 1 - i) * di;
                LD elc = (west ? 1 : -1) * (PI / 2 - (j - cap) * dj);
                // the first and last columns and the middle one collapse to the two poles on the perimeter
                bool edge = std::min(i, nlon - 1 - i) == 0, middle = 2 * i == nlon - 1;
                X3 w = edge ? sphere(capLat, 180) : middle ? sphere(capLat, 0) : capPoint(pc, elc, perim), g = at(j, i);
                LD e = gap(w, g);
                // the sign of a vanishing coordinate decides on which side the nodes of the fold fall
                if (j == nlat - 1) e = std::min(e, gap(X3{w.x, -w.y, w.z}, g));
                CHECK(e <= 2e-6L, "node (%d,%d) is at (%.12g,%.12g), %Lg from the bipolar position", j, i, a, b, e);
                // the two sides of the fold are told apart by the sign of the longitude: the eastern half stays in the east
                CHECK(west || b >= -1e-9, "node (%d,%d) of the eastern half of the cap has longitude %.12g", j, i, b);
                CHECK(!west || j == nlat - 1 || b <= 1e-9, "node (%d,%d) of the western half of the cap has longitude %.12g", j, i, b);
            }
        }
    for (int j = 0; j < nlat; ++j) {
        CHECK(gap(at(j, 0), at(j, nlon - 1)) <= 1e-6L, "row %d does not close: (%.12g,%.12g) and (%.12g,%.12g)", j, lat[j * nlon], lon[j * nlon],
              lat[j * nlon + nlon - 1], lon[j * nlon + nlon - 1]);
        for (int i = 0; i < nlon; ++i) {
            X3 m = at(j, nlon - 1 - i);
            CHECK(gap(at(j, i), X3{m.x, -m.y, m.z}) <= 1e-6L, "row %d: nodes %d and %d are not mirror images", j, i, nlon - 1 - i);
        }
    }
    // the last row is folded
    for (int i = 0; i < nlon; ++i)
        CHECK(gap(at(nlat - 1, i), at(nlat - 1, nlon - 1 - i)) <= 1e-6L, "the last row does not fold at node %d", i);
    c.nontrivial = nlat - cap > 2;
    c.label(nlon % 2 ? "odd" : "even");
    c.label(nlat - cap > 4, "wide cap");
    c.label(nlon > 40, "many longitudes");
    c.label(capLat < 0, "perimeter in the southern hemisphere");
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C16";
    p.rule = "4-24 latitudes (sometimes 150), 4-40 longitudes (sometimes 2000), any cap index; every node is compared with the regular grid or the bipolar coordinates in "
             "extended precision, and the closure, mirror symmetry and fold are checked on the sphere. Non-trivial: the cap has at least "
             "two rows above its perimeter";
    p.subs = {{"tripolar", 1, tripolar}};
    return p;
}
