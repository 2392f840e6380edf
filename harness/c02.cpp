// C02: the weights that are listed, and those that are applied, are the same linear map
#include "geom.h"
#include "SgConserveInterp2D.h"
using namespace geom;

namespace {

typedef std::vector<std::pair<std::pair<int, int>, double>> List;

List enumerate(SgConserveInterp2D_type** o, long limit, bool getTwice) {
    List r;
    SgConserveInterp2D_reset(o);
    int end = 0;
    long n = 0;
    while (!end) {
        int s = -7, d = -7;
        double w = -7;
        SgConserveInterp2D_get(o, &s, &d, &w);
        if (getTwice) {
            int s2 = -8, d2 = -8;
            double w2 = -8;
            SgConserveInterp2D_get(o, &s2, &d2, &w2);
            CHECK(s == s2 && d == d2 && w == w2, "get has side effects");
        }
        r.push_back({{s, d}, w});
        end = SgConserveInterp2D_next(o);
        CHECK(++n <= limit, "the iteration does not end after %ld weights", n);
    }
    return r;
}

void checkPair(pbt::Case& c, GridPair g);

void apply(pbt::Case& c) { checkPair(c, gridPair(c, 7, true)); }

// more cells than 16 bits can count
void large(pbt::Case& c) { checkPair(c, largePair(c)); }

void checkPair(pbt::Case& c, GridPair g) {
    if (c.chance(1, 8)) {
        // no overlap at all
        double far = 5 * (g.src.maxAbs() + g.dst.maxAbs());
        for (auto& v : g.dst.x) v += far;
        g.relation += " disjoint";
    }
    c.note("relation %s\nsrc %s\ndst %s", g.relation.c_str(), g.src.str().c_str(), g.dst.str().c_str());
    int nsrc = g.src.numCells(), ndst = g.dst.numCells();
    SgConserveInterp2D_type* o = nullptr;
    SgConserveInterp2D_new(&o);
    const int per[] = {0, 0};
    if (c.chance(1, 2)) {
        SgConserveInterp2D_setSrcGrid(&o, g.src.dims, per, (const double**) g.src.c);
        SgConserveInterp2D_setDstGrid(&o, g.dst.dims, (const double**) g.dst.c);
    } else {
        SgConserveInterp2D_setDstGrid(&o, g.dst.dims, (const double**) g.dst.c);
        SgConserveInterp2D_setSrcGrid(&o, g.src.dims, per, (const double**) g.src.c);
    }
    SgConserveInterp2D_computeWeights(&o);

    long limit = (long) nsrc * ndst + 2;
    List l;
    std::string failure;
    l = enumerate(&o, limit, true);
    bool none = l.size() == 1 && l[0].first.first < 0;
    if (none) {
        CHECK(l[0].first.second < 0 && l[0].second == 0, "entry of an empty set: %d %d %g", l[0].first.first,
              l[0].first.second, l[0].second);
        l.clear();
    }
    std::set<std::pair<int, int>> seen;
    std::set<int> covered;
    for (auto& e : l) {
        CHECK(e.first.first >= 0 && e.first.first < nsrc, "src index %d", e.first.first);
        CHECK(e.first.second >= 0 && e.first.second < ndst, "dst index %d", e.first.second);
        CHECK(seen.insert(e.first).second, "pair (%d, %d) listed twice", e.first.first, e.first.second);
        CHECK(std::isfinite(e.second), "weight of (%d, %d) is %g", e.first.first, e.first.second, e.second);
        covered.insert(e.first.second);
    }
    // what must be there
    int need = 0;
    for (int d = 0; d < ndst; ++d)
        for (int s = 0; s < nsrc; ++s) {
            Poly a = g.dst.quad(d), b = g.src.quad(s);
            if (!boxesApart(a, b) && overlapArea(a, b) > 1e-4L * std::min(std::abs(signedArea(a)), std::abs(signedArea(b)))) {
                need++;
                CHECK(seen.count({s, d}), "overlapping cells src %d dst %d are not listed", s, d);
            }
        }
    // going through the weights again, in whole or in part, with and without reset
    int partial = c.range(0, 5);
    SgConserveInterp2D_reset(&o);
    for (int k = 0; k < partial && k < (int) l.size(); ++k) SgConserveInterp2D_next(&o);
    List l2 = enumerate(&o, limit, false);
    if (!none) CHECK(l2 == l, "the second pass differs (%zu entries, then %zu)", l.size(), l2.size());
    if (!none) {
        // the end of a pass leaves the iterator at the start
        for (int k = 0; k < 3 && k < (int) l.size(); ++k) {
            int s, d;
            double w;
            SgConserveInterp2D_get(&o, &s, &d, &w);
            CHECK(s == l[k].first.first && d == l[k].first.second && w == l[k].second,
                  "pass without reset, entry %d is (%d, %d) %g", k, s, d, w);
            int end = SgConserveInterp2D_next(&o);
            CHECK((end != 0) == (k + 1 == (int) l.size()), "end flag %d of entry %d/%zu", end, k, l.size());
        }
    }
    // apply
    int mode = c.range(0, 3);
    std::vector<double> f(nsrc), out;
    for (auto& v : f) v = mode == 0 ? 1.0 : (mode == 1 ? c.nice(10) : c.real(-1e3, 1e3));
    if (mode == 3) {
        std::fill(f.begin(), f.end(), 0.0);
        f[c.range(0, nsrc - 1)] = 1;
    }
    std::vector<double> f0 = f;
    out = applied(ndst, -12345.5, [&](double* p) { SgConserveInterp2D_apply(&o, f.data(), p); });
    CHECK(f == f0, "apply modified the source data");
    std::vector<LD> want(ndst, 0), mag(ndst, 0);
    for (auto& e : l) {
        want[e.first.second] += (LD) e.second * f[e.first.first];
        mag[e.first.second] += std::abs((LD) e.second * f[e.first.first]);
    }
    for (int d = 0; d < ndst; ++d) {
        if (covered.count(d))
            CHECK(std::abs(out[d] - want[d]) <= 1e-13L * (mag[d] + 1e-300L), "dst cell %d: apply gives %.17g, the weights %.17g", d,
                  out[d], (double) want[d]);
        else
            CHECK(out[d] == -12345.5, "dst cell %d has no weight but apply set it to %.17g", d, out[d]);
    }
    // a second time, on top of the previous values
    std::vector<double> out2 = out;
    SgConserveInterp2D_apply(&o, f.data(), out2.data());
    CHECK(out2 == out, "applying twice gives another result");
    // in another unit
    int e = someUnit(c);
    std::vector<double> fe = inUnit(f, e), oute = applied(ndst, -12345.5, [&](double* p) { SgConserveInterp2D_apply(&o, fe.data(), p); });
    for (int d = 0; d < ndst; ++d)
        if (covered.count(d)) CHECK(oute[d] == std::ldexp(out[d], e), "dst cell %d: data times 2^%d give %.17g instead of %.17g times that", d, e, oute[d], out[d]);
    // values that are missing in the source matter only where they have a weight
    std::vector<char> miss(nsrc, 0), hit(ndst, 0);
    for (int k = c.range(1, 3); k > 0; --k) {
        int s = c.range(0, nsrc - 1);
        miss[s] = 1;
        f[s] = missing(c);
    }
    for (auto& x : l)
        if (!none && miss[x.first.first]) hit[x.first.second] = 1;
    f0 = f;
    std::vector<double> outm = applied(ndst, -12345.5, [&](double* p) { SgConserveInterp2D_apply(&o, f.data(), p); });
    CHECK(same(f, f0), "apply modified the source data");
    for (int d = 0; d < ndst; ++d)
        if (!hit[d]) CHECK(outm[d] == out[d], "dst cell %d: %.17g instead of %.17g because of the data of source cells without weight", d, outm[d], out[d]);
    SgConserveInterp2D_del(&o);
    c.nontrivial = need >= 2 && (int) covered.size() >= 1 && !(mode == 0);
    c.label(none, "no weights");
    c.label((int) covered.size() < ndst, "uncovered dst cells");
    c.label(l.size() > 20, "more than 20 weights");
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C02";
    p.rule = "two grids as for C01 (disjoint at times, with tens of thousands of cells at times); the weights are listed several times, from the start and after "
             "partial passes, then applied to random, constant and unit fields, to the same fields in another unit or with missing values, on an output full of sentinels. "
             "Non-trivial: at least two overlapping pairs of cells and a non-constant field";
    p.subs = {{"apply", 2000, apply}, {"large", 1, large}};
    return p;
}
