// C14: octree classification of points
#include "pbt.h"
#include "SgOctreePoints.h"

namespace {
typedef long double LD;
typedef std::vector<size_t> Key;

// the key attached to a point, where the tree exposes it
template <class T> auto attached(const T& o, size_t k, const Key*& key, int) -> decltype(o.node2Key.find(k)->second, void()) {
    auto it = o.node2Key.find(k);
    CHECK(it != o.node2Key.end(), "no key is attached to point %zu", k);
    key = &it->second;
}
template <class T> void attached(const T&, size_t, const Key*&, long) {}

void octree(pbt::Case& c) {
    size_t nd = c.pick({6, 8, 6, 1, 1}) + 1, nlev;
    const int deepest[] = {11, 6, 4, 3, 2}, usual[] = {6, 4, 2, 2, 1};
    nlev = c.range(1, c.chance(1, 4) ? deepest[nd - 1] : usual[nd - 1]);
    int np = c.chance(1, 25) ? c.range(2, 1000) : c.range(2, 40);
    if (c.chance(1, 60)) {
        nd = c.range(6, 9);
        nlev = c.range(1, nd > 7 ? 1 : 2);
    }
    // many points, that come from one choice
    bool crowd = c.chance(1, 3000);
    uint64_t state = 0;
    if (crowd) {
        nd = c.range(1, 3);
        nlev = c.range(1, 3);
        np = c.range(66000, 140000);
        state = (uint64_t) c.range(0, 1 << 30) << 20;
    }
    auto random = [&] { return pbt::mix(state++); };
    // exact: the points have coordinates that are multiples of a power of 2, and so have the boxes
    bool exact = c.chance(1, 2);
    int den = c.chance(1, 2) ? 64 : 1 << 13;
    std::vector<double> lo(nd), hi(nd), pts;
    int power = exact && c.chance(1, 3) ? c.range(-40, 40) : 0;
    for (size_t j = 0; j < nd; ++j) {
        if (exact) {
            lo[j] = std::ldexp(c.range(-8, 8), power);
            hi[j] = lo[j] + std::ldexp(1 << c.range(0, 4), power);
        } else {
            double s = c.oneof<double>({1, 1e-3, 360, 1e5, 1e-7, 1e9});
            lo[j] = s * c.nice(2);
            hi[j] = lo[j] + s * c.real(0.01, 3);
        }
    }
    for (int k = 0; k < np; ++k)
        for (size_t j = 0; j < nd; ++j) {
            double t;
            if (crowd) {
                uint64_t r = random();
                t = exact ? (r % (den + 1)) / (double) den : (r >> 11) * 0x1p-53;
            } else
                t = exact ? c.range(0, den) / (double) den : c.unit();
            if (k == 0) t = 0;
            if (k == 1) t = 1;
            if (k > 1 && !crowd && c.chance(1, 12)) t = c.range(0, 1);
            pts.push_back(t == 1 ? hi[j] : lo[j] + t * (hi[j] - lo[j]));
        }
    // the corner values may come from any point
    for (size_t j = 0; j < nd; ++j) {
        int a = c.range(0, np - 1);
        std::swap(pts[a * nd + j], pts[0 * nd + j]);
        int b = c.range(0, np - 1);
        std::swap(pts[b * nd + j], pts[1 * nd + j]);
    }
    if (c.verbose) {
        c.note("%zu levels, %zu dimensions, %d points", nlev, nd, np);
        for (int k = 0; k < std::min(np, 1000); ++k) {
            c.note(" (");
            for (size_t j = 0; j < nd; ++j) c.note("%s%.17g", j ? "," : "", pts[k * nd + j]);
            c.note(")");
        }
    }
    std::vector<double> copy = pts;
    SgOctreePoints_type* o = nullptr;
    SgOctreePoints_new(&o, (int) nlev, (int) nd, np, copy.data());
    CHECK(copy == pts, "the points were modified");
    for (auto& v : copy) v = 1e30;

    const Key root;
    for (size_t j = 0; j < nd; ++j) {
        double l = INFINITY, h = -INFINITY;
        for (int k = 0; k < np; ++k) {
            l = std::min(l, pts[k * nd + j]);
            h = std::max(h, pts[k * nd + j]);
        }
        lo[j] = l;
        hi[j] = h;
        CHECK(o->getLo(root)[j] == l && o->getHi(root)[j] == h, "axis %zu: the domain is %.17g..%.17g, should be %.17g..%.17g", j,
              o->getLo(root)[j], o->getHi(root)[j], l, h);
    }
    int outside = 0;
    auto look = [&](const std::vector<double>& p, bool in) {
        size_t n = 1u << nd;
        Key prev;
        for (size_t lev = 0; lev <= nlev; ++lev) {
            Key k = o->getKey(p.data(), lev);
            CHECK(k.size() == lev, "key of %zu levels has size %zu", lev, k.size());
            for (size_t q : k) CHECK(q < n, "quadrant %zu", q);
            CHECK(std::equal(prev.begin(), prev.end(), k.begin()), "the key of level %zu does not extend that of level %zu", lev, lev - 1);
            std::vector<double> l = o->getLo(k), h = o->getHi(k);
            for (size_t j = 0; j < nd; ++j) {
                LD len = (LD) hi[j] - lo[j], want = len / (1 << lev), tol = exact ? 0 : 1e-14L * (len + std::fabs(lo[j]));
                CHECK(fabsl((LD) h[j] - l[j] - want) <= 4 * tol, "axis %zu level %zu: size %.17Lg, should be %.17Lg", j, lev, (LD) h[j] - l[j], want);
                CHECK(l[j] >= lo[j] - tol && h[j] <= hi[j] + tol, "axis %zu level %zu: the box is not in the domain", j, lev);
                double q = std::max(lo[j], std::min(hi[j], p[j]));
                CHECK(q >= l[j] - 4 * tol && q <= h[j] + 4 * tol, "axis %zu level %zu: the box %.17g..%.17g does not hold the point %.17g", j, lev, l[j], h[j],
                      p[j]);
                if (exact && in) CHECK(q < h[j] || h[j] == hi[j], "axis %zu level %zu: point %.17g on the high side %.17g of its box", j, lev, q, h[j]);
                if (lev > 0) {
                    std::vector<double> pl = o->getLo(prev), ph = o->getHi(prev);
                    CHECK(l[j] >= pl[j] - tol && h[j] <= ph[j] + tol, "axis %zu level %zu: the box is not in that of the previous level", j, lev);
                }
            }
            prev = k;
        }
    };
    for (int k = 0; k < np; crowd ? k += 1 + random() % 1000 : ++k) {
        look(std::vector<double>(&pts[k * nd], &pts[k * nd] + nd), true);
        const Key* key = nullptr;
        attached(*o, (size_t) k, key, 0);
        if (key) CHECK(*key == o->getKey(&pts[k * nd], nlev), "the key attached to point %d is not that of its position", k);
    }
    int extra = c.range(0, 4);
    for (int k = 0; k < extra; ++k) {
        std::vector<double> p(nd);
        bool in = true;
        for (size_t j = 0; j < nd; ++j) {
            double t = exact ? c.range(-den / 2, den + den / 2) / (double) den : c.real(-0.5, 1.5);
            p[j] = lo[j] + t * (hi[j] - lo[j]);
            in &= p[j] >= lo[j] && p[j] <= hi[j];
        }
        outside += !in;
        look(p, in);
    }
    // one digit per level, whatever the number of levels that are asked for
    {
        int deep = c.chance(1, 2) ? c.range(1, 24) : c.range(25, 50), bits = deep > 24 && c.chance(1, 2) ? 45 : 20;
        std::vector<double> p(nd);
        std::vector<long> frac(nd);
        for (size_t j = 0; j < nd; ++j) {
            frac[j] = exact ? c.range(0, 1 << 20) : 0;
            if (exact && bits > 20) frac[j] = frac[j] * (1L << 25) + (frac[j] < 1 << 20 ? c.range(0, (1 << 25) - 1) : 0);
            double t = exact ? std::ldexp(frac[j], -bits) : c.unit();
            p[j] = lo[j] + t * (hi[j] - lo[j]);
        }
        Key k = o->getKey(p.data(), (size_t) deep);
        CHECK((int) k.size() == deep, "key of %d levels has size %zu", deep, k.size());
        for (size_t j = 0; j < nd; ++j) {
            LD pos = 0;
            for (int e = 0; e < deep; ++e) {
                CHECK(k[e] < (1u << nd), "quadrant %zu", k[e]);
                pos += ((k[e] >> (nd - 1 - j)) & 1) * ldexpl(1, -e - 1);
            }
            LD w = ldexpl(1, -deep), t = ((LD) p[j] - lo[j]) / ((LD) hi[j] - lo[j]);
            LD tol = exact && hi[j] - lo[j] > 0 ? 0 : 1e-15L * (4 + fabsl(lo[j]) / ((LD) hi[j] - lo[j]));
            CHECK(t >= pos - tol && t <= pos + w + tol && (tol > 0 || t < pos + w || t == 1), "axis %zu: the digits of %d levels say %.12Lg..%.12Lg of the domain, the point is at %.12Lg", j,
                  deep, pos, pos + w, t);
        }
    }
    // the boxes of one level tile the domain
    size_t lev = c.range(1, (int) nlev), n = 1u << nd, tot = 1;
    for (size_t i = 0; i < lev; ++i) tot *= n;
    std::set<std::vector<long>> seen;
    for (size_t m = 0; m < tot; ++m) {
        Key k(lev);
        size_t r = m;
        for (size_t i = 0; i < lev; ++i) { k[i] = r % n; r /= n; }
        const std::vector<double>&l = o->getLo(k), &h = o->getHi(k);
        std::vector<long> cell;
        std::vector<double> mid(nd);
        for (size_t j = 0; j < nd; ++j) {
            LD w = ((LD) hi[j] - lo[j]) / (1 << lev), pos = (l[j] - (LD) lo[j]) / w;
            long i = lroundl(pos);
            CHECK(fabsl(pos - i) <= 1e-9L * (1 + fabsl(lo[j]) / w) && i >= 0 && i < (1 << lev), "level %zu axis %zu: low side at %Lg boxes", lev, j, pos);
            cell.push_back(i);
            mid[j] = 0.5 * (l[j] + h[j]);
        }
        CHECK(seen.insert(cell).second, "level %zu: two boxes at the same place", lev);
        CHECK(o->getKey(mid.data(), lev) == k, "level %zu: the key of the middle of a box is not that of the box", lev);
    }
    SgOctreePoints_del(&o);
    c.nontrivial = np > 2 && nlev > 1;
    c.label(exact, "exact arithmetic");
    c.label(outside > 0, "points outside the domain");
    c.label(crowd, "tens of thousands of points");
    c.label(np > 40, "more than 40 points");
    c.label(pbt::fmt("%zuD", nd));
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C14";
    p.rule = "2-1000, or rarely up to 140000, points in 1-5 dimensions, 1-11 levels in 1D, 6 in 2D, 4 in 3D, 3 in 4D and 2 in 5D, now and then 6-9 dimensions with few levels, dyadic coordinates (compared exactly) or real ones at several scales; the keys and "
             "boxes of all levels for these points and for others in or out of the domain, all boxes of one level. Non-trivial: more than "
             "two points and more than one level";
    p.subs = {{"octree", 1, octree}};
    return p;
}
