// C12: box iterator and side iterator
#include "pbt.h"
#include "SgBoxIterator.h"
#include "SgSideIterator.h"

namespace {

void box(pbt::Case& c) {
    int nd = c.pick({1, 3, 3, 1, 1}) + 1;
    if (c.chance(1, 12)) nd = c.range(6, 12);
    std::vector<int> beg(nd), end(nd), n(nd);
    int64_t tot = 1;
    for (int i = 0; i < nd; ++i) {
        beg[i] = c.chance(1, 3) ? c.range(-50, 50) : 0;
        n[i] = c.range(1, nd <= 2 ? 12 : nd <= 5 ? 5 : 2);
        if (c.chance(1, 40)) n[i] = 0;
        if (nd <= 2 && c.chance(1, 20)) n[i] = c.range(13, 200);
        end[i] = beg[i] + n[i];
        tot *= n[i];
    }
    if (c.verbose) {
        c.note("box");
        for (int i = 0; i < nd; ++i) c.note(" [%d,%d)", beg[i], end[i]);
    }
    SgBoxIterator_type* o = nullptr;
    std::vector<int> b2 = beg, e2 = end;
    SgBoxIterator_new(&o, nd, b2.data(), e2.data());
    CHECK(b2 == beg && e2 == end, "the constructor modified its arguments");
    // the box is not affected by changes of the caller's arrays
    std::fill(b2.begin(), b2.end(), 1234567);
    std::fill(e2.begin(), e2.end(), -7);
    int num = -1;
    SgBoxIterator_getNumberOfElements(&o, &num);
    CHECK(num == tot, "%d elements, should be %lld", num, (long long) tot);
    // odometer, the last index varies fastest
    std::vector<int> cur = beg, got(nd);
    int stride = tot > 400 ? c.range(1, 17) : 1; // visit in any order
    for (int k = 0; k < num; ++k) {
        SgBoxIterator_getElement(&o, k, got.data());
        CHECK(got == cur, "element %d: axis values differ, first %d should be %d, last %d should be %d", k, got[0], cur[0], got[nd - 1], cur[nd - 1]);
        int idx = -1;
        if (k % stride == 0) {
            SgBoxIterator_getIndex(&o, got.data(), &idx);
            CHECK(idx == k, "index of element %d is %d", k, idx);
        }
        for (int i = nd - 1; i >= 0; --i) {
            if (++cur[i] < end[i]) break;
            cur[i] = beg[i];
        }
    }
    for (int t = 0; t < 3 && num > 0; ++t) {
        int k = c.range(0, num - 1), idx;
        SgBoxIterator_getElement(&o, k, got.data());
        SgBoxIterator_getIndex(&o, got.data(), &idx);
        CHECK(idx == k, "element %d -> index %d", k, idx);
        for (int i = 0; i < nd; ++i) CHECK(got[i] >= beg[i] && got[i] < end[i], "element %d is not in the box", k);
    }
    SgBoxIterator_del(&o);
    c.nontrivial = tot > 1 && nd > 1;
    c.label(tot == 0, "empty box");
    c.label(pbt::fmt("%dD box", nd));
}

// boxes with up to 2^31 - 1 elements, only some of which are visited
void huge(pbt::Case& c) {
    int nd = c.range(1, 8);
    const int64_t most = 2147483647;
    std::vector<int> beg(nd), end(nd), n(nd, 1);
    int64_t tot = 1;
    // the axes in any order, each takes a share of what is left
    std::vector<int> order(nd);
    for (int i = 0; i < nd; ++i) order[i] = i;
    for (int i = nd - 1; i > 0; --i) std::swap(order[i], order[c.range(0, i)]);
    for (int i = 0; i < nd; ++i) {
        int64_t left = most / tot;
        double share = i + 1 == nd ? c.real(0.5, 1) : c.real(0, 1);
        n[order[i]] = (int) std::max<int64_t>(1, std::min<int64_t>(left, std::llround(std::pow((double) left, share))));
        tot *= n[order[i]];
    }
    for (int i = 0; i < nd; ++i) {
        int room = most - n[i]; // the end is an int
        beg[i] = c.pick({2, 1, 1}) == 0 ? 0 : c.range(-1000000, std::min(1000000, room));
        end[i] = beg[i] + n[i];
    }
    if (c.verbose) {
        c.note("box");
        for (int i = 0; i < nd; ++i) c.note(" [%d,%d)", beg[i], end[i]);
    }
    SgBoxIterator_type* o = nullptr;
    SgBoxIterator_new(&o, nd, beg.data(), end.data());
    int num = -1, idx;
    SgBoxIterator_getNumberOfElements(&o, &num);
    CHECK(num == tot, "%d elements, should be %lld", num, (long long) tot);
    std::vector<int> got(nd), want(nd);
    for (int t = 0; t < 8; ++t) {
        int k = t == 0 ? num - 1 : t == 1 ? 0 : c.range(0, num - 1);
        int64_t r = k;
        for (int i = nd - 1; i >= 0; --i) {
            want[i] = (int) (beg[i] + r % n[i]);
            r /= n[i];
        }
        SgBoxIterator_getElement(&o, k, got.data());
        CHECK(got == want, "element %d: first %d should be %d, last %d should be %d", k, got[0], want[0], got[nd - 1], want[nd - 1]);
        SgBoxIterator_getIndex(&o, want.data(), &idx);
        CHECK(idx == k, "index of element %d is %d", k, idx);
    }
    SgBoxIterator_del(&o);
    c.nontrivial = tot > 1000 && nd > 1;
    c.label(tot > 1 << 30, "more than 2^30 elements");
}

void side(pbt::Case& c) {
    size_t nd = c.range(1, c.chance(1, 50) ? 9 : 6);
    SgSideIterator_type it(nd);
    size_t n = 1;
    for (size_t i = 0; i < nd; ++i) n *= 3;
    c.note("sides in %zu dimensions", nd);
    CHECK(it.getNumberOfElements() == n, "%zu sides, should be %zu", it.getNumberOfElements(), n);
    int rounds = c.range(1, 3);
    for (int r = 0; r < rounds; ++r) {
        if (r > 0 || c.chance(1, 2)) it.reset();
        bool whole = r + 1 == rounds || c.chance(1, 2);
        size_t upto = whole ? n : (size_t) c.range(1, (int) n);
        std::set<std::vector<int>> seen;
        for (size_t k = 0; k < upto; ++k) {
            std::vector<int> s = it.get();
            CHECK(s == it.get(), "get is not repeatable");
            CHECK(s.size() == nd, "%zu components", s.size());
            size_t code = 0;
            for (int v : s) {
                CHECK(v >= -1 && v <= 1, "component %d", v);
                code = code * 3 + (v + 1);
            }
            CHECK(code == k, "side %zu comes at position %zu", code, k);
            CHECK(seen.insert(s).second, "side %zu comes twice", k);
            int stop = it.next();
            CHECK(stop == (k + 1 == n), "next returns %d after side %zu of %zu", stop, k, n);
        }
    }
    c.nontrivial = nd > 1;
    c.label(rounds > 1, "reset");
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C12";
    p.rule = "boxes in 1-12 dimensions with any begin (also negative) and size (also empty), every element visited; boxes of up to 2^31-1 elements in 1-8 "
             "dimensions, some elements visited; sides in 1-9 dimensions, "
             "with partial rounds and resets. Non-trivial: at least two dimensions and two elements";
    p.subs = {{"box", 4, box}, {"huge", 1, huge}, {"side", 1, side}};
    return p;
}
