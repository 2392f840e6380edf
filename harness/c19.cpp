// C19: an object that has been used before gives what a new one gives, objects do not influence each other, and the
// arrays of the caller are copied (where they need not outlive the call) and never modified
#include "classes.h"

namespace {

// a history over a few objects of one class
template <class T> void history(pbt::Case& c) {
    struct Slot {
        std::unique_ptr<T> o;
        typename T::Cfg k;
        int looked = 0, changed = 0;
    };
    int n = c.range(1, 3), reused = 0;
    std::vector<Slot> s(n);
    int steps = c.range(1, 7);
    bool interleaved = false;
    int last = -1;
    for (int st = 0; st < steps; ++st) {
        int i = c.range(0, n - 1);
        Slot& x = s[i];
        bool scr = c.chance(1, 2);
        if (!x.o || c.chance(1, 10)) {
            x.k = T::cfg(c);
            x.o.reset(new T(x.k));
            int order = c.range(0, 2);
            if (order == 0) x.o->set(x.k, 2, scr);
            else {
                x.o->set(x.k, order == 1 ? 0 : 1, scr);
                x.o->set(x.k, order == 1 ? 1 : 0, scr);
            }
            x.looked = x.changed = 0;
            c.note("| object %d: new, %s ", i, T::str(x.k).c_str());
        } else {
            int part = c.range(0, 3);
            if (part < 3) {
                T::change(c, x.k, part);
                x.o->set(x.k, part, scr);
                x.changed++;
                c.note("| object %d: change part %d, %s ", i, part, T::str(x.k).c_str());
            } else
                c.note("| object %d: once more ", i);
        }
        if (c.chance(1, 5)) continue; // changed again before it is used
        if (last >= 0 && last != i) interleaved = true;
        last = i;
        int how = c.range(0, 2);
        Seen got = x.o->look(x.k, how);
        T fresh(x.k);
        fresh.set(x.k, 2, false);
        Seen want = fresh.look(x.k, 0);
        got.sameAs(want, pbt::fmt("step %d, object %d", st, i).c_str());
        if (x.looked) reused++;
        x.looked++;
    }
    c.nontrivial = reused > 0;
    c.label(interleaved, "several objects in turn");
    c.label(reused > 1, "used three times or more");
}

void regressionReuse() {
    // the intersection with one quad must not leave points behind for the next
    D a = {0, 0, 1, 0, 1, 1, 0, 1}, b = {0.5, 0.5, 2, 0.5, 2, 2, 0.5, 2}, far = {10, 10, 11, 10, 11, 11, 10, 11};
    SgQuadIntersect_type* o = nullptr;
    SgQuadIntersect_new(&o);
    int n = -1;
    double* p = nullptr;
    SgQuadIntersect_setQuadPoints(&o, a.data(), b.data());
    SgQuadIntersect_getIntersectPoints(&o, &n, &p);
    int first = n;
    SgQuadIntersect_setQuadPoints(&o, a.data(), far.data());
    SgQuadIntersect_getIntersectPoints(&o, &n, &p);
    int second = n;
    SgQuadIntersect_setQuadPoints(&o, a.data(), b.data());
    SgQuadIntersect_getIntersectPoints(&o, &n, &p);
    int third = n;
    SgQuadIntersect_del(&o);
    CHECK(first >= 4 && second == 0 && third == first, "%d, %d, %d points", first, second, third);
}

void regressionFinder() {
    // another grid, not periodic and somewhere else
    SgFindPointInCell_type* o = nullptr;
    SgFindPointInCell_new(&o, 20, 1e-10);
    const int dims[] = {3, 3}, p1[] = {1, 1}, p0[] = {0, 0};
    D x, y, x2, y2;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) { x.push_back(i); y.push_back(j); x2.push_back(10 + i); y2.push_back(j); }
    const double *c1[] = {x.data(), y.data()}, *c2[] = {x2.data(), y2.data()};
    double start[] = {0.5, 0.5}, t1[] = {1.5, 1.5}, t2[] = {11.5, 1.5};
    SgFindPointInCell_setGrid(&o, 2, dims, p1, c1);
    SgFindPointInCell_reset(&o, start, t1);
    while (SgFindPointInCell_next(&o) == 0) {}
    SgFindPointInCell_setGrid(&o, 2, dims, p0, c2);
    SgFindPointInCell_reset(&o, start, t1);
    int code = SgFindPointInCell_next(&o);
    SgFindPointInCell_reset(&o, start, t2);
    int code2 = 0;
    while (code2 == 0) code2 = SgFindPointInCell_next(&o);
    SgFindPointInCell_del(&o);
    CHECK(code == -3 && code2 == 1, "codes %d and %d", code, code2);
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C19";
    p.rule = "histories of 1-7 steps over 1-3 objects of one class (twelve classes): create, change a part of the inputs (scrambling the "
             "caller's arrays after the call), use once or repeatedly, leave searches and iterations unfinished; each use is compared "
             "with a new object set up with the same inputs. Non-trivial: an object is used again after a change";
    p.subs = {{"conserve", 3, history<Conserve>}, {"node", 3, history<Node>},         {"flow", 3, history<Flow>},
              {"find", 3, history<Find>},         {"cells", 3, history<Cells>},       {"quadQuad", 3, history<QuadQuad>},
              {"quadLine", 2, history<QuadLine>}, {"quadFlow", 2, history<QuadFlow>}, {"linear", 2, history<Linear>},
              {"hull", 1, history<Hull>},         {"tree", 1, history<Tree>},         {"box", 1, history<Box>}};
    p.regressions = {{"reuse", regressionReuse}, {"finder", regressionFinder}};
    return p;
}
