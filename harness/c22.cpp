// C22: objects that are used in different threads at the same time do not influence each other
#include <atomic>
#include <thread>
#include "classes.h"
#include "CmdLineArgParser.h"
#include "SgLine.h"
#include "SgSideIterator.h"
#include "SgTetrahedron.h"
#include "SgTriangle.h"
#include "SgTripolarGrid.h"
#include "createGrids2D.h"

template <> double CmdLineArgParser::get<double>(const std::string&) const;
template <> int CmdLineArgParser::get<int>(const std::string&) const;
template <> std::string CmdLineArgParser::get<std::string>(const std::string&) const;
template <> bool CmdLineArgParser::get<bool>(const std::string&) const;
template <> std::vector<double> CmdLineArgParser::get<std::vector<double>>(const std::string&) const;

#if defined(__SANITIZE_THREAD__)
#include <dlfcn.h>
// LAPACK is not instrumented: use its arguments as it does, where ThreadSanitizer sees it
static void reads(const volatile int* v) { (void) *v; }
static void uses(volatile double* v, long n) {
    for (long k = 0; k < n; ++k) v[k] = v[k];
}
extern "C" void dgels_(char* t, int* m, int* n, int* nrhs, double* a, int* lda, double* b, int* ldb, double* work, int* lwork, int* info) {
    typedef void (*Real)(char*, int*, int*, int*, double*, int*, double*, int*, double*, int*, int*, size_t);
    static const Real real = (Real) dlsym(RTLD_NEXT, "dgels_");
    for (int* k : {m, n, nrhs, lda, ldb, lwork}) reads(k);
    auto all = [&] {
        if (*m > 0 && *n > 0 && *lda > 0 && *lda < 1000 && *n < 1000) uses(a, (long) *lda * *n);
        if (*ldb > 0 && *ldb < 1000 && *nrhs == 1) uses(b, *ldb);
        if (*lwork > 0 && *lwork < 100000) uses(work, *lwork);
        volatile int* i = info;
        *i = *i;
    };
    all();
    real(t, m, n, nrhs, a, lda, b, ldb, work, lwork, info, 1);
    all();
}
#endif

namespace {

// what one thread does; it may be done several times, and draws no choices
typedef std::function<std::vector<Seen>()> Task;

// an object is created, used, changed, used again and deleted
template <class T> Task object(pbt::Case& c) {
    struct Step {
        typename T::Cfg k;
        int part, how;
        bool scr;
    };
    std::vector<Step> steps;
    int n = c.range(1, 4);
    for (int i = 0; i < n; ++i) {
        Step s;
        if (i == 0) {
            s.k = T::cfg(c);
            s.part = 2;
        } else {
            s.k = steps.back().k;
            s.part = c.range(0, 2);
            T::change(c, s.k, s.part);
        }
        s.how = c.range(0, 2);
        s.scr = c.chance(1, 2);
        steps.push_back(s);
        c.note("%s %s, ", T::name(), T::str(s.k).c_str());
    }
    return [steps] {
        std::vector<Seen> seen;
        T o(steps[0].k);
        for (const Step& s : steps) {
            o.set(s.k, s.part, s.scr);
            seen.push_back(o.look(s.k, s.how));
        }
        return seen;
    };
}

Task grids(pbt::Case& c) {
    int kind = c.range(0, 3), n0 = c.range(2, 12), n1 = c.range(2, 12);
    double a = c.nice(3), b = c.nice(3), d = c.real(0.1, 4), e = c.real(0.1, 4);
    if (kind == 3) n0 = 2 * c.range(2, 8);
    int cap = c.range(1, 3);
    c.note("grid %d of %d x %d nodes, ", kind, n0, n1);
    return [=] {
        Seen s;
        const int dims[] = {n0, n1 + (kind == 3 ? 4 : 0)};
        if (kind == 3) {
            SgTripolarGrid_type* o = nullptr;
            SgTripolarGrid_new(&o, dims, cap);
            int out[2];
            double** p = nullptr;
            SgTripolarGrid_getGrid(&o, out, &p);
            s.ints = {out[0], out[1]};
            for (int k = 0; k < 2; ++k) s.vals.insert(s.vals.end(), p[k], p[k] + out[0] * out[1]);
            SgTripolarGrid_del(&o);
        } else {
            D x(n0 * n1), y(n0 * n1);
            double* xy[] = {x.data(), y.data()};
            const double lo[] = {a, b}, hi[] = {a + d, b + e};
            if (kind == 0) createRectangularGrid(dims, lo, hi, xy);
            if (kind == 1) createPolarGrid(dims, lo, d, xy);
            if (kind == 2) createRotatedPoleGrid(dims, 30 * d, 30 * e, xy);
            s.vals = x;
            s.vals.insert(s.vals.end(), y.begin(), y.end());
        }
        return std::vector<Seen>{s};
    };
}

Task parser(pbt::Case& c) {
    std::vector<std::string> args{"prog"};
    int n = c.range(0, 6);
    for (int i = 0; i < n; ++i) {
        args.push_back(c.oneof<std::string>({"-d", "-i", "-s", "-b", "-v"}));
        if (args.back() == "-d") args.push_back(pbt::fmt("%g", c.nice(9)));
        else if (args.back() == "-i") args.push_back(pbt::fmt("%d", c.range(-99, 99)));
        else if (args.back() == "-s") args.push_back(pbt::fmt("word%d", c.range(0, 9)));
        else if (args.back() == "-v") args.push_back(pbt::fmt("%g,%g", c.nice(9), c.nice(9)));
    }
    c.note("command line");
    for (auto& s : args) c.note(" %s", s.c_str());
    return [args] {
        CmdLineArgParser p;
        p.setPurpose("purpose");
        p.set("-d", 1.5, "real");
        p.set("-i", 7, "integer");
        p.set("-s", "text", "string");
        p.set("-b", false, "flag");
        p.set("-v", "1,2,3", "list");
        std::vector<std::string> copy = args;
        std::vector<char*> argv;
        for (auto& s : copy) argv.push_back(&s[0]);
        Seen s;
        s.ints.push_back(p.parse((int) argv.size(), argv.data()));
        s.vals.push_back(p.get<double>("-d"));
        s.ints.push_back(p.get<int>("-i"));
        for (char ch : p.get<std::string>("-s")) s.ints.push_back(ch);
        s.ints.push_back(p.get<bool>("-b"));
        for (double v : p.get<std::vector<double>>("-v")) s.vals.push_back(v);
        return std::vector<Seen>{s};
    };
}

Task cells(pbt::Case& c) {
    int kind = c.range(0, 3);
    D p;
    for (int i = 0; i < 12; ++i) p.push_back(c.nice(5));
    c.note("cell %d, ", kind);
    return [=] {
        Seen s;
        int n = -1;
        const double* v[] = {p.data(), p.data() + 3, p.data() + 6, p.data() + 9};
        double* q = nullptr;
        auto look = [&] { s.vals.insert(s.vals.end(), q, q + 3); };
        int* ids = nullptr;
        auto part = [&](int m) { s.ints.insert(s.ints.end(), ids, ids + m); };
        if (kind == 0) {
            SgLine_type* o = nullptr;
            SgLine_new(&o, v[0], v[1]);
            SgLine_getNumberOfPoints(&o, &n);
            for (int k = 0; k < 2; ++k) { SgLine_getPoint(&o, k, &q); look(); }
            SgLine_del(&o);
        } else if (kind == 1) {
            SgTriangle_type* o = nullptr;
            SgTriangle_new(&o, v[0], v[1], v[2]);
            SgTriangle_getNumberOfPoints(&o, &n);
            for (int k = 0; k < 3; ++k) { SgTriangle_getPoint(&o, k, &q); look(); }
            for (int k = 0; k < 3; ++k) { SgTriangle_getEdge(&o, k, &ids); part(2); }
            SgTriangle_del(&o);
        } else if (kind == 2) {
            SgTetrahedron_type* o = nullptr;
            SgTetrahedron_new(&o, v[0], v[1], v[2], v[3]);
            SgTetrahedron_getNumberOfPoints(&o, &n);
            for (int k = 0; k < 4; ++k) { SgTetrahedron_getPoint(&o, k, &q); look(); }
            for (int k = 0; k < 6; ++k) { SgTetrahedron_getEdge(&o, k, &ids); part(2); }
            for (int k = 0; k < 4; ++k) { SgTetrahedron_getFace(&o, k, &ids); part(3); }
            SgTetrahedron_del(&o);
        } else {
            SgSideIterator_type o(3);
            do {
                for (int v : o.get()) s.ints.push_back(v);
            } while (o.next() == 0);
            n = (int) o.getNumberOfElements();
        }
        s.ints.push_back(n);
        return std::vector<Seen>{s};
    };
}

const std::vector<std::pair<const char*, Task (*)(pbt::Case&)>> kinds = {
    {"conserve", object<Conserve>}, {"node", object<Node>}, {"flow", object<Flow>}, {"find", object<Find>}, {"cells", object<Cells>},
    {"quadQuad", object<QuadQuad>}, {"quadLine", object<QuadLine>}, {"quadFlow", object<QuadFlow>}, {"linear", object<Linear>},
    {"hull", object<Hull>}, {"tree", object<Tree>}, {"box", object<Box>}, {"grids", grids}, {"parser", parser}, {"cells3", cells}};

void threads(pbt::Case& c) {
    int n = c.range(2, 4), rounds = c.range(1, 3), main = c.range(0, (int) kinds.size() - 1);
    std::vector<Task> todo;
    std::set<int> used;
    bool shared = false;
    for (int i = 0; i < n; ++i) {
        c.note("| thread %d: ", i);
        if (i && c.chance(1, 4)) { // the same inputs
            todo.push_back(todo.back());
            shared = true;
            c.note("the same ");
            continue;
        }
        int k = c.chance(2, 3) ? main : c.range(0, (int) kinds.size() - 1);
        todo.push_back(kinds[k].second(c));
        used.insert(k);
    }
    // first in threads, so that nothing is prepared by an earlier use
    std::vector<std::vector<std::vector<Seen>>> got(n);
    std::vector<std::string> failed(n);
    std::atomic<int> waiting(n);
    std::vector<std::thread> run;
    for (int i = 0; i < n; ++i)
        run.emplace_back([&, i] {
            --waiting;
            while (waiting > 0) std::this_thread::yield();
            try {
                for (int k = 0; k < rounds; ++k) got[i].push_back(todo[i]());
            } catch (pbt::Fail& f) {
                failed[i] = f.msg;
            } catch (std::exception& e) {
                failed[i] = e.what();
            }
        });
    for (auto& t : run) t.join();
    for (int i = 0; i < n; ++i) {
        std::vector<Seen> want;
        try {
            want = todo[i]();
        } catch (pbt::Fail&) {
            continue; // fails in one thread as well: for the other checks
        }
        CHECK(failed[i].empty(), "thread %d: %s", i, failed[i].c_str());
        for (auto& g : got[i]) {
            CHECK(g.size() == want.size(), "thread %d: %zu results instead of %zu", i, g.size(), want.size());
            for (size_t k = 0; k < want.size(); ++k) g[k].sameAs(want[k], pbt::fmt("thread %d step %zu", i, k).c_str());
        }
    }
    c.nontrivial = true;
    c.label(shared, "the same inputs in two threads");
    c.label(used.size() > 1, "several classes");
    for (int k : used) c.label(kinds[k].first);
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C22";
    p.rule = "2-4 threads that start together, each of them creates an object of one of the classes, or calls the grid generators, uses it, "
             "changes its inputs and uses it again, one to three times over; the results are compared with the same done by one thread, "
             "and the ThreadSanitizer build reports memory that two threads use without order, whatever the order was in this run. All cases are non-trivial: at least two "
             "threads work at once";
    p.subs = {{"threads", 1, threads}};
    return p;
}
