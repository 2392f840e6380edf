// A small property-based testing engine.
//
// Every random decision of a case is one bounded integer taken from a "choice
// stream". The stream comes from a seeded generator, from a recorded list (replay
// and shrinking) or from the bytes of a libFuzzer input, so the same property
// function serves random generation, coverage guided fuzzing, shrinking and replay.
//
// A failing case is shrunk by editing its list of choices (each attempt runs in a
// forked child so that crashes shrink too) and written out as a replay file.
#ifndef PBT_H
#define PBT_H

#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <csignal>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

struct Fail {
    std::string msg;
};

inline std::string vfmt(const char* f, va_list ap) {
    char buf[4096];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}

inline std::string fmt(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    return s;
}

inline void fail(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    throw Fail{s};
}

#define CHECK(cond, ...)                                                      \
    do {                                                                      \
        if (!(cond)) {                                                        \
            throw pbt::Fail{std::string("[" #cond "] ") + pbt::fmt(__VA_ARGS__)}; \
        }                                                                     \
    } while (0)

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

class Case {
  public:
    enum Mode { RANDOM, REPLAY, BYTES };

    std::vector<uint64_t> choices; // what has been drawn so far
    bool nontrivial = false;
    bool verbose = false;
    std::string text;
    std::vector<std::string> labels;

    static Case random(uint64_t seed, uint64_t index) {
        Case c;
        c.mode = RANDOM;
        c.state = mix(mix(seed) ^ mix(index * 0x632be59bd9b4e019ULL + 0x1234567));
        return c;
    }
    static Case replay(const std::vector<uint64_t>& v) {
        Case c;
        c.mode = REPLAY;
        c.recorded = v;
        return c;
    }
    static Case bytes(const uint8_t* d, size_t n) {
        Case c;
        c.mode = BYTES;
        c.data = d;
        c.size = n;
        return c;
    }

    // an integer in 0..maxval, 0 being the simplest
    uint64_t draw(uint64_t maxval) {
        uint64_t v = 0;
        if (mode == RANDOM) {
            state += 0x9e3779b97f4a7c15ULL;
            v = mix(state);
            if (maxval != UINT64_MAX) v %= (maxval + 1);
        } else if (mode == REPLAY) {
            if (pos < recorded.size()) v = recorded[pos++];
            if (v > maxval) v = maxval;
        } else {
            int nb = 1;
            while (nb < 8 && (maxval >> (8 * nb)) != 0) nb++;
            for (int i = 0; i < nb; ++i) {
                uint64_t b = pos < size ? data[pos++] : 0;
                v |= b << (8 * i);
            }
            if (maxval != UINT64_MAX) v %= (maxval + 1);
        }
        if (sinkChoices && choices.size() < sinkMax) {
            sinkChoices[choices.size()] = v;
            *sinkCount = choices.size() + 1;
        }
        choices.push_back(v);
        return v;
    }
    // publish the choices and the notes as they are made, so that a crash does not lose them
    void setSink(uint64_t* a, volatile uint64_t* n, size_t nmax, char* t, size_t tmax) {
        sinkChoices = a;
        sinkCount = n;
        sinkMax = nmax;
        sinkText = t;
        sinkTextMax = tmax;
    }
    // integer in lo..hi, lo is the simplest
    int range(int lo, int hi) { return lo + (int) draw((uint64_t)((int64_t) hi - lo)); }
    // true with probability num/den, false is the simplest
    bool chance(int num, int den) { return (int) draw(den - 1) >= den - num; }
    // index with the given weights
    int pick(const std::vector<int>& w) {
        int tot = 0;
        for (int x : w) tot += x;
        int v = range(0, tot - 1);
        for (size_t i = 0; i < w.size(); ++i) {
            if (v < w[i]) return (int) i;
            v -= w[i];
        }
        return 0;
    }
    template <class T> T oneof(const std::vector<T>& v) { return v[range(0, (int) v.size() - 1)]; }
    // 0 <= x < 1, 32 bits
    double unit() { return double(draw(0xffffffffULL)) / 4294967296.0; }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    // k/n with 0 <= k <= n
    double frac(int n) { return double(range(0, n)) / double(n); }
    // symmetric real number, simple values are frequent
    double nice(double amp) {
        switch (range(0, 3)) {
        case 0: return amp * (range(0, 8) / 8.0);
        case 1: return -amp * (range(0, 8) / 8.0);
        default: return real(-amp, amp);
        }
    }

    void label(const std::string& s) { labels.push_back(s); }
    void label(bool cond, const std::string& s) {
        if (cond) labels.push_back(s);
    }
    void note(const char* f, ...) {
        if (!verbose) return;
        va_list ap;
        va_start(ap, f);
        char buf[8192];
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        text += buf;
        if (sinkText) snprintf(sinkText, sinkTextMax, "%s", text.c_str());
    }
    uint64_t hash() const {
        uint64_t h = 1469598103934665603ULL;
        for (uint64_t v : choices) h = mix(h ^ v);
        return h;
    }

  private:
    Mode mode = RANDOM;
    uint64_t state = 0;
    std::vector<uint64_t> recorded;
    const uint8_t* data = nullptr;
    size_t size = 0;
    size_t pos = 0;
    uint64_t* sinkChoices = nullptr;
    volatile uint64_t* sinkCount = nullptr;
    size_t sinkMax = 0;
    char* sinkText = nullptr;
    size_t sinkTextMax = 0;
};

struct Sub {
    std::string name;
    int weight;
    std::function<void(Case&)> fn;
};

struct Regression {
    std::string name;
    std::function<void()> fn;
};

struct Property {
    std::string id;
    std::string rule;
    std::vector<Sub> subs;
    std::vector<Regression> regressions;
};

// defined by the harness
Property property();

inline Property& theProperty() {
    static Property p = property();
    return p;
}

inline void runOne(Case& c) {
    Property& p = theProperty();
    std::vector<int> w;
    for (auto& s : p.subs) w.push_back(s.weight);
    int k = c.pick(w);
    c.label("sub:" + p.subs[k].name);
    c.note("%s: ", p.subs[k].name.c_str());
    p.subs[k].fn(c);
}

inline void silence() {
    // the library reports on stdout/stderr, which is not part of any property
    std::cout.rdbuf(nullptr);
    std::cerr.rdbuf(nullptr);
}

#ifndef PBT_FUZZ

inline double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1.e-9 * ts.tv_nsec;
}

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
static const int CPU_LIMIT = 60;
#else
static const int CPU_LIMIT = 25;
#endif

inline void armCpuTimer() {
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = CPU_LIMIT;
    setitimer(ITIMER_PROF, &it, nullptr);
}

inline void limitMemory() {
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 3UL << 30;
    setrlimit(RLIMIT_AS, &rl);
#endif
    struct rlimit core;
    core.rlim_cur = core.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &core);
}

// result of running one case in a child process
struct Outcome {
    bool failed = false;
    std::string msg;
    std::string text;
    std::vector<uint64_t> choices;
};

struct Shared {
    volatile int state; // 0 running, 1 passed, 2 failed
    volatile uint64_t nchoices;
    char msg[4096];
    char text[1 << 16];
    uint64_t choices[1 << 21];
};

inline Shared* sharedPage() {
    static Shared* s = nullptr;
    if (!s) {
        s = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                           MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    return s;
}

inline std::string signalText(int st) {
    if (WIFSIGNALED(st)) {
        if (WTERMSIG(st) == SIGPROF) return fmt("a case did not end within %d s of CPU time", CPU_LIMIT);
        return fmt("crash: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    }
    if (WEXITSTATUS(st) == 0) return "the process ended, with exit status 0";
    return fmt("crash: exit status %d (sanitizer report?)", WEXITSTATUS(st));
}

template <class F> Outcome isolated(F body, bool keepText) {
    Shared* s = sharedPage();
    s->state = 0;
    s->nchoices = 0;
    s->msg[0] = 0;
    s->text[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        limitMemory();
        armCpuTimer();
        body(s);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    if (s->state == 2) {
        o.failed = true;
        o.msg = s->msg;
    } else if (s->state == 0) {
        o.failed = true;
        o.msg = signalText(st);
    }
    if (keepText) o.text = s->text;
    o.choices.assign(s->choices, s->choices + s->nchoices);
    return o;
}

inline void runInto(Shared* s, Case& c) {
    c.setSink(s->choices, &s->nchoices, sizeof(s->choices) / sizeof(uint64_t), s->text, sizeof s->text);
    try {
        runOne(c);
        s->state = 1;
    } catch (Fail& f) {
        snprintf(s->msg, sizeof s->msg, "%s", f.msg.c_str());
        s->state = 2;
    } catch (std::exception& e) {
        snprintf(s->msg, sizeof s->msg, "unexpected exception: %s", e.what());
        s->state = 2;
    }
}

inline Outcome tryChoices(const std::vector<uint64_t>& v, bool text) {
    return isolated([&](Shared* s) {
        Case c = Case::replay(v);
        c.verbose = text;
        runInto(s, c);
    }, text);
}

// the cases first, first + step, ... last of a seed one after another in one process: a failure may need what the
// earlier ones left behind
inline Outcome tryHistory(uint64_t seed, uint64_t first, uint64_t step, uint64_t last, bool text) {
    return isolated([&](Shared* s) {
        for (uint64_t k = first; k < last; k += step) {
            armCpuTimer();
            Case c = Case::random(seed, k);
            try {
                runOne(c);
            } catch (Fail& f) {
                snprintf(s->msg, sizeof s->msg, "case %llu of seed %llu: %s", (unsigned long long) k, (unsigned long long) seed, f.msg.c_str());
                s->state = 2;
                return;
            }
        }
        armCpuTimer();
        Case c = Case::random(seed, last);
        c.verbose = text;
        runInto(s, c);
    }, text);
}

inline Outcome tryRegression(int i) {
    return isolated([&](Shared* s) {
        try {
            theProperty().regressions[i].fn();
            s->state = 1;
        } catch (Fail& f) {
            snprintf(s->msg, sizeof s->msg, "%s", f.msg.c_str());
            s->state = 2;
        } catch (std::exception& e) {
            snprintf(s->msg, sizeof s->msg, "unexpected exception: %s", e.what());
            s->state = 2;
        }
    }, true);
}

// drop choices, then make them smaller
inline std::vector<uint64_t> shrink(std::vector<uint64_t> best, double budget, long& attempts) {
    double t0 = now();
    std::set<uint64_t> seen;
    auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    auto attempt = [&](const std::vector<uint64_t>& v) {
        if (now() - t0 > budget) return false;
        uint64_t h = 7 + v.size();
        for (uint64_t x : v) h = mix(h ^ x);
        if (!seen.insert(h).second) return false;
        attempts++;
        Outcome o = tryChoices(v, false);
        if (!o.failed) return false;
        // the canonical list is what was really drawn (crashes do not report it)
        std::vector<uint64_t> w = o.choices.empty() ? v : o.choices;
        if (better(w, best)) {
            best = w;
            return true;
        }
        if (better(v, best)) {
            best = v;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && now() - t0 < budget) {
        progress = false;
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= best.size() && now() - t0 < budget;) {
                std::vector<uint64_t> v = best;
                v.erase(v.begin() + i, v.begin() + i + len);
                if (attempt(v)) progress = true;
                else i += len;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < best.size() && now() - t0 < budget; ++i) {
            if (best[i] == 0) continue;
            std::vector<uint64_t> v = best;
            v[i] = 0;
            if (attempt(v)) { progress = true; continue; }
            // remove low bits, then halve
            for (int b = 32; b >= 4; b -= 4) {
                if (i >= best.size()) break;
                v = best;
                v[i] = (best[i] >> b) << b;
                if (v[i] != best[i] && attempt(v)) { progress = true; break; }
            }
            for (int k = 0; k < 40 && i < best.size() && best[i] > 0; ++k) {
                v = best;
                v[i] = best[i] / 2;
                if (!attempt(v)) break;
                progress = true;
            }
            if (i < best.size() && best[i] > 0) {
                v = best;
                v[i] = best[i] - 1;
                if (attempt(v)) progress = true;
            }
        }
    }
    return best;
}

inline std::string jsonEscape(const std::string& s) {
    std::string r;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch == '\n') r += "\\n";
        else if (ch < 32 || ch > 126) r += fmt("\\u%04x", ch);
        else r += ch;
    }
    return r;
}

inline void writeReplay(const std::string& path, const std::string& kind, const std::string& what,
                        const std::vector<uint64_t>& ch, const std::string& msg, const std::string& text) {
    std::ofstream o(path);
    o << "property " << theProperty().id << "\n";
    o << kind << " " << what << "\n";
    o << "choices";
    for (uint64_t v : ch) o << " " << v;
    o << "\nmessage " << jsonEscape(msg) << "\n";
    o << "case " << jsonEscape(text) << "\n";
}

struct Stats {
    uint64_t evaluations = 0, nontrivial = 0, nchoices = 0;
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    void add(const Case& c) {
        evaluations++;
        nchoices += c.choices.size();
        for (auto& l : c.labels) labels[l]++;
        if (c.nontrivial) {
            nontrivial++;
            hashes.insert(c.hash());
        }
    }
    void save(const std::string& path) const {
        std::ofstream o(path);
        o << "evaluations " << evaluations << "\nnontrivial " << nontrivial << "\nchoices " << nchoices << "\n";
        for (auto& p : labels) o << "label " << p.second << " " << p.first << "\n";
        for (uint64_t h : hashes) o << "h " << h << "\n";
    }
};

// exit status: 0 passed, 1 failed (replay file written), 2 engine error
inline int engineMain(int argc, char** argv) {
    silence();
    std::map<std::string, std::string> opt;
    std::string cmd = argc > 1 ? argv[1] : "";
    std::vector<std::string> files;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        if (a.substr(0, 2) == "--" && i + 1 < argc) { opt[a.substr(2)] = argv[i + 1]; i++; }
        else files.push_back(a);
    }
    auto num = [&](const char* k, double d) { return opt.count(k) ? atof(opt[k].c_str()) : d; };
    Property& prop = theProperty();

    if (cmd == "rule") {
        printf("%s\n", prop.rule.c_str());
        return 0;
    }

    if (cmd == "replay") {
        // run a replay file in a child process, say what happened
        if (files.empty()) return 2;
        std::ifstream in(files[0]);
        std::string line, kind, what;
        std::vector<uint64_t> ch;
        uint64_t hist[4] = {0, 0, 1, 0};
        while (std::getline(in, line)) {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "choices") { uint64_t v; while (is >> v) ch.push_back(v); }
            else if (k == "regression") { kind = k; is >> what; }
            else if (k == "history") { kind = k; is >> hist[0] >> hist[1] >> hist[2] >> hist[3]; }
        }
        Outcome o;
        if (kind == "regression") {
            int idx = -1;
            for (size_t i = 0; i < prop.regressions.size(); ++i) if (prop.regressions[i].name == what) idx = (int) i;
            if (idx < 0) return 2;
            o = tryRegression(idx);
        } else if (kind == "history") {
            o = tryHistory(hist[0], hist[1], std::max<uint64_t>(1, hist[2]), hist[3], true);
        } else {
            o = tryChoices(ch, true);
        }
        printf("%s\n%s\n%s\n", o.failed ? "FAILED" : "passed", o.msg.c_str(), o.text.c_str());
        return o.failed ? 1 : 0;
    }

    std::string outfile = opt.count("stats") ? opt["stats"] : "";
    std::string replayfile = opt.count("replay") ? opt["replay"] : "";

    auto reportFailure = [&](std::vector<uint64_t> ch) {
        long attempts = 0;
        Outcome o = tryChoices(ch, true);
        if (!o.failed) {
            printf("NOT-REPRODUCED\n");
            return 3;
        }
        std::vector<uint64_t> small = shrink(o.choices.empty() ? ch : o.choices, num("shrink", 40), attempts);
        Outcome f = tryChoices(small, true);
        if (!f.failed) { small = ch; f = o; }
        writeReplay(replayfile, "kind", "choices", small, f.msg, f.text);
        printf("FAILED %s\n%s\nshrunk from %zu to %zu choices in %ld attempts\n", f.msg.c_str(), f.text.c_str(),
               ch.size(), small.size(), attempts);
        return 1;
    };

    if (cmd == "bytes") {
        std::ifstream in(files[0], std::ios::binary);
        std::string d((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        // find out what the bytes decode to
        Outcome o = isolated([&](Shared* s) {
            Case c = Case::bytes((const uint8_t*) d.data(), d.size());
            runInto(s, c);
        }, false);
        if (!o.failed) { printf("NOT-REPRODUCED\n"); return 3; }
        return reportFailure(o.choices);
    }

    uint64_t seed = strtoull(opt["seed"].c_str(), nullptr, 10);
    uint64_t cases = (uint64_t) num("cases", 1000);

    if (cmd == "serial") {
        // one process, no forks: for tools that watch the process (memcheck)
        Stats st;
        double t0 = now();
        int failed = 0;
        for (uint64_t k = 0; k < cases && now() - t0 < num("time", 60); ++k) {
            Case c = Case::random(seed, k);
            try {
                runOne(c);
            } catch (Fail& f) {
                printf("FAILED case %llu: %s\n", (unsigned long long) k, f.msg.c_str());
                failed = 1;
                break;
            }
            st.add(c);
        }
        if (!outfile.empty()) st.save(outfile + ".0");
        printf("ended\n");
        return failed;
    }

    if (cmd != "run") return 2;

    int shards = (int) num("shards", 8);
    double budget = num("time", 300);

    if (num("regress", 1) != 0) {
        for (size_t i = 0; i < prop.regressions.size(); ++i) {
            Outcome o = tryRegression((int) i);
            if (o.failed) {
                writeReplay(replayfile, "regression", prop.regressions[i].name, {}, o.msg, o.text);
                printf("FAILED regression %s: %s\n", prop.regressions[i].name.c_str(), o.msg.c_str());
                return 1;
            }
        }
    }

    struct Slot {
        volatile uint64_t current;
        volatile int failed;
        volatile int ended;
        volatile uint64_t done;
    };
    Slot* slots = (Slot*) mmap(nullptr, sizeof(Slot) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    volatile int* stop = (volatile int*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*) slots, 0, sizeof(Slot) * 64);
    *stop = 0;
    double t0 = now();
    std::vector<pid_t> pids(shards);
    fflush(nullptr);
    for (int w = 0; w < shards; ++w) {
        pids[w] = fork();
        if (pids[w] == 0) {
            limitMemory();
            Stats st;
            for (uint64_t k = w; k < cases; k += shards) {
                if (*stop || now() - t0 > budget) break;
                slots[w].current = k;
                armCpuTimer();
                Case c = Case::random(seed, k);
                try {
                    runOne(c);
                } catch (Fail&) {
                    slots[w].failed = 1;
                    *stop = 1;
                    break;
                } catch (std::exception&) {
                    slots[w].failed = 1;
                    *stop = 1;
                    break;
                }
                st.add(c);
                slots[w].done++;
            }
            if (!outfile.empty()) st.save(outfile + fmt(".%d", w));
            slots[w].ended = 1;
            _exit(0);
        }
    }
    uint64_t failing = UINT64_MAX;
    for (int w = 0; w < shards; ++w) {
        int st = 0;
        waitpid(pids[w], &st, 0);
        // the code must not end the process either, whatever the exit status
        bool crashed = !slots[w].ended;
        if (crashed) *stop = 1;
        if (crashed || slots[w].failed) failing = std::min(failing, (uint64_t) slots[w].current);
    }
    if (failing != UINT64_MAX) {
        Outcome o = isolated([&](Shared* sh) {
            Case c = Case::random(seed, failing);
            runInto(sh, c);
        }, false);
        if (o.failed) {
            int rc = reportFailure(o.choices);
            if (rc != 3) return rc;
        }
        // with the cases that came before it in the same process, as few of them as it takes
        uint64_t before = failing / shards;
        for (uint64_t m = 0;; m = m ? std::min(4 * m, before) : std::min<uint64_t>(1, before)) {
            uint64_t first = failing - m * shards;
            Outcome h = tryHistory(seed, first, shards, failing, true);
            if (h.failed) {
                writeReplay(replayfile, "history", fmt("%llu %llu %d %llu", (unsigned long long) seed, (unsigned long long) first, shards, (unsigned long long) failing), {},
                            h.msg, h.text);
                printf("FAILED %s\n%s\nafter %llu other cases in the same process\n", h.msg.c_str(), h.text.c_str(), (unsigned long long) m);
                return 1;
            }
            if (m == before) break;
        }
        printf("NOT-REPRODUCED case %llu\n", (unsigned long long) failing);
        return 3;
    }
    // samples
    if (!outfile.empty()) {
        std::ofstream o(outfile + ".samples");
        int n = 0;
        std::set<std::string> subsSeen;
        for (uint64_t k = 0; k < std::min<uint64_t>(cases, 4000) && n < 6; ++k) {
            Case c = Case::random(seed, k);
            c.verbose = true;
            try { runOne(c); } catch (...) { continue; }
            if (c.nontrivial && subsSeen.insert(c.labels[0]).second) {
                o << fmt("case %llu (seed %llu): ", (unsigned long long) k, (unsigned long long) seed)
                  << c.text.substr(0, 1500) << "\n";
                n++;
            }
        }
    }
    printf("passed %s\n", now() - t0 > budget ? "(time budget reached)" : "");
    return 0;
}

#endif // PBT_FUZZ

} // namespace pbt

#ifdef PBT_FUZZ

namespace pbt {
struct FuzzStats {
    uint64_t evaluations = 0, nontrivial = 0;
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    ~FuzzStats() { save(); }
    void save() {
        const char* p = getenv("PBT_FUZZ_STATS");
        if (!p) return;
        std::ofstream o(p);
        o << "evaluations " << evaluations << "\nnontrivial " << nontrivial << "\n";
        for (auto& q : labels) o << "label " << q.second << " " << q.first << "\n";
        for (uint64_t h : hashes) o << "h " << h << "\n";
    }
};
inline FuzzStats& fuzzStats() {
    static FuzzStats s;
    return s;
}
}

extern "C" int LLVMFuzzerInitialize(int*, char***) {
    pbt::silence();
    pbt::theProperty();
    pbt::fuzzStats();
    return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    pbt::Case c = pbt::Case::bytes(data, size);
    pbt::FuzzStats& st = pbt::fuzzStats();
    try {
        pbt::runOne(c);
    } catch (pbt::Fail& f) {
        st.save();
        fprintf(stderr, "PROPERTY FAILED: %s\n", f.msg.c_str());
        abort();
    }
    st.evaluations++;
    for (auto& l : c.labels) st.labels[l]++;
    if (c.nontrivial) {
        st.nontrivial++;
        if (st.hashes.size() < 2000000) st.hashes.insert(c.hash());
    }
    if (st.evaluations % 4096 == 0) st.save();
    return 0;
}

#else

int main(int argc, char** argv) { return pbt::engineMain(argc, argv); }

#endif

#endif // PBT_H
