// C17: command line parser
#include "pbt.h"
#include "CmdLineArgParser.h"
#include <iostream>

template <> double CmdLineArgParser::get<double>(const std::string&) const;
template <> int CmdLineArgParser::get<int>(const std::string&) const;
template <> std::string CmdLineArgParser::get<std::string>(const std::string&) const;
template <> const char* CmdLineArgParser::get<const char*>(const std::string&) const;
template <> bool CmdLineArgParser::get<bool>(const std::string&) const;
template <> std::vector<double> CmdLineArgParser::get<std::vector<double>>(const std::string&) const;
template <> std::vector<int> CmdLineArgParser::get<std::vector<int>>(const std::string&) const;

namespace {

struct Opt {
    char type; // d i s b
    std::string name, help;
    double d = 0;
    int i = 0;
    std::string s;
    bool b = false;
};

std::string number(pbt::Case& c, bool integer, double& v) {
    char buf[64];
    if (integer) {
        int k = c.chance(1, 6) ? (c.chance(1, 2) ? 2147483647 : -2147483647) : c.range(-1000, 1000);
        static const char* formats[] = {"%d", "%+d", "%03d", "%05d", "%010d"};
        snprintf(buf, sizeof buf, formats[c.pick({12, 2, 2, 2, 1})], k);
        v = k;
        return buf;
    }
    switch (c.range(0, 7)) {
    case 5: { // signs and zeros in front
        int k = c.range(-99, 99), f = c.range(0, 99);
        bool neg = c.chance(1, 2);
        snprintf(buf, sizeof buf, "%s%04d.%02d", neg ? "-" : c.chance(1, 2) ? "+" : "", std::abs(k), f);
        v = strtod(buf, nullptr);
        if (std::fabs(std::fabs(v) - (std::abs(k) + f / 100.)) > 1e-9) abort();
        return buf;
    }
    case 6: // without decimals
        v = c.range(-999, 999);
        snprintf(buf, sizeof buf, "%.0f.", v);
        return buf;
    case 7: { // with exponent
        int k = c.range(-99, 99), e = c.range(-30, 30);
        snprintf(buf, sizeof buf, c.chance(1, 2) ? "%d.5e%d" : "%d.5E%+03d", k, e);
        v = strtod(buf, nullptr);
        return buf;
    }
    case 0: v = c.range(-100, 100); snprintf(buf, sizeof buf, "%g", v); return buf;
    case 1: { // without a leading zero
        int k = c.range(1, 999);
        bool neg = c.chance(1, 2);
        snprintf(buf, sizeof buf, "%s.%03d", neg ? "-" : "", k);
        v = strtod(buf, nullptr);
        return buf;
    }
    case 2: v = c.real(-1e6, 1e6); snprintf(buf, sizeof buf, "%.17g", v); return buf;
    case 3: v = c.real(-10, 10); snprintf(buf, sizeof buf, "%.6e", v); v = strtod(buf, nullptr); return buf;
    default: v = c.real(-1, 1) * 1e-12; snprintf(buf, sizeof buf, "%.17g", v); return buf;
    }
}

std::string word(pbt::Case& c) {
    static const char* chars = "abcxyz0129_./ ,=-()";
    std::string s;
    int n = c.chance(1, 20) ? c.range(60, 300) : c.range(0, 8);
    bool any = c.chance(1, 8);
    for (int k = 0; k < n; ++k) {
        if (any && c.chance(1, 2)) { // tabs, quotes, other alphabets
            char v = (char) c.range(1, 255);
            s += v == '\n' || v == '-' ? '\t' : v;
        } else
            s += chars[c.range(0, k ? 18 : 15)];
    }
    return s;
}

// a value that starts with a dash but is not the name of an option
std::string dashed(pbt::Case& c) {
    std::string s = c.oneof<std::string>({"-", "-0", "-.", "-5", "-12"});
    return s.size() > 1 ? s + word(c) : s;
}

std::string numbers(pbt::Case& c, bool integer, std::vector<double>& v) {
    std::string s;
    int n = c.chance(1, 12) ? c.range(6, 60) : c.range(1, 5);
    for (int k = 0; k < n; ++k) {
        double x;
        s += (k ? (c.chance(1, 2) ? "," : ", ") : "") + number(c, integer, x);
        v.push_back(x);
    }
    return s;
}

void compare(const CmdLineArgParser& p, const std::vector<Opt>& opts, bool help, bool help2) {
    for (const Opt& o : opts) {
        const char* n = o.name.c_str();
        switch (o.type) {
        case 'd': CHECK(p.get<double>(o.name) == o.d, "%s is %.17g, should be %.17g", n, p.get<double>(o.name), o.d); break;
        case 'i': CHECK(p.get<int>(o.name) == o.i, "%s is %d, should be %d", n, p.get<int>(o.name), o.i); break;
        case 's':
            CHECK(p.get<std::string>(o.name) == o.s, "%s is '%s', should be '%s'", n, p.get<std::string>(o.name).c_str(), o.s.c_str());
            CHECK(std::string(p.get<const char*>(o.name)) == o.s, "%s as char* is '%s', should be '%s'", n, p.get<const char*>(o.name), o.s.c_str());
            break;
        default: CHECK(p.get<bool>(o.name) == o.b, "%s is %d, should be %d", n, p.get<bool>(o.name), o.b);
        }
        // a name that is not of this type
        if (o.type != 'd') CHECK(p.get<double>(o.name) == -std::numeric_limits<double>::max(), "%s is not a double", n);
        if (o.type != 'i') CHECK(p.get<int>(o.name) == -std::numeric_limits<int>::max(), "%s is not an int", n);
        if (o.type != 's') CHECK(p.get<std::string>(o.name) == "" && p.get<std::vector<double>>(o.name).empty(), "%s is not a string", n);
        if (o.type != 'b') CHECK(!p.get<bool>(o.name), "%s is not a bool", n);
    }
    CHECK(p.get<bool>("-h") == help && p.get<bool>("--help") == help2, "help flags");
}

bool parse(CmdLineArgParser& p, const std::vector<std::string>& args) {
    std::vector<std::vector<char>> store;
    std::vector<char*> argv;
    for (auto& a : args) {
        store.emplace_back(a.begin(), a.end());
        store.back().push_back(0);
    }
    for (auto& s : store) argv.push_back(s.data());
    argv.push_back(nullptr);
    bool r = p.parse((int) args.size(), argv.data());
    for (size_t k = 0; k < args.size(); ++k) CHECK(args[k] == store[k].data(), "argument %zu was modified", k);
    return r;
}

// any name, also long ones
std::string name(pbt::Case& c) {
    static const char chars[] = "abcxyzABCXYZ0123456789_-.";
    std::string s = c.chance(1, 2) ? "-" : "--";
    int n = c.chance(1, 20) ? c.range(41, 300) : c.chance(1, 4) ? c.range(8, 40) : c.range(1, 7);
    for (int k = 0; k < n; ++k) s += chars[c.range(0, k ? 24 : 11)];
    return s;
}

void model(pbt::Case& c) {
    CmdLineArgParser p;
    std::vector<Opt> opts;
    bool crowd = c.chance(1, 40);
    int n = crowd ? c.range(17, 80) : c.chance(1, 6) ? c.range(7, 16) : c.range(1, 6);
    std::set<std::string> names{"-h", "--help"};
    static const char* pool[] = {"-a", "-b", "-n", "-nx", "-src", "--src", "--verbose", "-x1", "--tol", "-srcfile", "--a", "-B", "--n", "-x"};
    for (int k = 0; k < n; ++k) {
        Opt o;
        o.type = "disb"[c.range(0, 3)];
        o.name = crowd || c.chance(1, 8) ? name(c) : pool[c.range(0, 13)];
        if (!names.insert(o.name).second) continue;
        o.help = pbt::fmt("help of option %d", k);
        double v;
        if (c.chance(1, 8)) { // set again below, the last one counts
            if (o.type == 'd') p.set(o.name, 17.25, "old");
            if (o.type == 'i') p.set(o.name, 17, "old");
            if (o.type == 's') p.set(o.name, "old value", "old");
            if (o.type == 'b') p.set(o.name, c.chance(1, 2), "old");
        }
        switch (o.type) {
        case 'd': number(c, false, o.d); p.set(o.name, o.d, o.help); break;
        case 'i': number(c, true, v); o.i = (int) v; p.set(o.name, o.i, o.help); break;
        case 's':
            o.s = word(c);
            if (c.chance(1, 2)) p.set(o.name, o.s, o.help);
            else p.set(o.name, o.s.c_str(), o.help);
            break;
        default: o.b = c.chance(1, 2); p.set(o.name, o.b, o.help);
        }
        opts.push_back(o);
    }
    bool help = false, help2 = false;
    compare(p, opts, help, help2);
    std::string program;
    int rounds = c.chance(1, 5) ? 2 : 1, nvals = 0;
    for (int round = 0; round < rounds; ++round) {
        // the name of the program is not an option, whatever it looks like
        std::string prog = c.chance(3, 4) ? "prog" : c.chance(1, 2) ? opts[c.range(0, (int) opts.size() - 1)].name : c.oneof<std::string>({"-h", "-zz", "./a b", ""});
        std::vector<std::string> args{prog};
        program = prog;
        std::vector<Opt> want = opts;
        bool wh = help, wh2 = help2, bad = false;
        int na = c.chance(1, 12) ? c.range(8, 40) : c.range(0, 7);
        for (int k = 0; k < na; ++k) {
            int what = c.pick({10, 1, 1, 1});
            if (what == 1) { // unknown option
                std::string u = pool[c.range(0, 13)];
                u += c.oneof<std::string>({"", "q", "-", "z9"});
                if (names.count(u)) continue;
                args.push_back(u);
                bad = true;
                continue;
            }
            if (what == 2) { // stray argument
                args.push_back(c.chance(1, 6) ? dashed(c) : "f" + word(c));
                continue;
            }
            if (what == 3) {
                bool first = c.chance(1, 2);
                args.push_back(first ? "-h" : "--help");
                (first ? wh : wh2) ^= true;
                continue;
            }
            Opt& o = want[c.range(0, (int) want.size() - 1)];
            args.push_back(o.name);
            if (o.type == 'b') { o.b = !o.b; continue; }
            if (k + 1 == na && c.chance(1, 6)) break; // the value is missing
            double v;
            std::string s;
            if (o.type == 'd') { s = number(c, c.chance(1, 4), o.d); }
            else if (o.type == 'i') { s = number(c, true, v); o.i = (int) v; }
            else { s = c.chance(1, 6) ? dashed(c) : word(c); o.s = s; }
            args.push_back(s);
            nvals++;
        }
        if (c.verbose) {
            c.note("options");
            for (auto& o : opts) c.note(" %s:%c", o.name.c_str(), o.type);
            c.note(" arguments");
            for (auto& a : args) c.note(" '%s'", a.c_str());
            c.note("\n");
        }
        bool ok = parse(p, args);
        CHECK(ok == !bad, "parse returns %d", ok);
        if (!bad) {
            opts = want;
            help = wh;
            help2 = wh2;
        }
        // with an unknown option nothing is changed
        compare(p, opts, help, help2);
        c.label(bad, "unknown option");
    }
    CHECK(p.get<double>("-nope") == -std::numeric_limits<double>::max() && p.get<int>("-nope") == -std::numeric_limits<int>::max() &&
              p.get<std::string>("-nope") == "" && std::string(p.get<const char*>("-nope")) == "" && !p.get<bool>("-nope") &&
              p.get<std::vector<double>>("-nope").empty() && p.get<std::vector<int>>("-nope").empty(),
          "value of an option that does not exist");
    // the help mentions every option
    std::string purpose = "purpose of " + word(c);
    if (c.chance(1, 4)) p.setPurpose("another purpose");
    p.setPurpose(purpose);
    std::vector<std::string> foots;
    int nf = c.range(0, 3);
    for (int k = 0; k < nf; ++k) {
        foots.push_back(pbt::fmt("note %d ", k) + word(c));
        p.addFootnote(foots.back());
    }
    std::ostringstream out, err;
    std::streambuf *sb = std::cout.rdbuf(out.rdbuf()), *eb = std::cerr.rdbuf(err.rdbuf());
    p.help();
    std::cout.rdbuf(sb);
    std::cerr.rdbuf(eb);
    std::string text = out.str() + err.str();
    CHECK(text.find(purpose) != std::string::npos, "the help does not show the purpose");
    CHECK(text.find(program) != std::string::npos, "the help does not show the name of the program, %s", program.c_str());
    for (auto& f : foots) CHECK(text.find(f) != std::string::npos, "the help does not show the footnote '%s'", f.c_str());
    for (auto& o : opts) {
        size_t at = text.find("\t" + o.name + " ");
        CHECK(at != std::string::npos, "the help does not mention %s", o.name.c_str());
        std::string line = text.substr(at, text.find('\n', at) - at);
        CHECK(line.find(o.help) != std::string::npos, "the help does not explain %s", o.name.c_str());
        size_t open = line.rfind('('), shut = line.rfind(')');
        if (o.type == 's') open = line.find(" (" + o.s + ")"), open += open != std::string::npos;
        CHECK(open != std::string::npos && shut != std::string::npos && open < shut, "the help does not show the value of %s", o.name.c_str());
        std::string shown = line.substr(open + 1, shut - open - 1);
        if (o.type == 'i') CHECK(atoi(shown.c_str()) == o.i, "the help shows %s for %s, should be %d", shown.c_str(), o.name.c_str(), o.i);
        if (o.type == 'd') CHECK(std::fabs(atof(shown.c_str()) - o.d) <= 1e-4 * std::fabs(o.d), "the help shows %s for %s, should be %g", shown.c_str(), o.name.c_str(), o.d);
        if (o.type == 'b') CHECK(shown == (o.b ? "1" : "0") || shown == (o.b ? "true" : "false"), "the help shows %s for %s", shown.c_str(), o.name.c_str());
    }
    c.nontrivial = nvals >= 1 && opts.size() >= 2;
    c.label(rounds > 1, "parsed twice");
}

void vectors(pbt::Case& c) {
    CmdLineArgParser p;
    bool integer = c.chance(1, 2);
    std::vector<double> want, dflt;
    std::string d, s;
    // the empty list has no numbers
    if (!c.chance(1, 12)) d = numbers(c, integer, dflt);
    if (!c.chance(1, 12)) s = numbers(c, integer, want);
    p.set("-v", d, "values");
    bool given = c.chance(3, 4);
    c.note("default '%s' given '%s'", d.c_str(), given ? s.c_str() : "");
    std::vector<std::string> args{"prog"};
    if (given) { args.push_back("-v"); args.push_back(s); }
    CHECK(parse(p, args), "parse fails");
    if (!given) want = dflt;
    if (integer) {
        std::vector<int> r = p.get<std::vector<int>>("-v");
        CHECK(r.size() == want.size(), "%zu numbers, should be %zu", r.size(), want.size());
        for (size_t k = 0; k < r.size(); ++k) CHECK(r[k] == want[k], "number %zu is %d, should be %g", k, r[k], want[k]);
    }
    std::vector<double> r = p.get<std::vector<double>>("-v");
    CHECK(r.size() == want.size(), "%zu numbers, should be %zu", r.size(), want.size());
    for (size_t k = 0; k < r.size(); ++k) CHECK(r[k] == want[k], "number %zu is %.17g, should be %.17g", k, r[k], want[k]);
    c.nontrivial = want.size() > 1;
    c.label(integer ? "integers" : "reals");
}

void regressionPoint() {
    CmdLineArgParser p;
    p.set("-x", 1.5, "x");
    CHECK(parse(p, {"prog", "-x", "-.5"}), "-x -.5 is rejected");
    CHECK(p.get<double>("-x") == -0.5, "x is %g", p.get<double>("-x"));
}

} // namespace

pbt::Property pbt::property() {
    Property p;
    p.id = "C17";
    p.rule = "1-6 (up to 80) options of the four types with prefixes of each other as names, command lines with values in several notations (negative, "
             "without leading zero, exponents), repeated and missing values, unknown options, stray arguments, a second parse; compared "
             "with a model of the parser; comma separated lists. Non-trivial: two options and one value, or a list of two";
    p.subs = {{"model", 3, model}, {"vectors", 1, vectors}};
    p.regressions = {{"point", regressionPoint}};
    return p;
}
