// P25: the sample programs under generated argument vectors. Children run with sanitizers or below memcheck; what they report is passed on
// through stderr and judged by check.py. Every vector carries the verdict it has to get.
#define VERIF_MAIN
#include "common.hpp"
#include "progs.hpp"
#include <algorithm>

static std::string gSan, gPlain;
// exponents of Mersenne primes, most of which are out of a program's list
static const std::vector<long> MEX = {2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279, 2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497, 86243, 110503, 132049, 216091, 756839, 859433};
struct Prog {
    const char * name;
    bool creator;
    std::vector<long> mexps;        // creators
    bool id;
    uint64_t maxId;
    const char * opts;              // single letters; upper case: with an argument
};
static const std::vector<long> M32 = {521, 607, 1279, 2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497};
static const std::vector<long> MSF = {607, 1279, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497};
static const std::vector<Prog> CREATORS = {
    {"mt2", true, M32, true, 0xffff, "vCSM"},
    {"mtgp", true, {3217, 4423, 11213, 23209, 44497, 110503, 216091}, true, 0xffffffffu, "vCSF"},
    {"tiny", true, {}, true, 0xffffffffu, "vCSMF"},
    {"rmt", true, M32, false, 0, "vCSF"},
    {"sfmtdc", true, MSF, false, 0, "vCSF"},
    {"sfmtfix", true, MSF, false, 0, "vCSF"},
    {"dsfmtdc", true, {521, 1279, 2203, 4253, 11213, 19937, 44497}, false, 0, "vCSFx"},
};
struct Anal {
    const char * name;
    const char * kind;      // rmt sfmt dsfmt
    size_t required;        // fields
    const char * flags;
};
static const std::vector<Anal> ANALYSES = {
    {"rmteq", "rmt", 6, ""}, {"rmtper", "rmt", 6, ""},
    {"sfmteq", "sfmt", 14, "vr"}, {"sfmtlin", "sfmt", 14, ""}, {"sfmtper", "sfmt", 14, ""}, {"sfmtpar", "sfmt", 10, "cv"},
    {"dsfmteq", "dsfmt", 9, "v"}, {"dsfmtlin", "dsfmt", 9, ""}, {"dsfmtper", "dsfmt", 9, ""}, {"dsfmtpar", "dsfmt", 7, "cv"},
    {"dsfmtfixp", "dsfmt", 5, "c"}, {"dsfmtold", "dsfmt", 9, ""},
};
static const char * TRUE_RMT = "521,8,d517cc6cb80f3089,6419c126c80d4911,7f94fffdd89c0000,fef563e000000000";
static const char * TRUE_SFMT = "607,2,21,7,12,1,eb9b3ff9,ffff5cfd,e7f7d4da,597fdffe,00000001,00000000,00000000,44f792c5";
static const char * TRUE_DSFMT = "521,1,9,0007e1ff7f98efb7,000e7ee4f7b3eff7,722aabd47bbc006f,8b38ce883896940d,0000000000001001,4088000000000000";

static std::string quoted(const Args& a) { std::string s; for (size_t i = 0; i < a.size(); i++) s += (i ? " '" : "'") + a[i] + "'"; return s; }
static bool reported(const std::string& e) {
    return e.find("runtime error:") != std::string::npos || e.find("AddressSanitizer") != std::string::npos ||
        e.find("uninitialised") != std::string::npos || e.find("Invalid read") != std::string::npos || e.find("Invalid write") != std::string::npos;
}
static void passOn(Case& c, const Out& o) {
    if (reported(o.err)) {
        c.count("children_with_sanitizer_reports");
        fprintf(stderr, "from %s\n%s\n", o.cmd.c_str(), o.err.c_str());
        fflush(stderr);
    }
}
static bool usage(const std::string& prog, const Out& o) {
    std::string path = gSan + "/" + prog, all = o.out + "\n" + o.err, plain = gPlain + "/" + prog;
    std::vector<std::string> l = lines(all);
    for (size_t i = 0; i < l.size(); i++)
        for (int k = 0; k < 2; k++) {
            const std::string& p = k ? plain : path;
            if (l[i].compare(0, p.size(), p) == 0 && (l[i].size() == p.size() || l[i][p.size()] == ' ')) return true;
        }
    return false;
}
// a line with at least five comma separated fields of numbers: a parameter set
static int sets(const std::string& out) {
    std::vector<std::string> l = lines(out);
    int n = 0;
    for (size_t i = 0; i < l.size(); i++) {
        std::vector<std::string> f = fields(l[i]);
        size_t hexes = 0;
        for (size_t j = 0; j < f.size(); j++) { uint64_t v; if (f[j].size() <= 16 && number(f[j], 16, v)) hexes++; }
        if (hexes >= 6) n++;
    }
    return n;
}
static Out exec(Case& c, const std::string& prog, const Args& a, bool memcheck, long cpu) {
    static const Args VGA = {"valgrind", "-q", "--tool=memcheck", "--error-limit=no", "--num-callers=24", "--leak-check=no", "--fullpath-after="};
    Out o = memcheck ? run(gPlain + "/" + prog, a, cpu, VGA) : run(gSan + "/" + prog, a, cpu);
    c.count(memcheck ? "runs_below_memcheck" : "runs_with_sanitizers");
    c.count("runs_" + prog);
    passOn(c, o);
    return o;
}
static void rejected(Case& c, const std::string& prog, const Args& a, const std::string& why, bool memcheck) {
    Out o = exec(c, prog, a, memcheck, 60);
    std::string d = prog + " " + quoted(a) + " (" + why + "): status " + S(o.status) + (o.cut ? " (cut)" : "") + ", stdout " + o.out.substr(0, 300) + ", stderr " + o.err.substr(0, 300);
    if (o.status == 66 && reported(o.err)) { c.eval(d, true); return; }      // ASan's own status: reported above
    c.check(o.status > 0 && o.status < 128 + 128 && o.status != 134, "bad-arguments-accepted", d);
    c.check(usage(prog, o), "no-usage-message", d);
    c.check(sets(o.out) == 0, "parameters-printed", d);
    c.count("rejected");
    c.eval(prog + quoted(a), true);
}
static void accepted(Case& c, const std::string& prog, const Args& a, int n, bool memcheck, long cpu, bool mayFail = false) {
    Out o = exec(c, prog, a, memcheck, cpu);
    std::string d = prog + " " + quoted(a) + ": status " + S(o.status) + (o.cut ? " (cut)" : "") + ", stdout " + o.out.substr(0, 300) + ", stderr " + o.err.substr(0, 300);
    if (o.cut || o.status == 1000 + SIGXCPU) { c.count("runs_cut_at_cpu_limit"); return; }
    if (o.status == 66 && reported(o.err)) { c.eval(d, true); return; }
    if (mayFail) c.check(o.status >= 0 && o.status < 256 && o.status != 134, "crash", d);
    else {
        c.check(o.status == 0, "good-arguments-rejected", d);
        c.check(!usage(prog, o), "usage-message-for-good-arguments", d);
    }
    if (n >= 0) c.check(sets(o.out) == n, "number-of-sets", d);
    c.count(mayFail ? "without_verdict" : "accepted");
    c.eval(prog + quoted(a), true);
}
static std::string num(Rng& r, bool any) {
    switch (any ? r.below(5) : r.below(3)) {
    case 0: return S(r.below(10));
    case 1: return S(r.below(100000));
    case 2: return S(r.below(0x7fffffff));
    case 3: return "0x" + hex(r.below(0xffffffffu));
    default: return S(r.below(0xffffffffu));
    }
}
static const char * longName(const Prog& p, char o) {
    bool tiny = std::string(p.name) == "tiny";
    switch (o) {
    case 'v': return "verbose";
    case 'C': return "count";
    case 'S': return tiny ? "start" : "seed";
    case 'M': return "max";
    case 'F': return std::string(p.name) == "mtgp" ? "output-file" : "file";
    case 'x': return "fixed";
    }
    return "?";
}
static void addOpt(Args& a, Rng& r, const Prog& p, char o, const std::string& v) {
    std::string l = std::string("--") + longName(p, o), s = std::string("-") + static_cast<char>(o >= 'a' ? o : o - 'A' + 'a');
    if (o == 'v') { a.push_back(r.chance(1, 2) ? l : s); return; }
    if (o == 'x') { a.push_back(v.empty() ? (r.chance(1, 2) ? l : s) : r.chance(1, 2) ? l + "=" + v : s + v); return; }
    switch (r.below(4)) {
    case 0: a.push_back(l + "=" + v); break;
    case 1: a.push_back(l); a.push_back(v); break;
    case 2: if (!v.empty()) { a.push_back(s + v); break; }
    // fall through
    default: a.push_back(s); a.push_back(v);
    }
}
static std::string good(Rng& r, const Prog& p, char o) {
    bool tiny = std::string(p.name) == "tiny", mtgp = std::string(p.name) == "mtgp";
    switch (o) {
    case 'S': return tiny ? S(r.chance(1, 4) ? UINT64_C(0x7fffffff) : r.below(0x7fffffff)) : mtgp ? "seed string " + S(r.next()) : num(r, true);
    case 'M': return S(r.below(2000));
    case 'F': return scratch() + "/p" + S(r.below(1000));
    case 'x': return r.chance(1, 3) ? "" : S(r.below(64));
    }
    return "0";
}
struct Vec { Args opts; std::vector<std::string> operands; };
static Vec valid(Rng& r, const Prog& p) {
    Vec v;
    addOpt(v.opts, r, p, 'C', "0");
    for (const char * o = p.opts; *o; o++) if (*o != 'C' && r.chance(1, 3)) addOpt(v.opts, r, p, *o, good(r, p, *o));
    if (!p.mexps.empty()) v.operands.push_back(S(r.pick(p.mexps)));
    if (p.id) {
        static const std::vector<uint64_t> b = {0, 1, 2};
        v.operands.push_back(S(r.chance(1, 4) ? p.maxId : r.chance(1, 3) ? r.pick(b) : r.below(p.maxId + 1)));
    }
    return v;
}
static Args joinVec(Rng& r, const Vec& v) {
    if (r.chance(1, 3)) { Args a = v.operands; a.insert(a.end(), v.opts.begin(), v.opts.end()); return a; }
    Args a = v.opts;
    a.insert(a.end(), v.operands.begin(), v.operands.end());
    return a;
}
static std::string notNumber(Rng& r, const std::string& n) {
    switch (r.below(7)) {
    case 0: return n + "x";
    case 1: return "x" + n;
    case 2: return "abc";
    case 3: return "";
    case 4: return n + " 1";
    case 5: return n + ".5";
    default: return n + "," + n;
    }
}
static void creatorCase(Case& c) {
    Rng& r = c.rng;
    const Prog& p = CREATORS[static_cast<size_t>(c.index) % CREATORS.size()];
    Vec v = valid(r, p);
    bool mem = c.index % 11 == 7;
    std::string opts = p.opts, name = p.name;
    // a value-taking option other than -f and the string seed
    std::vector<char> numeric;
    for (size_t i = 0; i < opts.size(); i++) if (opts[i] == 'C' || (opts[i] == 'S' && name != "mtgp") || opts[i] == 'M' || opts[i] == 'x') numeric.push_back(opts[i]);
    switch ((c.index / static_cast<long>(CREATORS.size())) % 10) {
    case 0: case 1: accepted(c, name, joinVec(r, v), 0, mem, 60); break;
    case 2: {                                               // exponent
        if (p.mexps.empty()) { rejected(c, name, {}, "no arguments", mem); break; }
        std::string good_ = v.operands[0];
        long m = atol(good_.c_str());
        std::vector<std::string> bad = {S(m + 1), S(m - 1), S(m + 2), "0", "-1", S(-m), S(m) + "0", "127", "31", S(m + (1l << 32)), S(m + (1l << 33)), S(static_cast<long>(UINT64_C(1) << 63)),
                                        "18446744073709551616", "99999999999999999999999", notNumber(r, good_), notNumber(r, good_), "0x" + hex(static_cast<uint64_t>(m)), S(r.below(50000)),
                                        S(MEX[r.below(MEX.size())]), S(MEX[r.below(MEX.size())]), S(MEX[r.below(MEX.size())]), S(MEX[r.below(MEX.size())]), S(MEX[r.below(MEX.size())]), S(MEX[r.below(MEX.size())])};
        v.operands[0] = r.pick(bad);
        if (v.operands[0] == S(m) || std::find(p.mexps.begin(), p.mexps.end(), atol(v.operands[0].c_str())) != p.mexps.end()) if (v.operands[0].find_first_not_of("0123456789") == std::string::npos) v.operands[0] = "520";
        rejected(c, name, v.operands[0][0] == '-' ? [&] { Args a = v.opts; a.push_back("--"); a.insert(a.end(), v.operands.begin(), v.operands.end()); return a; }() : joinVec(r, v), "exponent " + v.operands[0], mem);
        break;
    }
    case 3: {                                               // identifier
        if (!p.id) {
            Args a = v.opts;                                 // operand missing
            rejected(c, name, a, "no exponent", mem);
            break;
        }
        std::string good_ = v.operands.back();
        std::vector<std::string> bad = {"-1", "-2147483648", S(p.maxId + 1), S(p.maxId + 2), "4294967296", "4294967301", "8589934592", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
                                        "18446744073709551616", "99999999999999999999999", notNumber(r, good_), notNumber(r, good_), notNumber(r, good_)};
        v.operands.back() = r.pick(bad);
        Args a = v.opts;
        a.push_back("--");
        a.insert(a.end(), v.operands.begin(), v.operands.end());
        rejected(c, name, a, "identifier " + v.operands.back(), mem);
        break;
    }
    case 4: {                                               // operands missing
        v.operands.resize(r.below(v.operands.size()));
        rejected(c, name, joinVec(r, v), "operand missing", mem);
        break;
    }
    case 5: case 6: {                                       // option values
        char o = r.pick(numeric);
        std::string bad = notNumber(r, S(r.below(60)));
        if (r.chance(1, 4)) bad = "9999999999999999999999";
        if (o == 'x') { if (bad.empty()) bad = "q"; if (r.chance(1, 2)) bad = S(64 + r.below(r.chance(1, 2) ? 4 : 100000)); else if (r.chance(1, 3)) bad = S((UINT64_C(1) << 32) + r.below(60)); }
        if (o == 'S' && name == "tiny" && r.chance(1, 2)) {
            static const std::vector<std::string> b = {"2147483648", "4294967295", "4294967296", "4294967301", "18446744073709551615", "0x80000000", "0x100000000"};
            bad = r.pick(b);
        }
        Vec w = v;
        w.opts.clear();
        addOpt(w.opts, r, p, 'C', "0");
        size_t at = w.opts.size();
        addOpt(w.opts, r, p, o, bad);
        if (r.chance(1, 3)) std::rotate(w.opts.begin(), w.opts.begin() + static_cast<long>(at), w.opts.end());
        if (o == 'C') { w.opts.clear(); addOpt(w.opts, r, p, o, bad); }
        rejected(c, name, joinVec(r, w), "option value " + bad, mem);
        break;
    }
    case 7: {                                               // unknown options, missing option arguments
        static const std::vector<std::string> b = {"-q", "--nonsense", "-Z3", "-1", "--verbose=3", "-h", "--help"};
        Vec w = v;
        if (r.chance(1, 3)) {
            Args a = joinVec(r, w);
            a.insert(a.end(), r.chance(1, 2) ? "--count" : "-c");
            rejected(c, name, a, "missing option argument", mem);
        } else {
            w.opts.insert(w.opts.begin() + static_cast<long>(r.chance(1, 2) ? 0 : w.opts.size()), r.pick(b));
            rejected(c, name, joinVec(r, w), "unknown option", mem);
        }
        break;
    }
    case 8: {                                               // file that cannot be written
        if (opts.find('F') == std::string::npos) { rejected(c, name, {}, "no arguments", mem); break; }
        Vec w = v;
        w.opts.clear();
        addOpt(w.opts, r, p, 'C', "0");
        addOpt(w.opts, r, p, 'F', r.chance(1, 2) ? scratch() : scratch() + "/missing/out.txt");
        rejected(c, name, joinVec(r, w), "file cannot be written", mem);
        break;
    }
    default: {                                              // several flaws at once, and no arguments at all
        if (r.chance(1, 4)) { rejected(c, name, {}, "no arguments", mem); break; }
        Args a;
        int n = r.range(1, 5);
        static const std::vector<std::string> junk = {"", "-", "x", "-c", "-s", "-m", "--", "1e9", "%s%s%n", "-vq", "--seed", "\xff\xfe", "999999999999"};
        for (int i = 0; i < n; i++) a.push_back(r.chance(1, 6) ? std::string(5000, 'A') : r.pick(junk));
        a.insert(a.begin(), "-c");
        a.insert(a.begin() + 1, "none");
        rejected(c, name, a, "junk", mem);
    }
    }
}
static std::vector<std::string> split(const std::string& s) { return fields(s); }
static std::string join(const std::vector<std::string>& f, const std::string& sep = ",") {
    std::string s;
    for (size_t i = 0; i < f.size(); i++) s += (i ? sep : "") + f[i];
    return s;
}
static Args withFlags(Rng& r, const Anal& an, const std::string& params) {
    Args a;
    for (const char * f = an.flags; *f; f++) if (r.chance(1, 3)) a.push_back(std::string("-") + *f);
    a.push_back(params);
    return a;
}
static bool testProgram(const std::string& n);
static void analysisCase(Case& c) {
    Rng& r = c.rng;
    const Anal& an = ANALYSES[static_cast<size_t>(c.index) % ANALYSES.size()];
    std::string kind = an.kind, truth = kind == "rmt" ? TRUE_RMT : kind == "sfmt" ? TRUE_SFMT : TRUE_DSFMT;
    std::vector<std::string> f = split(truth);
    size_t decimals = kind == "rmt" ? 2 : kind == "sfmt" ? 6 : 3;
    bool mem = c.index % 13 == 5;
    bool getopts = !testProgram(an.name) && std::string(an.name) != "dsfmtper" && kind != "rmt";
    int what = static_cast<int>((c.index / static_cast<long>(ANALYSES.size())) % 7);
    if (testProgram(an.name)) { mem = false; if (what >= 1 && what <= 4) what = what == 4 ? 6 : what == 3 ? 0 : 5; }
    switch (what) {
    case 0: {                                               // true parameters, exactly the required fields or the whole printed line
        std::vector<std::string> g = f;
        if (r.chance(1, 2)) g.resize(an.required);
        else for (size_t i = r.below(3); i > 0; i--) g.push_back(S(r.below(900)));
        accepted(c, an.name, withFlags(r, an, join(g)), -1, mem, mem ? 120 : 60);
        break;
    }
    case 1: {                                               // fields missing at the end
        std::vector<std::string> g = f;
        g.resize(r.below(an.required));
        std::string s = join(g);
        if (r.chance(1, 3) && !s.empty()) s += ",";
        rejected(c, an.name, withFlags(r, an, s), "fields missing", mem);
        break;
    }
    case 2: {                                               // a field that is no number
        std::vector<std::string> g = f;
        size_t i = r.below(an.required);
        static const std::vector<std::string> b = {"", "x", "#", "%s", "zz", " ", "--"};
        g[i] = r.pick(b);
        if (i + 1 == an.required && r.chance(1, 2)) g.resize(an.required);
        std::string s = join(g);
        if (s[0] == '-') s = "x" + s;
        rejected(c, an.name, withFlags(r, an, s), "field " + S(i), mem);
        break;
    }
    case 3: {                                               // another separator
        static const std::vector<std::string> sep = {";", " ", ".", ":", "", "\t", "/"};
        std::vector<std::string> g = f;
        std::string s;
        size_t at = r.below(an.required - 1);
        std::string q = r.pick(sep);
        if (q.empty()) q = "|";
        for (size_t i = 0; i < g.size(); i++) s += g[i] + (i + 1 == g.size() ? "" : i == at ? q : ",");
        rejected(c, an.name, withFlags(r, an, s), "separator", mem);
        break;
    }
    case 4: {                                               // out of range
        std::vector<std::string> g = f;
        size_t i = r.below(decimals);
        long size = kind == "rmt" ? 521 / 64 : kind == "sfmt" ? 607 / 128 : (521 - 128) / 104;
        static const std::vector<std::string> big = {"-1", "4294967296", "18446744073709551616", "99999999999999999999999"};
        if (i == 0) { std::vector<std::string> b = big; b.push_back("0"); b.push_back("1"); b.push_back("31"); b.push_back("1000000"); b.push_back("2147483647"); g[0] = r.pick(b); }
        else if (i == 1) { std::vector<std::string> b = big; b.push_back(S(size + 1)); b.push_back("1000"); if (kind != "rmt") b.push_back("0"); g[1] = r.pick(b); }
        else if (kind == "dsfmt") { std::vector<std::string> b = big; b.push_back("64"); b.push_back("1000"); g[i] = r.pick(b); }
        else {
            std::vector<std::string> b = big;
            b.push_back("1000");
            if (i == 2 || i == 4) b.push_back("32"), b.push_back("33"); else b.push_back("16"), b.push_back("17");
            g[i] = r.pick(b);
        }
        if (i == 0 && g[0][0] == '-') g[0] = "18446744073709551617";
        if (kind == "sfmt" && r.chance(1, 5)) { g = f; g[6 + r.below(4)] = "100000000"; }
        rejected(c, an.name, withFlags(r, an, join(g)), "out of range", mem);
        break;
    }
    case 5: {                                               // well-formed, most likely without a large factor
        std::vector<std::string> g = f;
        long size = kind == "rmt" ? 521 / 64 : kind == "sfmt" ? 607 / 128 : (521 - 128) / 104;
        g[1] = S(r.range(kind == "rmt" && r.chance(1, 8) ? 0 : 1, static_cast<int>(size)));
        if (kind == "sfmt") { g[2] = S(r.below(32)); g[3] = S(r.range(1, 7)); g[4] = S(r.below(32)); g[5] = S(r.range(1, 7)); }
        if (kind == "dsfmt") g[2] = S(r.below(64));
        for (size_t i = decimals; i < g.size(); i++) {
            uint64_t x = r.next();
            if (r.chance(1, 4)) x = 0;
            if (r.chance(1, 6)) x = ~UINT64_C(0);
            if (kind == "sfmt") x &= 0xffffffffu;
            if (r.chance(1, 2) || i < decimals + 2) g[i] = hex(x);
        }
        accepted(c, an.name, withFlags(r, an, join(g)), -1, mem, mem ? 150 : 100, true);
        break;
    }
    default: {                                              // no argument, unknown option
        if (!getopts || r.chance(1, 3)) { rejected(c, an.name, {}, "no arguments", mem); break; }
        static const std::vector<std::string> b = {"-q", "-Z", "-h"};
        Args a(1, r.pick(b));
        a.push_back(truth);
        rejected(c, an.name, a, "unknown option", mem);
    }
    }
}
// The programs built from samples/*/test_*.cpp count as test files and are left as they are: what is wrong with them is recorded in
// known-findings.txt, by program and argument vector. They are run with good parameters as all the others are.
static bool testProgram(const std::string& n) { return n == "sfmtlin" || n == "sfmtper" || n == "dsfmtlin"; }
static void testProgramCase(Case& c) {
    static const char * P[] = {"sfmtlin", "sfmtper", "dsfmtlin"};
    std::string prog = P[c.index % 3];
    bool ds = prog == "dsfmtlin";
    std::vector<std::string> f = split(ds ? TRUE_DSFMT : TRUE_SFMT);
    long what = c.index / 3;
    Args a;
    if (what == 0) { a.push_back(join(f, ";")); }
    else if (what == 1) { f[ds ? 3 : 6] = "x"; a.push_back(join(f)); }
    else { f[2] = "1000"; a.push_back(join(f)); }
    Out o = run(gSan + "/" + prog, a, 60);
    std::string d = prog + " " + quoted(a) + ": status " + S(o.status) + ", stdout " + o.out.substr(0, 200) + ", stderr " + o.err.substr(0, 200);
    c.check(o.status > 0 && o.status < 128 && usage(prog, o) && !reported(o.err), "test-program-takes-bad-parameters:" + prog, d);
    c.eval(d, true);
    c.count("runs_of_test_programs");
}
// complete runs below the sanitizers and memcheck
static void fullRun(Case& c) {
    static const struct { const char * prog; const char * args; int n; int tier; } R[] = {
        {"tiny", "-c 1 7", 1, 0}, {"tiny", "-v -c 1 -m 3 4294967295", 1, 0}, {"dsfmtdc", "-c 1 -s 3 521", 1, 0}, {"dsfmtdc", "-c 1 -x -v -s 5 521", 1, 0},
        {"sfmtdc", "-c 1 -s 3 607", 1, 0}, {"sfmtfix", "-c 1 -s 3 607", 1, 1}, {"mt2", "-c 1 -s 3 521 5", 1, 0}, {"rmt", "-c 1 -s 2 521", 1, 0},
        {"x1", "", 0, 0}, {"x2", "", 0, 0}, {"x3", "", 0, 0}, {"x5", "", 0, 0}, {"x128", "", 0, 0}, {"mtgplin", "", 0, 0}, {"mt1", "", 0, 1}, {"x4", "", 0, 0},
        {"mtgp", "-c 1 -s abc 3217 1", 1, 1},
    };
    const size_t N = sizeof R / sizeof *R;
    size_t k = static_cast<size_t>(c.index) % N;
    bool mem = c.index >= static_cast<long>(N);
    if (R[k].tier && !c.h.thorough()) return;
    std::string n = R[k].prog;
    if (mem && !c.h.thorough() && (n == "mt2" || n == "rmt" || n == "sfmtdc" || n == "x4" || n == "x3")) return;
    if (mem && n == "mtgp") return;
    Args a;
    std::istringstream i(R[k].args);
    std::string w;
    while (i >> w) a.push_back(w);
    Out o = exec(c, n, a, mem, 400);
    std::string d = n + " " + quoted(a) + ": status " + S(o.status) + (o.cut ? " (cut)" : "") + ", stdout " + o.out.substr(0, 300) + ", stderr " + o.err.substr(0, 300);
    if (o.cut || o.status == 1000 + SIGXCPU) { c.count("runs_cut_at_cpu_limit"); return; }
    if (o.status == 66 && reported(o.err)) { c.eval(d, true); return; }
    c.check(o.status == 0, "status", d);
    if (R[k].n && std::string(R[k].args).find("-v") == std::string::npos) c.check(sets(o.out) == R[k].n, "number-of-sets", d);
    c.count("complete_runs");
    c.eval(n + quoted(a) + (mem ? " memcheck" : ""), true);
}
void runProperty(Harness& h) {
    gSan = h.bin.substr(0, h.bin.find(':'));
    gPlain = h.bin.substr(h.bin.find(':') + 1);
    h.group("full", 34, fullRun);
    h.group("test-programs", 9, testProgramCase);
    h.group("exponents", static_cast<long>(CREATORS.size() * MEX.size()), [](Case& c) {
        const Prog& p = CREATORS[static_cast<size_t>(c.index) % CREATORS.size()];
        long e = MEX[static_cast<size_t>(c.index) / CREATORS.size()];
        if (p.mexps.empty()) return;
        Vec v = valid(c.rng, p);
        v.operands[0] = S(e);
        if (std::find(p.mexps.begin(), p.mexps.end(), e) != p.mexps.end()) accepted(c, p.name, joinVec(c.rng, v), 0, false, 60);
        else rejected(c, p.name, joinVec(c.rng, v), "exponent " + S(e), false);
    });
    h.group("creator", h.n(1400, 14000), creatorCase);
    h.group("analysis", h.n(1000, 10000), analysisCase);
    removeScratch();
}
