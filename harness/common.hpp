// Harness frame: cases, verdicts, evidence counters, watchdog.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <sys/time.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <functional>
#include <stdexcept>
#include <exception>
#include <typeinfo>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += UINT64_C(0x9e3779b97f4a7c15));
        z = (z ^ (z >> 30)) * UINT64_C(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)) * UINT64_C(0x94d049bb133111eb);
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + static_cast<int>(below(static_cast<uint64_t>(b - a + 1))); }
    bool chance(int num, int den) { return static_cast<int>(below(static_cast<uint64_t>(den))) < num; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline uint64_t hashStr(const std::string& s) {
    uint64_t h = UINT64_C(1469598103934665603);
    for (size_t i = 0; i < s.size(); i++) { h ^= static_cast<unsigned char>(s[i]); h *= UINT64_C(1099511628211); }
    return h;
}
inline std::string jsonEsc(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        if (c == '"' || c == '\\') { r += '\\'; r += s[i]; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += s[i];
    }
    return r;
}
template<class T> std::string S(const T& x) { std::ostringstream o; o << x; return o.str(); }
inline std::string hex(uint64_t x) { char b[24]; snprintf(b, sizeof b, "%llx", (unsigned long long)x); return b; }

struct Harness;
struct Case {
    Harness& h;
    std::string name;
    long index;
    Rng rng;
    Case(Harness& hh, const std::string& n, long i, uint64_t seed) : h(hh), name(n), index(i), rng(seed) {}
    void fail(const std::string& key, const std::string& detail);
    bool check(bool ok, const std::string& key, const std::string& detail) {
        if (!ok) fail(key, detail);
        return ok;
    }
    void eval(const std::string& descriptor, bool nontrivial);  // one evaluation
    void count(const std::string& name, long n = 1);
    void sample(const std::string& s);
    void leak(long live, long expect, const std::string& what);
};

struct Harness {
    std::string prop, tier, filter, progress, bin;
    uint64_t seed;
    int shard, nshards;
    double scale;
    bool leaks;           // judge allocation balance (P21)
    long budget;          // CPU seconds per case
    long deadline;        // no new case after this many wall seconds (0: none)
    time_t start;
    long evals;
    std::set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, long> counters;
    long fails;
    long ncases;
    int pfd;
    FILE * out;           // real stdout: the library prints to cout, which is redirected
    char cur[512];
    Harness() : seed(1), shard(0), nshards(1), scale(1.0), leaks(false), budget(200), deadline(0), start(time(0)), evals(0), fails(0), ncases(0), pfd(-1), out(stdout) {}
    bool thorough() const { return tier == "thorough"; }
    long n(long quick, long thoroughN) const {
        double v = static_cast<double>(thorough() ? thoroughN : quick) * scale;
        return v < 1 ? 1 : static_cast<long>(v);
    }
    void group(const std::string& g, long cnt, const std::function<void(Case&)>& body);
    void finish();
};
extern Harness * gH;
static const int HANG_RC = 77;

#ifdef VERIF_MAIN
Harness * gH = 0;
// ---- growth monitor (--leaks): every case is run several times; blocks that stay alive after every repetition
// and were allocated below a frame of the code under test are reported with their allocation site.
#if defined(__SANITIZE_ADDRESS__)
#define VERIF_GROWTH 1
#include <dlfcn.h>
#include <sanitizer/asan_interface.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#include <sanitizer/common_interface_defs.h>
static const size_t HSZ = 1u << 22;
static const void ** gLive = 0;        // open addressing, tombstones = (void*)1
static bool gTrack = false;
static uint32_t gTouched[1u << 20];
static size_t gTouchedN = 0;
static long gLiveN = 0, gAllocs = 0;
static size_t hslot(const void * p) { return (reinterpret_cast<uintptr_t>(p) >> 4) * UINT64_C(0x9e3779b97f4a7c15) >> 42; }
static void onMalloc(const volatile void * q, size_t) {
    if (!gTrack || !q) return;
    const void * p = const_cast<const void *>(q);
    size_t i = hslot(p), k = 0;
    while (reinterpret_cast<uintptr_t>(gLive[i]) > 1 && k < HSZ) i = (i + 1) & (HSZ - 1), k++;
    gLive[i] = p;
    if (gTouchedN < (1u << 20)) gTouched[gTouchedN++] = static_cast<uint32_t>(i);
    gLiveN++;
    gAllocs++;
}
static void onFree(const volatile void * q) {
    if (!gTrack || !q) return;
    const void * p = const_cast<const void *>(q);
    for (size_t i = hslot(p), k = 0; gLive[i] && k < HSZ; i = (i + 1) & (HSZ - 1), k++)
        if (gLive[i] == p) { gLive[i] = reinterpret_cast<const void *>(1); gLiveN--; return; }
}
// (libbacktrace does not find the file of many functions defined in headers: those frames are looked up with addr2line)
static std::string lookUp(void * pc) {
    static std::map<void *, std::string> cache;
    std::map<void *, std::string>::iterator it = cache.find(pc);
    if (it != cache.end()) return it->second;
    char b[1024];
    __sanitizer_symbolize_pc(pc, "%f %s", b, sizeof b);
    std::string r = b;
    size_t n = r.size();
    if (n > 7 && r.compare(n - 6, 6, "<null>") == 0) {
        Dl_info di;
        if (dladdr(pc, &di) && di.dli_fname && di.dli_fbase) {
            char cmd[2048];
            snprintf(cmd, sizeof cmd, "addr2line -e '%s' 0x%zx 2>/dev/null", di.dli_fname, static_cast<size_t>(static_cast<char *>(pc) - static_cast<char *>(di.dli_fbase)) - 1);
            if (FILE * f = popen(cmd, "r")) {
                if (fgets(b, sizeof b, f)) { b[strcspn(b, ":\n")] = 0; r = r.substr(0, n - 6) + b; }
                pclose(f);
            }
        }
    }
    return cache[pc] = r;
}
static std::string siteOf(const void * p) {
    static std::map<std::vector<void *>, std::string> cache;
    void * tr[40];
    int tid;
    size_t n = __asan_get_alloc_stack(const_cast<void *>(p), tr, 40, &tid);
    std::vector<void *> key(tr, tr + n);
    if (cache.count(key)) return cache[key];
    std::string best;
    for (size_t i = 0; i < n && best.empty(); i++) {
        std::string b = lookUp(tr[i]);
        if (b.find(VERIF_REPO_DIR "/") != std::string::npos) best = b;
    }
    return cache[key] = best;
}
#endif
static void onProf(int) {
    static const char m[] = "HANG\n";
    ssize_t r = write(2, m, sizeof m - 1);
    (void)r;
    _exit(HANG_RC);
}
static void arm(long sec) {
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &t, 0);
}
void Case::fail(const std::string& key, const std::string& detail) {
    h.fails++;
    if (h.fails <= 40) {
        fprintf(h.out, "FAIL {\"key\": \"%s\", \"case\": \"%s\", \"detail\": \"%s\"}\n", jsonEsc(key).c_str(),
                jsonEsc(name).c_str(), jsonEsc(detail.substr(0, 1500)).c_str());
        fflush(h.out);
    }
}
void Case::eval(const std::string& d, bool nontrivial) {
    h.evals++;
    if (nontrivial) h.distinct.insert(hashStr(d));
    if (h.samples.size() < 4 && nontrivial) h.samples.push_back((name + ": " + d).substr(0, 400));
}
void Case::count(const std::string& n, long k) { h.counters[n] += k; }
void Case::leak(long live, long expect, const std::string& what) {
    count("balance_checks");
    if (live != expect && h.leaks) fail("leak:" + what, "objects alive " + std::to_string(live) + ", expected " + std::to_string(expect));
}
void Case::sample(const std::string& s) { if (h.samples.size() < 8) h.samples.push_back((name + ": " + s).substr(0, 600)); }
void Harness::group(const std::string& g, long cnt, const std::function<void(Case&)>& body) {
    for (long i = 0; i < cnt; i++) {
        std::string nm = g + "#" + std::to_string(i);
        if (!filter.empty()) { if (nm != filter && filter != g) continue; }
        else if ((static_cast<uint64_t>(i) + hashStr(g)) % static_cast<uint64_t>(nshards) != static_cast<uint64_t>(shard)) continue;
        if (deadline && time(0) - start > deadline) { counters["cases_cut_by_deadline"]++; continue; }
        ncases++;
        if (pfd >= 0) {
            int l = snprintf(cur, sizeof cur, "%-200s\n", nm.c_str());
            ssize_t r = pwrite(pfd, cur, static_cast<size_t>(l), 0);
            (void)r;
        }
        Case c(*this, nm, i, hashStr(nm) ^ (seed * UINT64_C(0x9e3779b97f4a7c15)));
        arm(budget);
        int reps = 1;
        long growth[8];
#ifdef VERIF_GROWTH
        if (leaks) {
            static bool init = false;
            if (!init) {
                init = true;
                gLive = static_cast<const void **>(calloc(HSZ, sizeof(void *)));
                __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
            }
            reps = 4;
        }
#endif
        for (int rep = 0; rep < reps; rep++) {
        if (rep) c.rng = Rng(hashStr(nm) ^ (seed * UINT64_C(0x9e3779b97f4a7c15)));
#ifdef VERIF_GROWTH
        if (leaks && rep == 0) {
            if (gTouchedN >= (1u << 20)) memset(gLive, 0, HSZ * sizeof(void *));
            else for (size_t q = 0; q < gTouchedN; q++) gLive[gTouched[q]] = 0;
            gTouchedN = 0;
            gLiveN = 0;
        }
        long live0 = gLiveN;
        size_t mark = gTouchedN;
        if (leaks) {
            gTrack = true;
        }
#endif
        try {
            body(c);
        } catch (std::exception& e) {
            c.fail("exception", std::string(typeid(e).name()) + ": " + e.what());
        } catch (std::exception * e) {
            c.fail("exception", std::string("pointer ") + typeid(*e).name() + ": " + e->what());
        } catch (const char * s) {
            c.fail("exception", std::string("string: ") + s);
        } catch (const std::string& s) {
            c.fail("exception", std::string("harness: ") + s);
        } catch (...) {
            c.fail("exception", "unknown exception");
        }
#ifdef VERIF_GROWTH
        if (leaks) {
            gTrack = false;
            growth[rep] = gLiveN - live0;   // a replaced cache entry balances
            if (rep + 1 == reps) {
                counters["growth_cases"]++;
                counters["growth_allocations_tracked"] += gAllocs;
                gAllocs = 0;
                bool all = true;
                for (int q = 1; q < reps; q++) if (growth[q] <= 0) all = false;
                if (all) {
                    std::map<std::string, long> sites;
                    std::set<uint32_t> last(gTouched + mark, gTouched + gTouchedN);
                    for (std::set<uint32_t>::iterator q = last.begin(); q != last.end(); ++q)
                        if (reinterpret_cast<uintptr_t>(gLive[*q]) > 1) { std::string w = siteOf(gLive[*q]); if (!w.empty()) sites[w]++; }
                    for (std::map<std::string, long>::iterator it = sites.begin(); it != sites.end(); ++it) {
                        counters["growth_sites"]++;
                        c.fail("leak:" + it->first.substr(0, it->first.find_first_of("(<")), S(it->second) + " blocks allocated in " + it->first + " stay alive after every repetition");
                    }
                }
            }
        }
#endif
        }
        (void)growth;
        arm(0);
    }
}
void Harness::finish() {
    std::string j = "STATS {\"evals\": " + std::to_string(evals) + ", \"cases\": " + std::to_string(ncases) +
        ", \"fails\": " + std::to_string(fails) + ", \"distinct\": [";
    bool first = true;
    size_t k = 0;
    for (std::set<uint64_t>::iterator it = distinct.begin(); it != distinct.end() && k < 200000; ++it, ++k) {
        j += (first ? "\"" : ",\"") + hex(*it) + "\"";
        first = false;
    }
    j += "], \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) j += (i ? ",\"" : "\"") + jsonEsc(samples[i]) + "\"";
    j += "], \"counters\": {";
    first = true;
    for (std::map<std::string, long>::iterator it = counters.begin(); it != counters.end(); ++it) {
        j += (first ? "\"" : ",\"") + jsonEsc(it->first) + "\": " + std::to_string(it->second);
        first = false;
    }
    j += "}}\n";
    fputs(j.c_str(), out);
    fflush(out);
}
void runProperty(Harness& h);
int main(int argc, char ** argv) {
    Harness h;
    gH = &h;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        std::string v = i + 1 < argc ? argv[i + 1] : "";
        if (a == "--prop") h.prop = v, i++;
        else if (a == "--tier") h.tier = v, i++;
        else if (a == "--seed") h.seed = strtoull(v.c_str(), 0, 10), i++;
        else if (a == "--shard") h.shard = atoi(v.c_str()), i++;
        else if (a == "--nshards") h.nshards = atoi(v.c_str()), i++;
        else if (a == "--case") h.filter = v, i++;
        else if (a == "--scale") h.scale = atof(v.c_str()), i++;
        else if (a == "--budget") h.budget = atol(v.c_str()), i++;
        else if (a == "--leaks") h.leaks = true;
        else if (a == "--deadline") h.deadline = atol(v.c_str()), i++;
        else if (a == "--bin") h.bin = v, i++;
        else if (a == "--progress") h.progress = v, i++;
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
    }
    // the library prints on cout/cerr: keep the report channel separate
    int fd = dup(1);
    h.out = fdopen(fd, "w");
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    if (!h.progress.empty()) h.pfd = open(h.progress.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    signal(SIGPROF, onProf);
    runProperty(h);
    h.finish();
    fflush(0);
    _exit(h.fails ? 1 : 0);
}
#endif
#endif
