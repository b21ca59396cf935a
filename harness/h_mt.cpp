// P14, P15 parameter generators against reference Mersenne Twisters, P16 the sequential counter
#define VERIF_MAIN
#include <memory>
#include <random>
#include "common.hpp"
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/MersenneTwister64.hpp>
#include <MTToolBox/Sequential.hpp>

using namespace MTToolBox;

// reference generators, block form as published
struct RefMT32 {
    typedef uint32_t word;
    std::vector<uint32_t> a;
    size_t i;
    RefMT32() : a(624), i(624) {}
    void seed(uint32_t s) {
        a[0] = s;
        for (uint32_t k = 1; k < 624; k++) a[k] = 1812433253u * (a[k - 1] ^ (a[k - 1] >> 30)) + k;
        i = 624;
    }
    void key(const std::vector<uint32_t>& key) {
        seed(19650218u);
        size_t p = 1, q = 0;
        for (size_t k = std::max<size_t>(624, key.size()); k; k--) {
            a[p] = (a[p] ^ ((a[p - 1] ^ (a[p - 1] >> 30)) * 1664525u)) + key[q] + static_cast<uint32_t>(q);
            if (++p == 624) { a[0] = a[623]; p = 1; }
            if (++q == key.size()) q = 0;
        }
        for (size_t k = 623; k; k--) {
            a[p] = (a[p] ^ ((a[p - 1] ^ (a[p - 1] >> 30)) * 1566083941u)) - static_cast<uint32_t>(p);
            if (++p == 624) { a[0] = a[623]; p = 1; }
        }
        a[0] = 0x80000000u;
        i = 624;
    }
    uint32_t next() {
        if (i == 624) {
            for (size_t k = 0; k < 624; k++) {
                uint32_t y = (a[k] & 0x80000000u) | (a[(k + 1) % 624] & 0x7fffffffu);
                a[k] = a[(k + 397) % 624] ^ (y >> 1) ^ ((y & 1) ? 0x9908b0dfu : 0);
            }
            i = 0;
        }
        uint32_t y = a[i++];
        y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; y ^= y >> 18;
        return y;
    }
};
struct RefMT64 {
    typedef uint64_t word;
    std::vector<uint64_t> a;
    size_t i;
    RefMT64() : a(312), i(312) {}
    void seed(uint64_t s) {
        a[0] = s;
        for (uint64_t k = 1; k < 312; k++) a[k] = 6364136223846793005ull * (a[k - 1] ^ (a[k - 1] >> 62)) + k;
        i = 312;
    }
    void key(const std::vector<uint64_t>& key) {
        seed(19650218ull);
        size_t p = 1, q = 0;
        for (size_t k = std::max<size_t>(312, key.size()); k; k--) {
            a[p] = (a[p] ^ ((a[p - 1] ^ (a[p - 1] >> 62)) * 3935559000370003845ull)) + key[q] + q;
            if (++p == 312) { a[0] = a[311]; p = 1; }
            if (++q == key.size()) q = 0;
        }
        for (size_t k = 311; k; k--) {
            a[p] = (a[p] ^ ((a[p - 1] ^ (a[p - 1] >> 62)) * 2862933555777941757ull)) - p;
            if (++p == 312) { a[0] = a[311]; p = 1; }
        }
        a[0] = 1ull << 63;
        i = 312;
    }
    uint64_t next() {
        if (i == 312) {
            for (size_t k = 0; k < 312; k++) {
                uint64_t y = (a[k] & 0xFFFFFFFF80000000ull) | (a[(k + 1) % 312] & 0x7FFFFFFFull);
                a[k] = a[(k + 156) % 312] ^ (y >> 1) ^ ((y & 1) ? 0xB5026F5AA96619E9ull : 0);
            }
            i = 0;
        }
        uint64_t y = a[i++];
        y ^= (y >> 29) & 0x5555555555555555ull; y ^= (y << 17) & 0x71D67FFFEDA60000ull;
        y ^= (y << 37) & 0xFFF7EEE000000000ull; y ^= y >> 43;
        return y;
    }
};
template<class R> struct Kit;
template<> struct Kit<RefMT32> {
    typedef MersenneTwister Gen; typedef std::mt19937 Std;
    static const bool wide = false;
    static uint32_t r32(RefMT32& r) { return r.next(); }
    static uint64_t r64(RefMT32& r) { uint64_t h = r.next(); return (h << 32) | r.next(); }
    static const uint64_t defaultSeed = 5489;
};
template<> struct Kit<RefMT64> {
    typedef MersenneTwister64 Gen; typedef std::mt19937_64 Std;
    static const bool wide = true;
    static uint32_t r32(RefMT64& r) { return static_cast<uint32_t>(r.next() >> 32); }
    static uint64_t r64(RefMT64& r) { return r.next(); }
    static const uint64_t defaultSeed = 19650218;
};
static void selfCheck() {
    RefMT32 a; a.key({0x123, 0x234, 0x345, 0x456});
    RefMT64 b; b.key({0x12345ull, 0x23456ull, 0x34567ull, 0x45678ull});
    if (a.next() != 1067595299u || b.next() != 7266447313870364031ull) throw std::string("reference generators are wrong");
}
template<class R> struct Pair {      // generator and its reference, moved together
    typedef typename Kit<R>::Gen G;
    typedef typename R::word W;
    std::unique_ptr<G> g;
    R ref;
    std::string hist;
    long draws;
    Pair() : draws(0) {}
    static uint64_t anySeed(Rng& r) {
        static const std::vector<uint64_t> e = {0, 1, 5489, 4357, 19650218, 0xffffffffu, 0x100000000ull, 0x100000000ull + 5489, ~0ull, 1ull << 63, 1ull << 31};
        return r.chance(1, 3) ? r.pick(e) : r.next() >> r.below(64);
    }
    static std::vector<W> anyKey(Rng& r) {
        static const std::vector<int> e = {1, 2, 3, 4, 311, 312, 313, 622, 623, 624, 625, 626, 935, 936, 1247, 1248, 1249, 2000};
        int n = r.chance(1, 2) ? r.pick(e) : r.range(1, 40);
        std::vector<W> k;
        int mode = r.range(0, 3);
        for (int i = 0; i < n; i++) k.push_back(mode == 0 ? 0 : mode == 1 ? static_cast<W>(~0ull) : static_cast<W>(r.next() >> (mode == 2 ? 48 : 0)));
        return k;
    }
    static std::string anyString(Rng& r) {
        static const std::vector<int> e = {1, 2, 311, 312, 313, 623, 624, 625, 700};
        int n = r.chance(1, 4) ? r.pick(e) : r.range(1, 60);
        std::string s;
        for (int i = 0; i < n; i++) s += static_cast<char>(r.chance(1, 8) ? r.range(1, 127) : r.range(32, 126));
        return s;
    }
    static std::vector<W> codes(const std::string& s) {
        std::vector<W> k;
        for (size_t i = 0; i < s.size(); i++) k.push_back(static_cast<W>(s[i]));
        return k;
    }
    // (re)seed in one of the public ways
    void start(Rng& r, bool fresh) {
        int w = r.range(0, fresh ? 6 : 5);
        if (!g) fresh = true;
        if (w <= 1) {
            uint64_t s = anySeed(r);
            hist += " int:" + hex(s);
            ref.seed(static_cast<W>(s));
            if (fresh && r.chance(1, 2)) g.reset(new G(static_cast<W>(s)));
            else {
                if (fresh) g.reset(new G());
                ParameterGenerator& b = *g;
                if (r.chance(1, 2)) b.seed(s); else g->seed(s);
            }
        } else if (w <= 3) {
            std::vector<W> k = anyKey(r);
            hist += " key" + S(k.size()) + ":" + hex(k[0]);
            ref.key(k);
            if (fresh && r.chance(1, 2)) g.reset(new G(k.data(), static_cast<int>(k.size())));
            else { if (fresh) g.reset(new G()); g->seed(k.data(), static_cast<int>(k.size())); }
        } else if (w == 4) {
            std::string k = anyString(r);
            hist += " str" + S(k.size()) + ":" + k.substr(0, 8);
            ref.key(codes(k));
            if (fresh && r.chance(1, 2)) g.reset(new G(k));
            else { if (fresh) g.reset(new G()); g->seed(k); }
        } else if (w == 5) {      // other element types through the public template
            std::vector<uint8_t> k8; std::vector<uint16_t> k16; std::vector<W> k;
            int n = r.range(1, 30);
            for (int i = 0; i < n; i++) { k16.push_back(static_cast<uint16_t>(r.next())); k8.push_back(static_cast<uint8_t>(r.next())); }
            if (fresh) g.reset(new G());
            if (r.chance(1, 2)) { g->template seed_array<uint8_t>(k8.data(), n); k.assign(k8.begin(), k8.end()); }
            else { g->template seed_array<uint16_t>(k16.data(), n); k.assign(k16.begin(), k16.end()); }
            hist += " arr" + S(n);
            ref.key(k);
        } else {
            hist += " default";
            g.reset(new G());
            ref.seed(static_cast<W>(Kit<R>::defaultSeed));
        }
        hist += ";";
    }
    bool draw(Case& c, int kind) {
        draws++;
        ParameterGenerator& b = *g;
        uint64_t got, want;
        if (kind == 0) { got = b.getUint32(); want = Kit<R>::r32(ref); }
        else if (kind == 1) { got = b.getUint64(); want = Kit<R>::r64(ref); }
        else if (kind == 2) { got = g->next(); want = ref.next(); }
        else if (kind == 3) { got = g->getUint32(); want = Kit<R>::r32(ref); }
        else { got = g->getUint64(); want = Kit<R>::r64(ref); }
        if (got != want) {
            c.fail("stream-differs", hist + " draw " + S(draws) + " kind " + S(kind) + ": " + hex(got) + ", reference " + hex(want));
            return false;
        }
        return true;
    }
};
template<class R> static void history(Case& c) {
    Rng& r = c.rng;
    typedef Pair<R> P;
    std::vector<std::unique_ptr<P> > ps(1);
    ps[0].reset(new P());
    ps[0]->start(r, true);
    int ops = r.range(3, 14);
    long total = 0;
    for (int k = 0; k < ops; k++) {
        P& p = *ps[r.below(ps.size())];
        int what = r.range(0, 9);
        if (what == 0) { p.start(r, false); c.count("reseeds_midstream"); }
        else if (what == 1 && ps.size() < 4) {
            std::unique_ptr<P> q(new P());
            q->ref = p.ref; q->hist = p.hist + " copy" + S(p.draws); q->draws = p.draws;
            if (r.chance(1, 2)) q->g.reset(new typename P::G(*p.g));
            else { q->g.reset(new typename P::G()); for (int i = r.range(0, 5); i > 0; i--) q->g->next(); *q->g = *p.g; }
            ps.push_back(std::move(q));
            c.count("copies");
        } else if (what == 2) { p.start(r, true); }
        else {
            static const std::vector<int> lens = {1, 2, 226, 227, 228, 311, 312, 313, 396, 397, 398, 399, 400, 401, 623, 624, 625, 1023, 1024, 1025, 1250, 2049};
            int n = r.chance(1, 2) ? r.pick(lens) : r.range(1, 400);
            int kind = r.range(0, 5);
            for (int i = 0; i < n; i++) { if (!p.draw(c, kind == 5 ? r.range(0, 4) : kind)) return; total++; }
        }
    }
    for (size_t i = 0; i < ps.size(); i++) for (int k = 0; k < 700; k++) { if (!ps[i]->draw(c, r.range(0, 4))) return; total++; }
    c.count("draws_compared", total);
    c.eval(ps[0]->hist, true);
}
template<class R> static void ints(Case& c) {      // every integer seed, against std:: as well
    Rng& r = c.rng;
    for (int k = 0; k < 20; k++) {
        uint64_t s = k < 4 ? static_cast<uint64_t>(c.index * 4 + k) : Pair<R>::anySeed(r);
        typename Kit<R>::Std st(static_cast<typename R::word>(s));
        typename Kit<R>::Gen g(static_cast<typename R::word>(s));
        for (int i = 0; i < 1300; i++) {
            uint64_t w = st(), x = g.next();
            if (w != x) { c.fail("stream-differs", "seed " + hex(s) + " output " + S(i) + ": " + hex(x) + ", std " + hex(w)); return; }
        }
        c.count("draws_compared", 1300);
        c.eval("int " + hex(s), true);
    }
}
template<class R> static void longRun(Case& c, long n, int fixed = -1) {
    Rng& r = c.rng;
    Pair<R> p;
    p.start(r, true);
    int kind = r.range(0, 2);
    if (fixed == 5) {          // without the frame of draw(): speed
        typename Kit<R>::Gen& g = *p.g;
        for (long i = 0; i < n; i++) {
            uint64_t got = g.next(), want = p.ref.next();
            if (got != want) { c.fail("stream-differs", p.hist + " draw " + S(i) + ": " + hex(got) + ", reference " + hex(want)); return; }
        }
    } else
    for (long i = 0; i < n; i++) if (!p.draw(c, kind)) return;
    c.count("draws_compared", n);
    c.count("max_stream_length", 0);
    c.h.counters["max_stream_length"] = std::max(c.h.counters["max_stream_length"], n);
    c.eval("long " + p.hist, true);
}
template<class R> static void mt(Harness& h) {
    selfCheck();
    h.group("ints", h.n(60, 4000), ints<R>);
    h.group("history", h.n(1500, 100000), history<R>);
    // one stream far beyond 2^24 draws (thorough: beyond 2^32)
    if (h.scale >= 0.9) h.group("verylong", 1, [&](Case& c) { longRun<R>(c, h.thorough() ? 4400000000L : 70000000L, 5); });
    h.group("long", h.n(8, 32), [&](Case& c) { longRun<R>(c, h.thorough() ? 100000000L : 3000000L); });
}

// ---------------------------------------------------------------- P16
template<class T> struct SeqModel {
    T status, mask;
    bool over;
    bool next(T& v) {
        if (over) return false;
        v = static_cast<T>(status ^ mask);
        if (status == 0) over = true; else status = static_cast<T>(status - 1);
        return true;
    }
};
template<class T> struct SeqPair {
    std::unique_ptr<Sequential<T> > g;
    SeqModel<T> m;
    std::string hist;
};
template<class T> static bool seqDraw(Case& c, SeqPair<T>& p, int kind) {
    T want = 0;
    bool ok = p.m.next(want);
    uint64_t got = 0;
    bool threw = false;
    ParameterGenerator& b = *p.g;
    uint64_t w = 0;
    try {
        switch (kind) {
        case 0: got = static_cast<uint64_t>(p.g->next()); w = static_cast<uint64_t>(want); break;
        case 1: got = p.g->getUint32(); w = static_cast<uint32_t>(want); break;
        case 2: got = p.g->getUint64(); w = static_cast<uint64_t>(want); break;
        case 3: got = b.getUint32(); w = static_cast<uint32_t>(want); break;
        default: got = b.getUint64(); w = static_cast<uint64_t>(want);
        }
    } catch (std::underflow_error& e) { threw = true; }
    c.count(threw ? "underflows_seen" : "draws_seen");
    if (threw == ok) { c.fail(ok ? "early-underflow" : "no-underflow", p.hist + " kind " + S(kind) + (ok ? "" : ", drew " + hex(got))); return false; }
    if (ok && got != w) { c.fail("wrong-value", p.hist + " kind " + S(kind) + ": " + hex(got) + ", expected " + hex(w)); return false; }
    return true;
}
template<class T> static void seqHistory(Case& c, bool isSigned) {
    Rng& r = c.rng;
    std::vector<std::unique_ptr<SeqPair<T> > > ps(1);
    ps[0].reset(new SeqPair<T>());
    const T posMax = isSigned ? static_cast<T>((UINT64_C(1) << (sizeof(T) * 8 - 1)) - 1) : static_cast<T>(~static_cast<T>(0));
    auto smallSeed = [&]() { return static_cast<T>(r.below(r.chance(1, 3) ? 3 : 60)) & posMax; };
    auto anySeed = [&]() { int k = r.range(0, 3); return static_cast<T>((k == 0 ? posMax : k == 1 ? static_cast<T>(r.next() & static_cast<uint64_t>(posMax)) : smallSeed())); };
    {
        SeqPair<T>& p = *ps[0];
        T mask = r.chance(1, 3) ? static_cast<T>(0) : static_cast<T>(r.next());
        p.m.mask = mask;
        p.m.over = false;
        int how = r.range(0, isSigned ? 1 : 3);
        if (how <= 1) { p.m.status = anySeed(); p.g.reset(new Sequential<T>(mask, p.m.status)); }
        else if (how == 2) { p.m.status = static_cast<T>(-1); p.g.reset(new Sequential<T>(mask)); }
        else { p.m.mask = 0; p.m.status = static_cast<T>(-1); p.g.reset(new Sequential<T>()); }
        p.hist = "ctor" + S(how) + " mask " + hex(static_cast<uint64_t>(p.m.mask)) + " seed " + hex(static_cast<uint64_t>(p.m.status)) + ";";
    }
    int ops = r.range(4, 40);
    for (int k = 0; k < ops; k++) {
        SeqPair<T>& p = *ps[r.below(ps.size())];
        switch (r.range(0, 6)) {
        case 0: {
            T s = anySeed();
            uint64_t big = static_cast<uint64_t>(s);
            int how = r.range(0, 3);
            if (how == 0) p.g->reseed(s);
            else if (how == 1 && sizeof(T) <= 4) p.g->seed(static_cast<uint32_t>(s));
            else if (how == 2) { ParameterGenerator& b = *p.g; b.seed(big); }
            else p.g->seed(big);
            p.m.status = s; p.m.over = false;
            p.hist += " reseed" + S(how) + " " + hex(big) + ";";
            break;
        }
        case 1: {
            if (ps.size() >= 5) break;
            std::unique_ptr<SeqPair<T> > q(new SeqPair<T>());
            q->g.reset(new Sequential<T>(*p.g));
            q->m = p.m;
            q->hist = p.hist + " copy;";
            ps.push_back(std::move(q));
            c.count("copies");
            break;
        }
        default: {
            int n = r.range(1, r.chance(1, 3) ? 80 : 8);
            p.hist += " draw" + S(n) + ";";
            for (int i = 0; i < n; i++) if (!seqDraw(c, p, r.range(0, 4))) return;
        }
        }
        if (p.hist.size() > 900) p.hist = "..." + p.hist.substr(p.hist.size() - 800);
    }
    for (size_t i = 0; i < ps.size(); i++) for (int k = 0; k < 5; k++) if (!seqDraw(c, *ps[i], r.range(0, 4))) return;
    c.eval(S(sizeof(T)) + ps[0]->hist, true);
}
template<class T> static void seqAll(Case& c, uint64_t seed) {   // the whole enumeration
    Rng& r = c.rng;
    T mask = static_cast<T>(r.next()), s = static_cast<T>(seed);
    Sequential<T> g(mask, s);
    std::vector<bool> seen(static_cast<size_t>(s) + 1, false);
    int kind = r.range(0, 4);
    SeqPair<T> p;
    p.g.reset(new Sequential<T>(g));
    p.m.status = s; p.m.mask = mask; p.m.over = false;
    p.hist = "enumeration of " + S(seed + 1) + " values";
    for (uint64_t i = 0; i <= static_cast<uint64_t>(s); i++) {
        if (!seqDraw(c, p, kind)) return;
        T v = static_cast<T>(g.next() ^ mask);
        if (v > s || seen[static_cast<size_t>(v)]) { c.fail("not-a-permutation", "value " + hex(static_cast<uint64_t>(v))); return; }
        seen[static_cast<size_t>(v)] = true;
    }
    for (int i = 0; i < 3; i++) if (!seqDraw(c, p, r.range(0, 4))) return;
    for (size_t i = 0; i < seen.size(); i++) if (!seen[i]) { c.fail("value-missing", S(i)); return; }
    c.count("values_enumerated", static_cast<long>(seen.size()));
    c.eval("all " + S(sizeof(T)) + " " + hex(seed) + " mask " + hex(static_cast<uint64_t>(mask)), true);
}
void runProperty(Harness& h) {
    if (h.prop == "P14") mt<RefMT32>(h);
    else if (h.prop == "P15") mt<RefMT64>(h);
    else if (h.prop == "P16") {
        h.group("all8", 256, [](Case& c) { seqAll<uint8_t>(c, static_cast<uint64_t>(c.index)); });
        h.group("all16", h.n(24, 2000), [](Case& c) { seqAll<uint16_t>(c, c.index == 0 ? 65535 : c.rng.below(65536)); });
        h.group("all32", h.n(4, 24), [&](Case& c) { seqAll<uint32_t>(c, c.index == 0 && h.scale >= 0.9 ? (h.thorough() ? 300000000 : 34000000) + c.rng.below(1000) : c.rng.below(h.thorough() ? 30000000 : 400000)); });
        h.group("history8", h.n(3000, 200000), [](Case& c) { seqHistory<uint8_t>(c, false); });
        h.group("history16", h.n(3000, 200000), [](Case& c) { seqHistory<uint16_t>(c, false); });
        h.group("history32", h.n(6000, 400000), [](Case& c) { seqHistory<uint32_t>(c, false); });
        h.group("history64", h.n(6000, 400000), [](Case& c) { seqHistory<uint64_t>(c, false); });
        h.group("historyInt", h.n(3000, 200000), [](Case& c) { seqHistory<int32_t>(c, true); });
    }
}
