// P22: the generator classes of the sample programs (32/64-bit words).
#define VERIF_MAIN
#include "common.hpp"
#include "gf2.hpp"
#include "contract.hpp"
#include "gens.hpp"
#include <random>
#include <iomanip>
#include <fstream>
#include <limits.h>
#include <errno.h>
#include <getopt.h>
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleEquidistribution.hpp>
#include <MTToolBox/AlgorithmCalculateParity.hpp>
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
#include <MTToolBox/AlgorithmPrimitivity.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>
#include <MTToolBox/ReducibleTemperingCalculatable.hpp>
#include <MTToolBox/ReducibleGenerator.hpp>
#include <MTToolBox/TemperingCalculatable.hpp>
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/MersenneTwister64.hpp>
#include <MTToolBox/Sequential.hpp>
#include <MTToolBox/period.hpp>
#include <MTToolBox/util.hpp>
#define main sample_main
namespace smt1 {
#include "samples/MTDC/mt1.cpp"
}
namespace smt2 {
#include "samples/MTDC/mt2.cpp"
}
namespace sxs1 {
#include "samples/XORSHIFT/xorshift-1.cpp"
}
namespace sxs2 {
#include "samples/XORSHIFT/xorshift-2.cpp"
}
namespace sxs3 {
#include "samples/XORSHIFT/xorshift-3.cpp"
}
namespace sxs4 {
#include "samples/XORSHIFT/xorshift-4.cpp"
}
namespace sxs5 {
#include "samples/XORSHIFT/xorshift-5.cpp"
}
#undef main
#include "samples/MTGPDC/MTGP32search.hpp"
#include "samples/TinyMTDC/tinymt32search.hpp"
#include "samples/RMT/rmt64.hpp"
#include "samples/XORSHIFT/xorshift128.h"      // names a parameter xor: -fno-operator-names

// a parameter generator handing out chosen values
template<class T> struct Script : public MTToolBox::ParameterGenerator {
    std::vector<uint64_t> v;
    size_t k;
    Script() : k(0) {}
    uint64_t nxt() { return k < v.size() ? v[k++] : 0; }
    uint32_t getUint32() { return static_cast<uint32_t>(nxt()); }
    uint64_t getUint64() { return nxt(); }
    void seed(uint64_t) {}
};
static std::vector<std::string> fields(const std::string& s) {
    std::vector<std::string> r(1);
    for (size_t i = 0; i < s.size(); i++) { if (s[i] == ',') r.push_back(""); else r.back() += s[i]; }
    return r;
}
static uint64_t num(const std::string& s, int base) {
    char * e = 0;
    uint64_t v = strtoull(s.c_str(), &e, base);
    if (s.empty() || *e) throw std::string("unreadable printed number '" + s + "'");
    return v;
}
// minimal polynomial of the output sequence of a prime-degree generator is irreducible of full degree
template<class G> static bool irreducibleOf(const G& g, int n, int bits) {
    std::shared_ptr<G> c(dynamic_cast<G *>(g.clone()));
    c->seed(static_cast<uint32_t>(12345));
    orc::Poly m;
    std::vector<uint8_t> s;
    for (int i = 0; i < 2 * n + 64; i++) s.push_back(static_cast<uint8_t>((c->generate() >> (bits - 1)) & 1));
    m = orc::minPolySeq(s);
    return m.deg() == n && orc::irreducible(m);
}
// remembered verdicts (the same parameters are used by many cases)
static bool irrCached(const std::string& key, const std::function<bool()>& f) {
    static std::map<std::string, bool> m;
    std::map<std::string, bool>::iterator it = m.find(key);
    if (it != m.end()) return it->second;
    return m[key] = f();
}

template<class GG, class UU> struct Base {
    typedef GG G;
    typedef UU U;
    typedef std::shared_ptr<G> P;
    static const bool rev = false;
    static const int npat = 0;
    static const bool onebit = false;
    static const bool zeroFresh = false;
    static const int seedBits = static_cast<int>(sizeof(UU)) * 8;
    static void seedFlip(G& g, uint64_t v, int bit) { g.seed(static_cast<UU>(static_cast<UU>(v) ^ (static_cast<UU>(1) << bit))); }
    static int mexp(G&) { return -1; }
    static int printedMexp(G&) { return -1; }
    static const bool revTold = false;
    static bool isRev(G&) { return false; }
    static std::string range(G&) { return ""; }
    static void setRev(G&, bool) {}
    static void pattern(G&, U, U, int) {}
    static void apply(G&) {}
    static std::vector<U> printedPatterns(const std::string&) { return std::vector<U>(); }
    static U patternMask(int) { U u; memset(&u, 0xff, sizeof u); return u; }
    static void oneBit(G&, int) {}
    static std::vector<U> predict(G&, int) { return std::vector<U>(); }
    static P rebuild(G&) { return P(); }
    static P fresh(const G&) { return P(); }
    static bool sameText(const std::string& a, const std::string& b) { return a == b; }
    static int spanOutputs(int n) { return n / (static_cast<int>(sizeof(U)) * 8) + 4; }
};

// ---------------------------------------------------------------- MT
struct AMt1 : public Base<smt1::MT19937, uint32_t> {
    static const char * name() { return "MT19937"; }
    static P make(Rng& r, bool& irr) { irr = true; return P(new G(static_cast<uint32_t>(r.next()))); }
    static void seed(G& g, uint64_t v) { g.seed(static_cast<uint32_t>(v)); }
    static P fresh(const G&) { return P(new G(7)); }
};
static uint32_t unRight(uint32_t y, int s) { uint32_t x = y; for (int i = 0; i < 32 / s + 1; i++) x = y ^ (x >> s); return x; }
static uint32_t unLeft(uint32_t y, int s, uint32_t m) { uint32_t x = y; for (int i = 0; i < 32 / s + 1; i++) x = y ^ ((x << s) & m); return x; }
struct AMt2 : public Base<smt2::MT32Search, uint32_t> {
    static const char * name() { return "MT32Search"; }
    static const bool rev = true;
    static const int npat = 2;
    static P make(Rng& r, bool& irr) {
        static const struct { int mexp, id, pos; uint32_t a; } T[] = {
            {521, 1, 13, 0xd8a60001}, {521, 2, 4, 0xfd4f0002}, {521, 3, 4, 0x94510003}, {607, 1, 10, 0xa3d10001}, {607, 2, 8, 0x8ea00002},
            {607, 3, 8, 0x914c0003}, {1279, 1, 4, 0xa9140001}, {1279, 2, 12, 0x84900002}, {1279, 3, 24, 0x89830003}};
        if (r.chance(1, 2)) {
            int i = r.range(0, small() ? 5 : 8);
            P g(new G(T[i].mexp, T[i].id, T[i].pos, T[i].a, static_cast<uint32_t>(r.next()), static_cast<uint32_t>(r.next()), static_cast<uint32_t>(r.next())));
            irr = irrCached("mt2 " + S(i), [&]() { return irreducibleOf(*g, T[i].mexp, 32); });
            return g;
        }
        static const int M[] = {521, 607, 1279, 2203, 2281, 3217, 4253, 4423};
        int id = r.chance(1, 4) ? r.pick(std::vector<int>{0, 1, 0x7fff, 0x8000, 0xfffe, 0xffff}) : r.range(0, 0xffff);
        P g(new G(M[r.range(0, small() ? 1 : 7)], id, static_cast<uint32_t>(r.next())));
        g->setUpParam(*paramStream(r));
        irr = false;
        for (int i = 0; i < 2; i++) g->setTemperingPattern(~UINT32_C(0), static_cast<uint32_t>(r.next()), i);
        return g;
    }
    static const bool revTold = true;
    static bool isRev(G& g) { return g.isReverseOutput(); }
    static std::string range(G& g) {
        std::vector<std::string> f = fields(g.getParamString());
        uint64_t N = num(f.at(0), 10) / 32 + 1, pos = num(f.at(2), 10);
        if (pos < 1 || pos >= N) return "position " + S(pos);
        return (num(f.at(3), 16) & 0xffff) == num(f.at(1), 10) ? "" : "identifier not in the matrix";
    }
    static bool& small() { static bool b = false; return b; }
    static void seed(G& g, uint64_t v) { g.seed(static_cast<uint32_t>(v)); }
    static void setRev(G& g, bool b) { if (b) g.setReverseOutput(); else g.resetReverseOutput(); }
    static void pattern(G& g, U m, U p, int i) { g.setTemperingPattern(m, p, i); }
    static std::vector<U> printedPatterns(const std::string& s) {
        std::vector<std::string> f = fields(s);
        return std::vector<U>{static_cast<U>(num(f.at(4), 16)), static_cast<U>(num(f.at(5), 16))};
    }
    static P rebuild(G& g) {
        std::vector<std::string> f = fields(g.getParamString());
        if (f.size() < 6) throw std::string("printed parameters: " + g.getParamString());
        return P(new G(static_cast<int>(num(f[0], 10)), static_cast<int>(num(f[1], 10)), static_cast<int>(num(f[2], 10)), static_cast<U>(num(f[3], 16)), static_cast<U>(num(f[4], 16)), static_cast<U>(num(f[5], 16)), 1));
    }
    static P fresh(const G& g) { P t(new G(g)); return rebuild(*t); }
    static std::vector<U> predict(G& g, int n) {
        std::vector<std::string> f = fields(g.getParamString());
        int mexp = static_cast<int>(num(f.at(0), 10)), pos = static_cast<int>(num(f.at(2), 10));
        uint32_t a = static_cast<U>(num(f.at(3), 16)), b = static_cast<U>(num(f.at(4), 16)), cc = static_cast<U>(num(f.at(5), 16));
        size_t N = static_cast<size_t>(mexp / 32 + 1);
        int r = static_cast<int>(N) * 32 - mexp;
        uint32_t up = 0xffffffffu << r;
        std::vector<U> out, x;
        for (size_t i = 0; i < static_cast<size_t>(n); i++) {
            if (i < N) {
                uint32_t y = g.generate();
                out.push_back(y);
                y = unRight(y, 18);
                y = unLeft(y, 15, cc);
                y = unLeft(y, 7, b);
                x.push_back(unRight(y, 12));
                continue;
            }
            uint32_t y = (x[i - N] & up) | (x[i - N + 1] & ~up);
            y = x[i - N + static_cast<size_t>(pos)] ^ (y >> 1) ^ ((y & 1) ? a : 0);
            x.push_back(y);
            y ^= y >> 12;
            y ^= (y << 7) & b;
            y ^= (y << 15) & cc;
            y ^= y >> 18;
            out.push_back(y);
        }
        return out;
    }
};
// ---------------------------------------------------------------- MTGP
struct AMtgp : public Base<mtgp::mtgp32, uint32_t> {
    static const char * name() { return "mtgp32"; }
    static const bool rev = true;
    static const int npat = 4;
    static bool& small() { static bool b = false; return b; }
    static P build(int mexp, uint32_t id, int pos, const uint32_t * tbl, const uint32_t * tmp) {
        P g(new G(mexp, id));
        Script<int> s;
        s.v.push_back(static_cast<uint64_t>(pos - 3));
        for (int i = 0; i < 4; i++) s.v.push_back(tbl[i]);
        g->setUpParam(s);
        for (int i = 0; i < 4; i++) g->setTemperingPattern(~UINT32_C(0), tmp[i], i);
        g->setUpTempering();
        return g;
    }
    static P make(Rng& r, bool& irr) {
        static const struct { int mexp, pos; uint32_t id, t[4]; } T[] = {
            {521, 7, 1, {0x7ccd82d3, 0x7021d87d, 0x79e0001a, 0xdef3}}, {521, 7, 2, {0xd7dd44c0, 0x58bd2cca, 0x2c400027, 0x1b1c}},
            {521, 5, 3, {0x15559592, 0xdfa978ce, 0x74d00036, 0xdf7c}}, {607, 6, 1, {0x64fdd2a, 0x97615236, 0xf5d00015, 0xe1f0}},
            {607, 6, 2, {0x1554db02, 0xfe46cf7f, 0xa2100028, 0x611d}}, {607, 5, 3, {0x767d6ed0, 0xdad0b6ee, 0x37700030, 0xa51f}},
            {1279, 18, 1, {0x456e740c, 0xb3200dfc, 0x8fd00011, 0x6cf}}};
        uint32_t tmp[4];
        for (int i = 0; i < 4; i++) tmp[i] = static_cast<uint32_t>(r.next()) & (r.chance(1, 3) ? 0 : ~0u);
        if (r.chance(1, 2)) {
            int i = r.range(0, small() ? 5 : 6);
            P g = build(T[i].mexp, T[i].id, T[i].pos, T[i].t, tmp);
            irr = irrCached("mtgp " + S(i), [&]() { uint32_t z[4] = {0, 0, 0, 0}; return irreducibleOf(*build(T[i].mexp, T[i].id, T[i].pos, T[i].t, z), T[i].mexp, 32); });
            return g;
        }
        static const int M[] = {521, 607, 1279, 2203, 2281, 3217, 4423};
        P g(new G(M[r.range(0, small() ? 1 : 6)], static_cast<uint32_t>(r.next())));
        g->setUpParam(*paramStream(r));
        for (int i = 0; i < 4; i++) g->setTemperingPattern(~UINT32_C(0), tmp[i], i);
        g->setUpTempering();
        irr = false;
        return g;
    }
    static void seed(G& g, uint64_t v) { g.seed(static_cast<uint32_t>(v)); }
    static void setRev(G& g, bool b) { if (b) g.setReverseOutput(); else g.resetReverseOutput(); }
    static void pattern(G& g, U m, U p, int i) { g.setTemperingPattern(m, p, i); }
    static const bool revTold = true;
    static bool isRev(G& g) { return g.isReverseOutput(); }
    static std::string range(G& g) {
        std::vector<std::string> f = parse(g);
        uint64_t N = num(f[1], 10) / 32 + 1, id = num(f[3], 10), pos = num(f[4], 10), sh1 = num(f[5], 10), sh2 = num(f[6], 10);
        if (pos < 3 || pos >= N - 1) return "position " + S(pos);
        if (sh1 < 1 || sh1 > 31 || sh2 < 1 || sh2 > 31) return "shifts";
        if (((num(f[9], 16) >> 4) & 0xffff) != (id & 0xffff) || (num(f[10], 16) >> 16) != (id >> 16)) return "identifier not in the table";
        return "";
    }
    static void apply(G& g) { g.setUpTempering(); }
    // "sha1",mexp,type,id,pos,sh1,sh2,tbl x 4,tmp x 4,mask
    static std::vector<std::string> parse(G& g) {
        std::vector<std::string> f = fields(g.getParamString());
        if (f.size() < 16 || f[2] != "uint32_t") throw std::string("printed parameters: " + g.getParamString());
        return f;
    }
    static std::vector<U> printedPatterns(const std::string& s) {
        std::vector<std::string> f = fields(s);
        std::vector<U> r;
        for (size_t i = 0; i < 4; i++) r.push_back(static_cast<U>(num(f.at(11 + i), 16)));
        return r;
    }
    static P rebuild(G& g) {
        std::vector<std::string> f = parse(g);
        uint32_t tbl[4], tmp[4];
        for (size_t i = 0; i < 4; i++) tbl[i] = static_cast<U>(num(f[7 + i], 16)), tmp[i] = static_cast<U>(num(f[11 + i], 16));
        return build(static_cast<int>(num(f[1], 10)), static_cast<U>(num(f[3], 10)), static_cast<int>(num(f[4], 10)), tbl, tmp);
    }
    static P fresh(const G& g) { P t(new G(g)); return rebuild(*t); }
    // the leading "sha1" field is a digest over the printed line, filled in by the caller
    static bool sameText(const std::string& a, const std::string& b) { return a.substr(a.find(',')) == b.substr(b.find(',')); }
    static std::vector<U> predict(G& g, int n) {
        std::vector<std::string> f = parse(g);
        size_t mexp = num(f[1], 10), pos = num(f[4], 10);
        int sh1 = static_cast<int>(num(f[5], 10)), sh2 = static_cast<int>(num(f[6], 10));
        uint32_t tb[16], tp[16], mask = static_cast<U>(num(f[15], 16));
        size_t N = mexp / 32 + 1;
        if (mask != (0xffffffffu << (32 * N - mexp))) throw std::string("printed mask " + f[15]);
        for (size_t i = 0; i < 16; i++) {
            tb[i] = tp[i] = 0;
            for (size_t j = 0; j < 4; j++)
                if ((i >> j) & 1) tb[i] ^= static_cast<U>(num(f[7 + j], 16)), tp[i] ^= static_cast<U>(num(f[11 + j], 16));
        }
        std::vector<U> out, x;
        P raw(new G(g));
        for (int i = 0; i < 4; i++) raw->setTemperingPattern(~UINT32_C(0), 0, i);
        raw->setUpTempering();
        for (size_t i = 0; i < static_cast<size_t>(n); i++) {
            if (i < N) { x.push_back(raw->generate()); out.push_back(g.generate()); continue; }
            uint32_t y = (x[i - N] & mask) ^ x[i - N + 1];
            y ^= y << sh1;
            y ^= x[i - N + pos] >> sh2;
            y ^= tb[y & 15];
            x.push_back(y);
            uint32_t t = x[i - N + pos - 1 + (pos == 0 ? N : 0)];
            t ^= t >> 16;
            t ^= t >> 8;
            out.push_back(y ^ tp[t & 15]);
        }
        return out;
    }
};
// ---------------------------------------------------------------- TinyMT
struct ATiny : public Base<tinymt::tinymt32, uint32_t> {
    static const char * name() { return "tinymt32"; }
    static const bool rev = true;
    static const int npat = 1;
    static P build(uint32_t id, uint32_t m1, uint32_t m2, uint32_t t) {
        tinymt::tinymt32_param p;
        p.id = id;
        p.mat1 = m1;
        p.mat2 = m2;
        p.tmat = t;
        return P(new G(p));
    }
    static P make(Rng& r, bool& irr) {
        static const uint32_t T[][3] = {{0, 0x8d1011a2, 0xff483fd3}, {1, 0x92081240, 0x79d01e75}, {2, 0xbd6f17af, 0x3e808fa1}, {3, 0x0f5d01e8, 0xb4f06d3d}};
        irr = false;
        P g;
        if (!wildParams() && r.chance(1, 2)) {
            int i = r.range(0, 3);
            g = build(T[i][0], T[i][1], T[i][2], static_cast<uint32_t>(r.next()));
            irr = irrCached("tiny " + S(i), [&]() { return irreducibleOf(*build(T[i][0], T[i][1], T[i][2], 0), 127, 32); });
        } else {
            g = P(new G(r.chance(1, 4) ? (r.chance(1, 2) ? 0 : ~UINT32_C(0)) : static_cast<uint32_t>(r.next())));
            g->setUpParam(*paramStream(r));
            g->setTemperingPattern(~UINT32_C(0), static_cast<uint32_t>(r.next()), 0);
        }
        seed(*g, r.next() | 1);
        return g;
    }
    static void seed(G& g, uint64_t v) { g.seed(static_cast<uint32_t>(v)); }
    static void setRev(G& g, bool b) { if (b) g.setReverseOutput(); else g.resetReverseOutput(); }
    static void pattern(G& g, U m, U p, int i) { g.setTemperingPattern(m, p, i); }
    static const bool revTold = true;
    static bool isRev(G& g) { return g.isReverseOutput(); }
    static std::string range(G& g) {
        std::vector<std::string> f = fields(g.getParamString());
        uint32_t id = static_cast<U>(num(f.at(0), 10)), m1 = static_cast<U>(num(f.at(1), 16)), m2 = static_cast<U>(num(f.at(2), 16)), a, b;
        g.get_mat(&a, &b);
        if (a != m1 || b != m2 || g.get_param().mat1 != m1 || g.get_param().mat2 != m2 || g.get_param().id != id || g.get_param().tmat != num(f.at(3), 16)) return "parameters told differ from those printed";
        if (!wildParams()) return "";       // parameters not made by setUpParam
        // the identifier is encoded in the matrices, so that different identifiers never share parameters
        uint32_t x = m1 ^ (m1 >> 19), y = m2 ^ 1;
        y ^= y << 18;
        return (x & 0xffff) == (id & 0xffff) && (y >> 16) == (id >> 16) ? "" : "identifier not in the matrices";
    }
    static std::vector<U> printedPatterns(const std::string& s) { return std::vector<U>{static_cast<U>(num(fields(s).at(3), 16))}; }
    static P rebuild(G& g) {
        std::vector<std::string> f = fields(g.getParamString());
        return build(static_cast<U>(num(f.at(0), 10)), static_cast<U>(num(f.at(1), 16)), static_cast<U>(num(f.at(2), 16)), static_cast<U>(num(f.at(3), 16)));
    }
    static P fresh(const G& g) { P t(new G(g)); return rebuild(*t); }
    static std::vector<U> predict(G& g, int n) {
        std::vector<std::string> f = fields(g.getParamString());
        uint32_t m1 = static_cast<U>(num(f.at(1), 16)), m2 = static_cast<U>(num(f.at(2), 16)), tm = static_cast<U>(num(f.at(3), 16));
        uint32_t s[4];
        for (int i = 0; i < 4; i++) s[i] = g.get_status(i);
        std::vector<U> out;
        for (int i = 0; i < n; i++) {       // the published TinyMT32 with shifts 1, 10, 8
            uint32_t y = s[3], x = (s[0] & 0x7fffffffu) ^ s[1] ^ s[2];
            x ^= x << 1;
            y ^= (y >> 1) ^ x;
            s[0] = s[1];
            s[1] = s[2] ^ ((y & 1) ? m1 : 0);
            s[2] = x ^ (y << 10) ^ ((y & 1) ? m2 : 0);
            s[3] = y;
            uint32_t t1 = s[0] ^ (s[2] >> 8);
            out.push_back(s[3] ^ t1 ^ ((t1 & 1) ? tm : 0));
        }
        return out;
    }
};
// ---------------------------------------------------------------- RMT
struct ARmt : public Base<RMT64Search, uint64_t> {
    static const char * name() { return "RMT64Search"; }
    static const bool rev = true;
    static const int npat = 2;
    static const bool onebit = true;
    static P make(Rng& r, bool& irr) {
        static const int M[] = {521, 607, 1279, 2203};
        irr = false;
        P g(new G(M[r.range(0, r.chance(1, 4) ? 3 : 1)], r.next()));
        g->setUpParam(*paramStream(r));
        for (int i = 0; i < 2; i++) g->setTemperingPattern(~UINT64_C(0), r.next(), i);
        return g;
    }
    static void seed(G& g, uint64_t v) { g.seed(v); }
    static void setRev(G& g, bool b) { if (b) g.setReverseOutput(); else g.resetReverseOutput(); }
    static void pattern(G& g, U m, U p, int i) { g.setTemperingPattern(m, p, i); }
    static std::vector<U> printedPatterns(const std::string& s) {
        std::vector<std::string> f = fields(s);
        return std::vector<U>{num(f.at(4), 16), num(f.at(5), 16)};
    }
    static const bool revTold = true;
    static bool isRev(G& g) { return g.isReverseOutput(); }
    static int mexp(G& g) { return g.getMexp(); }
    static int printedMexp(G& g) { return static_cast<int>(num(fields(g.getParamString()).at(0), 10)); }
    static std::string range(G& g) {
        std::vector<std::string> f = fields(g.getParamString());
        uint64_t N = num(f.at(0), 10) / 64 + 1, pos = num(f.at(1), 10);
        return pos < N ? "" : "position " + S(pos);
    }
    // the masks are used after left shifts by 17 and 37: their low bits have no meaning and are not printed
    static U patternMask(int i) { return i == 0 ? ~UINT64_C(0) << 17 : ~UINT64_C(0) << 37; }
    static void oneBit(G& g, int i) { g.setOneBit(i); }
    static P rebuild(G& g) {
        std::vector<std::string> f = fields(g.getParamString());
        return P(new G(static_cast<int>(num(f.at(0), 10)), static_cast<int>(num(f.at(1), 10)), num(f.at(2), 16), num(f.at(4), 16), num(f.at(5), 16), 1));
    }
    static P fresh(const G& g) { P t(new G(g)); return rebuild(*t); }
    static bool sameText(const std::string& a, const std::string& b) {      // the certification word is not a constructor argument
        std::vector<std::string> x = fields(a), y = fields(b);
        x.at(3) = y.at(3) = "";
        return x == y;
    }
    static std::vector<U> predict(G& g, int n) {
        std::vector<std::string> f = fields(g.getParamString());
        size_t N = num(f.at(0), 10) / 64 + 1, pos = num(f.at(1), 10);
        uint64_t a = num(f.at(2), 16), mb = num(f.at(4), 16), mc = num(f.at(5), 16);
        std::vector<U> x, out;
        for (size_t i = 0; i < static_cast<size_t>(n); i++) {
            if (i < N) { g.generate(); x.push_back(g.getParityValue()); }
            else {
                uint64_t y = x[i - N + pos];
                y ^= y << 17;
                x.push_back(y ^ (x[i - N] >> 1) ^ ((x[i - N] & 1) ? a : 0));
            }
            uint64_t z = x.back();
            z ^= (z >> 29) & UINT64_C(0x5555555555555555);
            z ^= (z << 17) & mb;
            z ^= (z << 37) & mc;
            z ^= z >> 43;
            out.push_back(z);
        }
        return out;
    }
};
// ---------------------------------------------------------------- xorshift
template<class GG> struct AXs : public Base<GG, uint32_t> {
    typedef Base<GG, uint32_t> B;
    static typename B::P plain(Rng& r) { return typename B::P(new GG(static_cast<uint32_t>(r.next()))); }
    static void seed(GG& g, uint64_t v) { g.seed(static_cast<uint32_t>(v)); }
    template<class F> static std::vector<uint32_t> follow(GG& g, int n, F f) {
        std::vector<uint32_t> o;
        for (int i = 0; i < n; i++) {
            if (i < 4) o.push_back(g.generate());
            else o.push_back(f(o[static_cast<size_t>(i) - 4], o[static_cast<size_t>(i) - 1]));
        }
        return o;
    }
};
static uint32_t xsStep(uint32_t x, uint32_t w, int a, int b, int c) { uint32_t t = x ^ (x << a); return (w ^ (w >> c)) ^ (t ^ (t >> b)); }
struct AXs2 : public AXs<sxs2::XorShift> {
    static const char * name() { return "XorShift-2"; }
    static P make(Rng& r, bool& irr) { irr = true; return plain(r); }   // 5,14,1: full period over F2^128
    static P fresh(const G&) { return P(new G(3)); }
    static std::vector<U> predict(G& g, int n) { return follow(g, n, [](uint32_t x, uint32_t w) { return xsStep(x, w, 5, 14, 1); }); }
};
struct AXs3 : public AXs<sxs3::XorShift> {
    static const char * name() { return "XorShift-3"; }
    static P make(Rng& r, bool& irr) { irr = false; P g = plain(r); g->setUpParam(*paramStream(r)); return g; }
    static std::vector<U> predict(G& g, int n) {
        std::vector<std::string> f = fields(g.getParamString());
        int a = static_cast<int>(num(f.at(0), 10)), b = static_cast<int>(num(f.at(1), 10)), c = static_cast<int>(num(f.at(2), 10));
        return follow(g, n, [=](uint32_t x, uint32_t w) { return xsStep(x, w, a, b, c); });
    }
    static P rebuild(G& g) {
        std::vector<std::string> f = fields(g.getParamString());
        Script<int> s;
        s.v.push_back(num(f.at(0), 10) | num(f.at(1), 10) << 5 | num(f.at(2), 10) << 10);
        P h(new G(1));
        h->setUpParam(s);
        return h;
    }
    static P fresh(const G& g) { P t(new G(g)); return rebuild(*t); }
};
struct AXs4 : public AXs<sxs4::XorShift> {
    static const char * name() { return "XorShift-4"; }
    static P make(Rng& r, bool& irr) { irr = false; P g = plain(r); g->setUpParam(*paramStream(r)); return g; }
    static uint32_t L(uint32_t t, int s) { return t ^ (t << s); }
    static uint32_t R(uint32_t t, int s) { return t ^ (t >> s); }
    static std::vector<U> predict(G& g, int n) {
        std::vector<std::string> f = fields(g.getParamString());
        int pat = static_cast<int>(num(f.at(0), 10)), a = static_cast<int>(num(f.at(1), 10)), b = static_cast<int>(num(f.at(2), 10)), c = static_cast<int>(num(f.at(3), 10));
        return follow(g, n, [=](uint32_t x, uint32_t w) {
            uint32_t gw, hx;
            if (pat < 2) gw = L(R(w, a), b); else if (pat < 4) gw = R(L(w, a), b); else if (pat < 6) gw = R(w, a); else gw = L(w, a);
            if (pat == 0 || pat == 2) hx = L(x, c); else if (pat == 1 || pat == 3) hx = R(x, c); else if (pat == 4 || pat == 6) hx = L(R(x, b), c); else hx = R(L(x, b), c);
            return gw ^ hx;
        });
    }
    static P rebuild(G& g) {
        std::vector<std::string> f = fields(g.getParamString());
        Script<int> s;
        s.v.push_back(num(f.at(3), 10) | num(f.at(2), 10) << 5 | num(f.at(1), 10) << 10 | num(f.at(0), 10) << 15);
        P h(new G(1));
        h->setUpParam(s);
        return h;
    }
    static P fresh(const G& g) { P t(new G(g)); return rebuild(*t); }
};
struct AXs5 : public AXs<sxs5::XorShift> {
    static const char * name() { return "XorShift-5"; }
    static P make(Rng& r, bool& irr) { irr = false; return plain(r); }
    static P fresh(const G&) { return P(new G(3)); }
    static std::vector<U> predict(G& g, int n) {
        return follow(g, n, [](uint32_t x, uint32_t w) { uint32_t t = x ^ (x << 11); t ^= t >> 7; return (w ^ (w << 20)) ^ t; });
    }
};

static void mt1Reference(Case& c) {      // the reference MT19937 of the C++ library, linear seeding
    uint32_t v = c.index < 8 ? static_cast<uint32_t>(c.index) * 0x24924925u : static_cast<uint32_t>(c.rng.next());
    smt1::MT19937 g(static_cast<uint32_t>(c.rng.next()));
    for (int i = c.rng.range(0, 2000); i > 0; i--) g.generate();
    g.seed(v);
    std::mt19937 ref(v);
    int n = c.rng.range(100, 3000);
    bool ok = true;
    for (int i = 0; ok && i < n; i++) ok = c.check(g.generate() == ref(), "mt19937-stream", "seed " + hex(v) + " output " + S(i));
    c.count("mt19937_outputs", n);
    c.eval("mt1 " + hex(v), true);
}
static void xs1(Case& c) {
    uint32_t v = static_cast<uint32_t>(c.rng.next());
    sxs1::XorShift g(v), h(static_cast<uint32_t>(c.rng.next()));
    c.check(g.bitSize() == 128, "bit-size", "xorshift-1");
    for (int i = c.rng.range(0, 50); i > 0; i--) h.generate();
    h.seed(v);
    std::vector<uint32_t> o;
    for (int i = 0; i < 60; i++) {
        o.push_back(g.generate());
        c.check(h.generate() == o.back(), "seed-depends-on-history", "xorshift-1 seed " + hex(v));
        if (i >= 4) c.check(o.back() == xsStep(o[static_cast<size_t>(i) - 4], o[static_cast<size_t>(i) - 1], 5, 14, 1), "runs-other-parameters", "xorshift-1 seed " + hex(v));
    }
    c.eval("xs1 " + hex(v), true);
}
static std::vector<uint32_t> xcRun(xorshift128_t& x, int n) {
    std::vector<uint32_t> o;
    for (int i = 0; i < n; i++) o.push_back(xorshift128_generate(&x));
    return o;
}
static void xsC(Case& c) {
    xorshift128_t a, b;
    memset(&a, 0, sizeof a);
    memset(&b, 0xa5, sizeof b);
    std::string d;
    std::vector<uint32_t> key;
    if (c.rng.chance(1, 2)) {
        uint32_t v = static_cast<uint32_t>(c.rng.next());
        xorshift128_init(&a, v);
        xorshift128_init(&b, v);
        // multiplicative seeding over eight rounds, wrapping in the four words
        uint32_t w[8];
        w[0] = v;
        for (uint32_t i = 1; i < 8; i++) w[i] = 1812433253u * (w[i - 1] ^ (w[i - 1] >> 30)) + i;
        xorshift128_t r;
        r.x = w[4]; r.y = w[5]; r.z = w[6]; r.w = w[7];
        d = "xorshift128_init " + hex(v);
        c.check(!memcmp(&a, &r, sizeof r), "seed-value", d);
    } else {
        int n = c.rng.range(0, c.rng.chance(1, 5) ? 200 : 12);
        for (int i = 0; i < n; i++) key.push_back(c.rng.chance(1, 4) ? 0 : static_cast<uint32_t>(c.rng.next()));
        std::vector<uint32_t> k2 = key;
        k2.push_back(0);
        xorshift128_init_by_array(&a, key.data(), n);
        xorshift128_init_by_array(&b, k2.data(), n);
        d = "xorshift128_init_by_array length " + S(n) + (n ? " first " + hex(key[0]) : "");
        c.check(a.x || a.y || a.z || a.w, "seed-zero-state", d);
        // another key, another length: another state
        xorshift128_t o;
        memset(&o, 0, sizeof o);
        xorshift128_init_by_array(&o, k2.data(), n + 1);
        c.check(memcmp(&o, &a, sizeof o) != 0, "seed-ignores-key-length", d);
        if (n) {
            size_t i = c.rng.below(key.size());
            k2[i] ^= UINT32_C(1) << c.rng.below(32);
            xorshift128_init_by_array(&o, k2.data(), n);
            c.check(memcmp(&o, &a, sizeof o) != 0, "seed-ignores-key", d + " word " + S(i));
        }
    }
    c.check(!memcmp(&a, &b, sizeof a), "seed-depends-on-history", d);
    xorshift128_t s = a;
    std::vector<uint32_t> o = xcRun(a, 60);
    for (size_t i = 4; i < o.size(); i++) {
        uint32_t t = o[i - 4] ^ (o[i - 4] << 11);
        t ^= t >> 7;
        if (!c.check(o[i] == ((o[i - 1] ^ (o[i - 1] << 20)) ^ t), "runs-other-parameters", d)) break;
    }
    // the state is the last four outputs, and states add
    c.check(a.w == o[59] && a.z == o[58] && a.y == o[57] && a.x == o[56], "state-is-outputs", d);
    xorshift128_t e, f;
    xorshift128_init(&e, static_cast<uint32_t>(c.rng.next()));
    f.x = e.x ^ s.x; f.y = e.y ^ s.y; f.z = e.z ^ s.z; f.w = e.w ^ s.w;
    std::vector<uint32_t> oe = xcRun(e, 60), of = xcRun(f, 60);
    for (size_t i = 0; i < 60; i++) if (!c.check((oe[i] ^ o[i]) == of[i], "addition", d)) break;
    c.count("xorshift128_c");
    c.eval(d + hex(s.x), true);
}

template<class A> static void all(Harness& h, long nc, long ncT, long np, long npT, long nd, long ndT) {
    typedef Contract<A> K;
    std::string n = A::name();
    h.group("contract-" + n, h.n(nc, ncT), K::contract);
    h.group("printed-" + n, h.n(np, npT), K::printed);
    wildParams() = true;
    h.group("setup-" + n, h.n(np, npT), K::printed);
    wildParams() = false;
    if (A::npat > 0) h.group("patterns-" + n, h.n(np, npT), K::patterns);
    if (nd) h.group("dimension-" + n, h.n(nd, ndT), K::dimension);
    if (A::onebit) h.group("onebits-" + n, h.n(nd, ndT), K::oneBits);
}
void runProperty(Harness& h) {
    h.group("mt19937", h.n(300, 5000), mt1Reference);
    h.group("contract-MT19937", h.n(30, 300), Contract<AMt1>::contract);
    all<AMt2>(h, 400, 8000, 300, 6000, 0, 0);
    all<AMtgp>(h, 400, 8000, 300, 6000, 0, 0);
    AMt2::small() = AMtgp::small() = true;
    h.group("dimension-MT32Search", h.n(12, 200), Contract<AMt2>::dimension);
    h.group("dimension-mtgp32", h.n(12, 200), Contract<AMtgp>::dimension);
    AMt2::small() = AMtgp::small() = false;
    all<ATiny>(h, 600, 12000, 600, 12000, 60, 1000);
    all<ARmt>(h, 400, 8000, 400, 8000, 16, 250);
    all<AXs2>(h, 300, 5000, 100, 2000, 30, 400);
    all<AXs3>(h, 300, 5000, 300, 5000, 30, 400);
    all<AXs4>(h, 300, 5000, 600, 9000, 30, 400);
    all<AXs5>(h, 300, 5000, 100, 2000, 30, 400);
    h.group("xorshift-1", h.n(200, 3000), xs1);
    h.group("xorshift128", h.n(2000, 40000), xsC);
}
