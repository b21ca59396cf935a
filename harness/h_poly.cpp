// P01 minimal polynomial, P02 irreducibility/primitivity, P03 factor lists, P04 large factor
#define VERIF_MAIN
#include <algorithm>
#include "gens.hpp"
#include "ntlconv.hpp"
#include <MTToolBox/period.hpp>
#include <MTToolBox/AlgorithmPrimitivity.hpp>
#include "w128.hpp"      // samples/sfmtdc: the widest output word

using namespace MTToolBox;

// ---------------------------------------------------------------- P01
template<class U> static std::vector<Poly> someBlocks(Rng& r, int maxn) {
    std::vector<Poly> b;
    int kind = r.range(0, 4);
    if (kind == 0) b.push_back(randIrred(r, r.range(2, maxn)));
    else if (kind == 1) { static const int me[] = {2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 127}; b.push_back(randPrimMersenne(r, me[r.range(0, 10)])); }
    else {
        int k = r.range(1, 4), left = maxn;
        for (int i = 0; i < k && left > 2; i++) {
            int d = r.range(1, std::max(1, left / 2));
            Poly p = r.chance(1, 2) ? randIrred(r, d) : randPoly(r, d);
            if (!p.bit(0) && r.chance(3, 4)) p.flip(0);
            b.push_back(p);
            if (r.chance(1, 4) && d * 2 < left) { b.push_back(p); left -= d; }
            left -= d;
        }
    }
    return b;
}
template<class U> static void p01(Case& c) {
    Rng& r = c.rng;
    std::vector<Poly> b = someBlocks<U>(r, r.chance(1, 6) ? 300 : 100);
    GenOpt o;
    o.outMode = r.range(0, 4);
    o.tparams = r.range(0, 2);
    o.mtstyle = r.chance(1, 2);
    std::shared_ptr<Model<U> > m = makeModel<U>(r, b, o);
    LfsrGen<U> g(std::vector<std::shared_ptr<Model<U> > >(1, m));
    for (int i = 0; i < m->tparams; i++) g.setTemperingPattern(~static_cast<U>(0), WordOps<U>::rnd(r), i);
    g.setUpTempering();
    int n = m->n;
    int reps = r.range(1, 3);
    for (int k = 0; k < reps; k++) {
        int pos = r.chance(1, 4) ? 0 : (r.chance(1, 4) ? WordOps<U>::bits - 1 : r.range(0, WordOps<U>::bits - 1));
        switch (r.range(0, 7)) {
        case 0: g.setZero(); break;
        case 1: g.setOneBit(r.range(0, n - 1)); break;
        default: g.seedState(r.next());
        }
        int size = 0;
        bool def = (pos == 0 && r.chance(1, 2));
        if (!def && r.chance(1, 3)) size = n + r.range(0, 60);
        int total = 4 * n + 80;
        std::vector<U> rec = record(g, total);
        std::vector<uint8_t> seq = bitSeq(rec, pos, total);
        Poly want = orc::minPolySeq(seq);
        // an explicit size as small as the true degree is enough
        if (!def && r.chance(1, 3) && want.deg() >= 1) size = want.deg() + r.range(0, 2);
        NTL::GF2X got;
        Steps::set(20L * n + 4000);
        if (def) minpoly<U>(got, g);
        else if (size) minpoly<U>(got, g, pos, size);
        else minpoly<U>(got, g, pos);
        Steps::set(-1);
        Poly p = fromNTL(got);
        std::string d = "n=" + S(n) + " bit=" + S(pos) + " size=" + S(size) + " want " + want.str();
        c.check(p == want, "minpoly-wrong", d + " got " + p.str());
        c.check(orc::annihilates(p, seq), "minpoly-not-annihilating", d + " got " + p.str());
        c.eval(d, want.deg() > 0);
        if (want.deg() < n) c.count("degree_below_state_size");
        if (want.deg() == 0) c.count("zero_sequences");
    }
}
// bit recurrences of their own on every bit position, from chosen initial segments (mostly zero, a single one, periodic, ...)
template<class U> class BitsGen : public AbstractGenerator<U> {
public:
    struct Reg { std::vector<int> taps; std::vector<uint8_t> w; size_t at; };
    std::vector<Reg> r;     // per bit; empty: constant zero
    int n;
    U generate() {
        U u = 0;
        for (size_t b = 0; b < r.size(); b++) {
            Reg& g = r[b];
            if (g.w.empty()) continue;
            size_t m = g.w.size();
            uint8_t o = g.w[g.at], x = 0;
            for (size_t i = 0; i < g.taps.size(); i++) x ^= g.w[(g.at + static_cast<size_t>(g.taps[i])) % m];
            g.w[g.at] = x;
            g.at = (g.at + 1) % m;
            if (o) u |= static_cast<U>(1) << b;
        }
        return u;
    }
    void seed(U) {}
    int bitSize() const { return n; }
};
template<class U> static void p01segments(Case& c) {
    Rng& r = c.rng;
    const int B = WordOps<U>::bits;
    BitsGen<U> g;
    g.r.resize(static_cast<size_t>(B));
    g.n = 0;
    std::vector<int> used;
    int total = r.chance(1, 5) ? r.range(300, 900) : r.range(1, 300);
    for (int k = r.range(1, 3); k > 0; k--) {
        int b = r.range(0, B - 1);
        if (!g.r[static_cast<size_t>(b)].w.empty()) continue;
        int m = used.empty() ? total : r.range(1, total);
        typename BitsGen<U>::Reg& q = g.r[static_cast<size_t>(b)];
        q.w.assign(static_cast<size_t>(m), 0);
        q.at = 0;
        if (!r.chance(1, 6)) q.taps.push_back(0);           // else a prefix of the sequence is transient
        if (r.chance(1, 2)) { for (int t = r.range(0, 4); t > 0; t--) q.taps.push_back(r.range(1, std::max(1, m - 1))); }
        else for (int i = 1; i < m; i++) if (r.chance(1, 2)) q.taps.push_back(i);
        for (size_t i = 0; i < q.taps.size(); i++) if (q.taps[i] >= m) q.taps[i] = 0;
        int pz = r.range(1, 60);
        switch (r.range(0, 7)) {
        case 0: q.w[static_cast<size_t>(m - 1)] = 1; break;                       // m - 1 zeros first
        case 1: q.w[r.below(static_cast<uint64_t>(m))] = 1; break;
        case 2: q.w[0] = 1; break;                                              // zeros in the middle
        case 3: { size_t z = r.below(static_cast<uint64_t>(m)); for (size_t i = z; i < q.w.size(); i++) q.w[i] = r.chance(1, 2); break; }
        case 4: for (size_t i = 0; i < q.w.size(); i++) q.w[i] = 1; break;
        case 5: for (size_t i = 0; i < q.w.size(); i++) q.w[i] = (i % static_cast<size_t>(pz)) == 0; break;
        case 6: { size_t a = r.below(static_cast<uint64_t>(m)), z = r.below(static_cast<uint64_t>(m) + 1); for (size_t i = 0; i < q.w.size(); i++) q.w[i] = (i < a || i > a + z) && r.chance(1, 2); break; }
        default: for (size_t i = 0; i < q.w.size(); i++) q.w[i] = r.chance(1, 2);
        }
        g.n += m;
        used.push_back(b);
    }
    for (int k = 0; k < 3; k++) {
        int pos = k == 2 && r.chance(1, 4) ? r.range(0, B - 1) : r.pick(used);
        int size = r.chance(1, 3) ? 0 : static_cast<int>(g.r[static_cast<size_t>(pos)].w.size()) + (r.chance(1, 3) ? r.range(0, 40) : 0);
        if (size == 0 && r.chance(1, 8)) size = -r.range(1, 5);
        BitsGen<U> h(g), w(g);
        int len = 4 * g.n + 80;
        std::vector<uint8_t> seq;
        for (int i = 0; i < len; i++) seq.push_back(static_cast<uint8_t>((h.generate() >> pos) & 1));
        Poly want = orc::minPolySeq(seq);
        NTL::GF2X got;
        minpoly<U>(got, w, pos, size);
        Poly p = fromNTL(got);
        size_t first = 0;
        while (first < seq.size() && !seq[first]) first++;
        std::string d = "segment n=" + S(g.n) + " bit=" + S(pos) + " size=" + S(size) + " leading zeros " + S(first) + " want " + want.str();
        c.check(p == want, "minpoly-wrong", d + " got " + p.str());
        c.eval(d, want.deg() > 0);
        if (first >= 64 && first < seq.size()) c.count("many_leading_zeros");
    }
}
// state sizes of real generators
template<class U> static void p01scale(Case& c) {
    Rng& r = c.rng;
    int n = r.range(1500, c.h.thorough() ? 10000 : 6000), left = n;
    if (c.index == 0) left = n = r.range(5000, 6000);
    std::vector<Poly> b;
    if (r.chance(1, 3)) { static const int me[] = {1279, 2281, 3217, 4423}; int d = me[r.range(0, 3)]; if (d <= left) { b.push_back(randPrimMersenne(r, d)); left -= d; } }
    while (left > 0) {
        int d = b.size() > 4 || r.chance(1, 2) ? left : r.range(1, left);
        Poly p = randPoly(r, d);
        if (!p.bit(0)) p.flip(0);
        b.push_back(p);
        left -= d;
        if (left >= d && r.chance(1, 3)) { b.push_back(p); left -= d; }
    }
    GenOpt o;
    o.outMode = r.pick(std::vector<int>{0, 1, 3});
    o.tparams = r.range(0, 1);
    o.invertBase = false;
    std::shared_ptr<Model<U> > m = makeModel<U>(r, b, o);
    LfsrGen<U> g(std::vector<std::shared_ptr<Model<U> > >(1, m));
    for (int i = 0; i < m->tparams; i++) g.setTemperingPattern(~static_cast<U>(0), WordOps<U>::rnd(r), i);
    g.setUpTempering();
    for (int k = 0; k < 2; k++) {
        if (r.chance(1, 3)) g.setOneBit(r.range(0, n - 1)); else g.seedState(r.next());
        int pos = r.range(0, WordOps<U>::bits - 1), total = 2 * n + 200, size = r.chance(1, 2) ? n + r.range(0, 100) : 0;
        std::vector<uint8_t> seq = bitSeq(record(g, total), pos, total);
        Poly want = orc::minPolySeq(seq);
        NTL::GF2X got;
        Steps::set(20L * n + 4000);
        if (size) minpoly<U>(got, g, pos, size); else minpoly<U>(got, g, pos);
        Steps::set(-1);
        std::string d = "n=" + S(n) + " bit=" + S(pos) + " size=" + S(size) + " degree " + S(want.deg());
        c.check(fromNTL(got) == want, "minpoly-wrong", d + " want " + want.str().substr(0, 60) + " got " + fromNTL(got).str().substr(0, 60));
        c.check(orc::annihilates(fromNTL(got), seq), "minpoly-not-annihilating", d);
        c.eval(d + " " + want.str(), want.deg() > 0);
        c.h.counters["max_degree"] = std::max<long>(c.h.counters["max_degree"], want.deg());
    }
}
class WideGen : public AbstractGenerator<w128_t> {
public:
    LfsrGen<uint64_t> a, b;
    WideGen(const LfsrGen<uint64_t>& x, const LfsrGen<uint64_t>& y) : a(x), b(y) {}
    w128_t generate() { w128_t w; w.u64[0] = a.generate(); w.u64[1] = b.generate(); return w; }
    void seed(w128_t) {}
    int bitSize() const { return a.bitSize() + b.bitSize(); }
};
static void p01wide(Case& c) {
    Rng& r = c.rng;
    GenOpt o;
    o.tparams = 0;
    o.outMode = r.range(0, 2);
    std::shared_ptr<Model<uint64_t> > m1 = makeModel<uint64_t>(r, someBlocks<uint64_t>(r, 60), o);
    std::shared_ptr<Model<uint64_t> > m2 = makeModel<uint64_t>(r, someBlocks<uint64_t>(r, 60), o);
    LfsrGen<uint64_t> g1(std::vector<std::shared_ptr<Model<uint64_t> > >(1, m1)), g2(std::vector<std::shared_ptr<Model<uint64_t> > >(1, m2));
    g1.seedState(r.next());
    g2.seedState(r.next());
    static const int special[] = {0, 1, 63, 64, 65, 127};
    for (int k = 0; k < 4; k++) {
        int pos = r.chance(1, 2) ? special[r.range(0, 5)] : r.range(0, 127);
        WideGen w(g1, g2);
        int total = 4 * w.bitSize() + 80;
        std::vector<uint64_t> rec = record(pos < 64 ? g1 : g2, total);
        std::vector<uint8_t> seq = bitSeq(rec, pos % 64, total);
        Poly want = orc::minPolySeq(seq);
        NTL::GF2X got;
        minpoly<w128_t>(got, w, pos);
        Poly p = fromNTL(got);
        std::string d = "wide n=" + S(w.bitSize()) + " bit=" + S(pos) + " want " + want.str();
        c.check(p == want, "minpoly-wrong-wide", d + " got " + p.str());
        c.eval(d, want.deg() > 0);
    }
}

// ---------------------------------------------------------------- P02
static std::vector<uint64_t> factorSmall(uint64_t v) {
    std::vector<uint64_t> f;
    for (uint64_t d = 2; d * d <= v; d += d == 2 ? 1 : 2)
        if (v % d == 0) { f.push_back(d); while (v % d == 0) v /= d; }
    if (v > 1) f.push_back(v);
    return f;
}
struct FactorForms {
    std::vector<std::string> strs;
    std::vector<const char *> cs;
    NTL::Vec<NTL::ZZ> vec;
    FactorForms(const std::vector<uint64_t>& f) {
        for (size_t i = 0; i < f.size(); i++) strs.push_back(std::to_string(f[i]));
        fin();
    }
    FactorForms(const std::vector<std::string>& f) : strs(f) { fin(); }
    void fin() {
        vec.SetLength(static_cast<long>(strs.size()));
        for (size_t i = 0; i < strs.size(); i++) { cs.push_back(strs[i].c_str()); vec[static_cast<long>(i)] = NTL::to_ZZ(strs[i].c_str()); }
        cs.push_back(NULL);
    }
private:
    FactorForms(const FactorForms&);
};
template<class T> static void shuffle(Rng& r, std::vector<T>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); }

static void verdict(Case& c, const Poly& p, int degree, FactorForms& f, bool irr, bool prim, const std::string& what) {
    NTL::GF2X x = toNTL(p);
    std::string d = what + " expect degree " + S(degree) + " poly " + p.str();
    c.check(isIrreducible(x) == irr, "isIrreducible", d + " want " + S(irr));
    bool a = isPrime(x, degree, f.vec);
    bool b = isPrime(x, degree, f.cs.data());
    AlgorithmPrimitivity ap(f.cs.data());
    bool e = ap(degree, x);
    bool e2 = ap(degree, x);
    c.check(a == prim, "primitive-list", d + " want " + S(prim));
    c.check(b == prim, "primitive-strings", d + " want " + S(prim));
    c.check(e == prim, "primitive-object", d + " want " + S(prim));
    c.check(e == e2, "primitive-object-unstable", d);
    // copies decide alike, on memory that held something else before
    unsigned char room[sizeof(AlgorithmPrimitivity)];
    memset(room, c.rng.chance(1, 2) ? 0xff : 0, sizeof room);
    AlgorithmPrimitivity * copy = new (room) AlgorithmPrimitivity(ap);
    AlgorithmPrimitivity assigned;
    assigned = ap;
    c.check((*copy)(degree, x) == prim && assigned(degree, x) == prim, "primitive-object-copy", d);
    *copy = assigned;
    copy->~AlgorithmPrimitivity();
    c.check(fromNTL(x) == p, "polynomial-changed", d);
    c.eval(d, irr);
    c.count(prim ? "primitive" : (irr ? "irreducible_nonprimitive" : "reducible"));
}
static void p02exhaustive(Case& c) {     // index = degree
    int n = static_cast<int>(c.index) + 2;
    std::vector<uint64_t> fac = factorSmall((UINT64_C(1) << n) - 1);
    shuffle(c.rng, fac);
    FactorForms f(fac);
    for (uint64_t v = UINT64_C(1) << n; v < UINT64_C(2) << n; v++) {
        Poly p(v);
        bool irr = orc::irreducible(p);
        bool prim = irr && orc::orderOfX(p, UINT64_C(1) << n) == (UINT64_C(1) << n) - 1;
        verdict(c, p, n, f, irr, prim, "exhaustive");
        if (v % 5 == 0) {        // wrong expectations
            NTL::GF2X x = toNTL(p);
            int w = c.rng.chance(1, 2) ? n + 1 : n - 1;
            c.check(!isPrime(x, w, f.vec) && !isPrime(x, w, f.cs.data()) && !AlgorithmPrimitivity(f.cs.data())(w, x) &&
                    !MersennePrimitivity(w, x), "wrong-degree-accepted", "degree " + S(w) + " poly " + p.str());
        }
        bool mers = n == 2 || n == 3 || n == 5 || n == 7 || n == 13 || n == 17;
        c.check(isPrime(toNTL(p)) == (irr && mers), "isPrime-mersenne", p.str());
        if (mers) c.check(MersennePrimitivity(n, toNTL(p)) == irr, "MersennePrimitivity", p.str());
    }
}
static void p02tiny(Case& c) {
    NTL::GF2X zero, one(0, 1), x(1, 1), x1(1, 1);
    SetCoeff(x1, 0);
    c.check(!isIrreducible(zero), "isIrreducible", "0");
    c.check(!isIrreducible(one), "isIrreducible", "1");
    c.check(isIrreducible(x), "isIrreducible", "x");
    c.check(isIrreducible(x1), "isIrreducible", "x+1");
    c.check(!isPrime(zero) && !isPrime(one) && !isPrime(x) && !isPrime(x1), "isPrime-mersenne", "degree below 2");
    const char * none[] = {NULL};
    const char * three[] = {"3", NULL};
    c.check(!isPrime(zero, 2, three) && !isPrime(one, 2, three) && !isPrime(x, 2, three) && !isPrime(x1, 2, three), "primitive-strings", "degree below 2");
    c.check(!isPrime(zero, 0, none) && !isPrime(one, 0, none), "primitive-strings", "degree 0");
    c.check(!MersennePrimitivity(2, x) && !MersennePrimitivity(2, zero) && !MersennePrimitivity(0, one), "MersennePrimitivity", "tiny");
    c.eval("tiny", true);
}
// minimal polynomial of alpha^e, alpha a root of the irreducible f (own arithmetic)
static Poly minPolyOfPower(const Poly& f, uint64_t e) {
    int n = f.deg();
    std::string bits;
    for (int i = 63; i >= 0; i--) bits += ((e >> i) & 1) ? '1' : '0';
    Poly a = orc::powx(bits, f);
    std::vector<uint8_t> s;
    Poly cur(1);
    for (int i = 0; i < 2 * n + 4; i++) {
        s.push_back(cur.bit(n / 3) ? 1 : 0);
        cur = orc::mulmod(cur, a, f);
    }
    return orc::minPolySeq(s);
}
static bool isPrimitiveSmall(const Poly& p, const std::vector<uint64_t>& fac) {
    int n = p.deg();
    if (!orc::irreducible(p) || !p.bit(0)) return false;
    uint64_t N = (n == 64 ? 0 : (UINT64_C(1) << n)) - 1;
    for (size_t i = 0; i < fac.size(); i++) {
        uint64_t e = N / fac[i];
        std::string bits;
        for (int k = 63; k >= 0; k--) bits += ((e >> k) & 1) ? '1' : '0';
        if (orc::powx(bits, p).isOne()) return false;
    }
    return true;
}
static void p02orders(Case& c) {         // irreducible, order misses exactly chosen prime factors
    Rng& r = c.rng;
    int n = r.range(4, 56);
    std::vector<uint64_t> fac = factorSmall((UINT64_C(1) << n) - 1);
    shuffle(r, fac);
    FactorForms f(fac);
    Poly p = randIrred(r, n);
    verdict(c, p, n, f, true, isPrimitiveSmall(p, fac), "random irreducible");
    for (int i = 0; i < 40 && !isPrimitiveSmall(p, fac); i++) p = randIrred(r, n);
    if (!isPrimitiveSmall(p, fac)) return;
    for (size_t i = 0; i < fac.size(); i++) {
        Poly q = minPolyOfPower(p, fac[i]);
        if (q.deg() != n) continue;        // in a subfield
        bool prim = isPrimitiveSmall(q, fac);
        if (prim) c.fail("oracle", "power of a primitive element with common factor came out primitive");
        verdict(c, q, n, f, true, prim, "order misses only " + S(fac[i]));
    }
    // reducible of the same degree, factors of the list incomplete in no way
    int a = r.range(1, n - 1);
    Poly z = randIrred(r, a) * randIrred(r, n - a);
    verdict(c, z, n, f, false, false, "product");
    if (n % 2 == 0) { Poly h = randIrred(r, n / 2); verdict(c, h * h, n, f, false, false, "square"); }
}
static void p02large(Case& c) {
    Rng& r = c.rng;
    static const int me[] = {61, 89, 107, 127, 521, 607};
    int n = me[r.range(0, 5)];
    Poly p = n == 107 || n == 61 ? randIrred(r, n) : randPrimMersenne(r, n);
    NTL::GF2X x = toNTL(p);
    c.check(isIrreducible(x) && isPrime(x), "isPrime-mersenne", p.str());
    c.check(MersennePrimitivity(n, x), "MersennePrimitivity", p.str());
    AlgorithmPrimitivity own;
    c.check(own(n, x) && !own(n + 1, x) && !own(n - 1, x), "MersennePrimitivity", p.str());
    unsigned char room[sizeof(AlgorithmPrimitivity)];
    memset(room, 0, sizeof room);
    AlgorithmPrimitivity * copy = new (room) AlgorithmPrimitivity(own);
    static const char * three[] = {"3", NULL};
    AlgorithmPrimitivity assigned(three);
    assigned = own;
    c.check((*copy)(n, x) && !(*copy)(n + 1, x) && assigned(n, x) && !assigned(n + 1, x), "MersennePrimitivity-copy", p.str());
    copy->~AlgorithmPrimitivity();
    c.eval("mersenne " + p.str(), true);
    // change one coefficient pair: usually reducible; ask the oracle
    Poly q = p;
    q.flip(r.range(1, n - 1));
    q.flip(r.range(1, n - 1));
    bool irr = q.bit(0) && orc::irreducible(q);
    NTL::GF2X y = toNTL(q);
    c.check(isIrreducible(y) == irr && isPrime(y) == irr && MersennePrimitivity(n, y) == irr, "isPrime-mersenne", q.str());
    c.eval("mersenne " + q.str(), true);
    int k = r.range(1, n - 1);
    Poly z = randIrred(r, std::min(k, 80)) * p;
    c.check(!isIrreducible(toNTL(z)) && !isPrime(toNTL(z)) && !MersennePrimitivity(z.deg(), toNTL(z)), "isPrime-mersenne", z.str());
    // irreducible of composite degree is not primitive for the lazy form
    Poly w = randIrred(r, 2 * r.range(2, 40));
    c.check(isIrreducible(toNTL(w)) && (w.deg() == 2 || !isPrime(toNTL(w))), "isPrime-mersenne", w.str());
    c.eval("composite degree " + w.str(), true);
}
// degrees of real generators: trinomials x^n + x^k + 1 and what other polynomials of these degrees
static void p02huge(Case& c) {
    Rng& r = c.rng;
    static const int me[] = {1279, 2281, 3217, 4423, 9689, 19937};
    int n = me[c.h.leaks ? c.index % 2 : c.index < 5 ? c.index % 5 : r.range(0, c.h.thorough() ? 5 : 3)];
    Poly p = randPrimMersenne(r, n);
    NTL::GF2X x = toNTL(p);
    c.check(isIrreducible(x) && isPrime(x), "isPrime-mersenne", "degree " + S(n));
    AlgorithmPrimitivity own;
    c.check(MersennePrimitivity(n, x) && own(n, x), "MersennePrimitivity", "degree " + S(n));
    c.check(!MersennePrimitivity(n + 1, x) && !own(n - 1, x), "wrong-degree-accepted", "degree " + S(n));
    c.eval("huge " + p.str(), true);
    // reducible ones of the same degree whose smallest factor is small, middling or large
    int k = r.chance(1, 2) ? r.range(2, 40) : 0;
    Poly z;
    if (k) { Poly q = randPoly(r, n - k); if (!q.bit(0)) q.flip(0); z = randIrred(r, k) * q; }
    else {
        std::vector<int> sm;
        static const int md[] = {127, 521, 607, 1279, 2281};
        for (int d : md) if (d < n - 1) sm.push_back(d);
        int d = r.pick(sm), e = n - d;
        z = randPrimMersenne(r, d);
        while (e > 0) { std::vector<int> f; for (int t : md) if (t <= e && t >= 521) f.push_back(t); int t = f.empty() ? e : r.pick(f); Poly q = f.empty() ? randPoly(r, t) : randPrimMersenne(r, t); if (!q.bit(0)) q.flip(0); z = z * q; e -= t; }
    }
    NTL::GF2X y = toNTL(z);
    c.check(z.deg() == n && !isIrreducible(y) && !isPrime(y) && !MersennePrimitivity(n, y) && !own(n, y), "reducible-accepted", "degree " + S(n) + " smallest factor " + S(k));
    Poly two = p * p;
    c.check(!isIrreducible(toNTL(two)), "reducible-accepted", "square, degree " + S(2 * n));
    c.eval("huge product " + z.str(), true);
    c.h.counters["max_degree"] = std::max<long>(c.h.counters["max_degree"], n);
}
static const uint32_t MEXP[] = {2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279, 2203, 2281, 3217, 4253, 4423, 9689,
    9941, 11213, 19937, 21701, 23209, 44497, 86243, 110503, 132049, 216091, 756839, 859433, 1257787, 1398269, 2976221,
    3021377, 6972593, 13466917, 20996011, 24036583, 25964951};
static void p02mexp(Case& c) {
    std::set<uint32_t> s(MEXP, MEXP + sizeof MEXP / sizeof MEXP[0]);
    for (uint32_t v = 0; v < 300000; v++) c.check(isMexp(v) == (s.count(v) > 0), "isMexp-" + S(v), S(v));
    for (std::set<uint32_t>::iterator i = s.begin(); i != s.end(); ++i)
        for (int d = -3; d <= 3; d++) {
            uint32_t v = *i + static_cast<uint32_t>(d);
            if (v > 25964951) continue;
            c.check(isMexp(v) == (s.count(v) > 0), "isMexp-" + S(v), S(v));
            c.eval("isMexp " + S(v), true);
        }
    for (int k = 0; k < 200000; k++) {
        uint32_t v = static_cast<uint32_t>(c.rng.below(25964952));
        c.check(isMexp(v) == (s.count(v) > 0), "isMexp-" + S(v), S(v));
    }
    // decimal slips of the real ones: digits swapped or off by powers of ten
    for (std::set<uint32_t>::iterator i = s.begin(); i != s.end(); ++i)
        for (uint32_t t = 10; t <= *i; t *= 10) {
            c.check(isMexp(*i + t) == (s.count(*i + t) > 0) || *i + t > 25964951, "isMexp-" + S(*i + t), S(*i + t));
            c.check(isMexp(*i - t) == (s.count(*i - t) > 0), "isMexp-" + S(*i - t), S(*i - t));
        }
    c.check(!isMexp(0xffffffffu), "isMexp-max", "4294967295");
}

// ---------------------------------------------------------------- P03
struct Tab { int n; const char ** t; };
static const Tab TABS[] = {{128, prime_factors2_128_1}, {160, prime_factors2_160_1}, {192, prime_factors2_192_1},
    {224, prime_factors2_224_1}, {256, prime_factors2_256_1}, {288, prime_factors2_288_1}, {320, prime_factors2_320_1},
    {352, prime_factors2_352_1}, {384, prime_factors2_384_1}, {416, prime_factors2_416_1}, {448, prime_factors2_448_1},
    {480, prime_factors2_480_1}, {512, prime_factors2_512_1}, {544, prime_factors2_544_1}, {640, prime_factors2_640_1},
    {800, prime_factors2_800_1}, {960, prime_factors2_960_1}};
static const int NTABS = 17;
static void p03table(Case& c) {
    const Tab& t = TABS[c.index];
    NTL::ZZ N = NTL::power2_ZZ(t.n) - 1, rest = N;
    std::set<std::string> seen;
    int len = 0;
    std::string key = "table-" + S(t.n);
    for (; t.t[len]; len++) {
        std::string s = t.t[len];
        c.check(!s.empty() && s.find_first_not_of("0123456789") == std::string::npos && s[0] != '0', key + "-form", s);
        c.check(seen.insert(s).second, key + "-repeat", s);
        NTL::ZZ p = NTL::to_ZZ(s.c_str());
        c.check(NTL::ProbPrime(p, 40) == 1 && p > 1, key + "-not-prime", s);
        c.check(p > 1 && NTL::divide(N, p) == 1, key + "-not-divisor", s);
        if (p > 1) while (NTL::divide(rest, p)) rest /= p;
        c.eval(key + " " + s, true);
        if (len > 500) { c.fail(key + "-unterminated", "no end in 500 entries"); return; }
    }
    c.check(rest == 1, key + "-incomplete", "cofactor left: " + S(rest));
    c.count("tables");
}
static NTL::GF2X primitiveCache[NTABS];
static std::vector<NTL::ZZ> independentFactors(const NTL::ZZ& N, const char ** t) {
    // prime factors used by the oracle: the listed ones reduced to those that are prime, plus what is left over
    std::vector<NTL::ZZ> f;
    NTL::ZZ rest = N;
    for (int i = 0; t[i] && i < 500; i++) {
        NTL::ZZ p = NTL::to_ZZ(t[i]);
        if (p > 1 && NTL::ProbPrime(p, 20) && NTL::divide(N, p)) { f.push_back(p); while (NTL::divide(rest, p)) rest /= p; }
    }
    if (rest > 1) f.push_back(rest);
    return f;
}
// decisions made with the list on elements of every maximal-subgroup order
static void p03decide(Case& c) {
    Rng& r = c.rng;
    int idx = static_cast<int>(c.index) % NTABS;
    const Tab& t = TABS[idx];
    if (t.n > 544 && !c.h.thorough() && c.index >= NTABS) return;
    NTL::SetSeed(NTL::to_ZZ(static_cast<long>(r.next() >> 2)));
    NTL::ZZ N = NTL::power2_ZZ(t.n) - 1;
    std::vector<NTL::ZZ> f = independentFactors(N, t.t);
    NTL::GF2X base, m;
    NTL::BuildIrred(base, t.n);
    NTL::GF2XModulus M(base);
    // a generator of the multiplicative group
    NTL::GF2X a;
    for (;;) {
        NTL::random(a, t.n);
        if (IsZero(a)) continue;
        bool ok = true;
        for (size_t i = 0; i < f.size() && ok; i++) { NTL::GF2X y; PowerMod(y, a, N / f[i], M); ok = !IsOne(y); }
        if (ok) break;
    }
    AlgorithmPrimitivity ap(t.t);
    std::vector<size_t> which;
    for (size_t i = 0; i <= f.size(); i++) which.push_back(i);
    shuffle(r, which);
    size_t lim = c.h.thorough() ? which.size() : std::min<size_t>(which.size(), 8);
    for (size_t k = 0; k < lim; k++) {
        size_t i = which[k];
        NTL::GF2X e = a;
        if (i < f.size()) PowerMod(e, a, f[i], M);
        MinPolyMod(m, e, M);
        if (deg(m) != t.n) continue;
        bool want = i == f.size();
        std::string d = "2^" + S(t.n) + "-1 " + (want ? std::string("primitive") : "order misses " + S(f[i]));
        c.check(ap(t.n, m) == want, "decision-" + S(t.n), d);
        c.check(isPrime(m, t.n, t.t) == want, "decision-" + S(t.n), d);
        c.eval(d + " " + fromNTL(m).str(), true);
        c.count(want ? "primitive_elements" : "nonprimitive_elements");
    }
}

// ---------------------------------------------------------------- P04
static void p04(Case& c) {
    Rng& r = c.rng;
    static const int md[] = {2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127};
    for (int k = 0; k < 12; k++) {
        int d = r.chance(1, 3) ? r.range(1, 60) : md[r.range(0, 11)];
        bool has = r.chance(2, 3);
        Poly big;
        if (has) big = (d == 127 || d == 89) ? randPrimMersenne(r, d) : randIrred(r, d);
        else {
            switch (r.range(0, 3)) {
            case 0: {            // two large factors around d/2, total degree >= d
                int a = r.range(1, d);
                if (a >= d) a = std::max(1, d - 1);
                big = (d > 1 ? randIrred(r, a) : Poly(1)) * (d > 1 ? randIrred(r, std::max(1, d - a)) : Poly(1));
                break;
            }
            case 1: big = randIrred(r, std::min(2 * d - 1, d + r.range(1, 5))); if (big.deg() == d) has = true; break;   // an irreducible of degree above d
            case 2: big = randPoly(r, r.range(0, d)); break;
            default: big = d > 1 ? randIrred(r, d - 1) : Poly(1);
            }
        }
        Poly f = has ? big : Poly();
        Poly p = big;
        int room = 2 * d - 1 - p.deg();
        int guard = 0;
        while (room > 0 && guard++ < 30 && !r.chance(1, 6)) {
            int e = r.range(1, std::min(room, r.chance(1, 2) ? 6 : std::max(1, d - 1)));
            if (e >= d) e = d - 1;
            if (e < 1) break;
            Poly s = e == 1 ? (r.chance(1, 2) ? Poly(2) : Poly(3)) : randIrred(r, e);
            int times = r.chance(1, 3) ? r.range(1, 4) : 1;
            while (times-- > 0 && room >= e) { p = p * s; room -= e; }
        }
        if (!has) {     // the construction may have produced one by accident: ask independent factor extraction
            // strip all factors of degree < d, see whether an irreducible of degree d remains
            Poly q = p;
            if (!q.isZero()) {
                Poly x(2), t;
                for (int m = 1; m < d && q.deg() > 0; m++) {
                    t = x % q;
                    for (int i = 0; i < m; i++) t = orc::sqrmod(t, q);
                    Poly y = t + x % q;
                    Poly g = y.isZero() ? q : orc::gcd(q, y);
                    while (g.deg() > 0) { q = q / g; if (q.deg() <= 0) break; g = orc::gcd(q, g); }
                }
                if (q.deg() == d && orc::irreducible(q)) { has = true; f = q; }
            }
        }
        NTL::GF2X x = toNTL(p);
        bool got = hasFactorOfDegree(x, d);
        std::string ds = "d=" + S(d) + " poly " + p.str();
        c.check(got == has, "verdict", ds + " want " + S(has) + " got " + S(got));
        if (has && got) c.check(fromNTL(x) == f, "factor", ds + " want factor " + f.str() + " got " + fromNTL(x).str());
        c.eval(ds, p.deg() >= d);
        c.count(has ? "with_factor" : "without_factor");
    }
}
static void p04large(Case& c) {
    Rng& r = c.rng;
    static const int md[] = {127, 521, 607};
    int d = md[r.range(0, 2)];
    bool has = r.chance(3, 4);
    Poly f = randPrimMersenne(r, d);
    Poly p = has ? f : (r.chance(1, 2) ? randIrred(r, r.range(2, 60)) * randIrred(r, r.range(2, 60)) * randPoly(r, d - 20) : f);
    if (!has && p == f) { p.flip(r.range(1, d - 1)); p.flip(r.range(1, d - 1)); }
    int extra = r.range(0, 60);
    while (extra > 0) {
        int e = r.range(1, extra);
        if (e > 20) e = 20;
        Poly s = e == 1 ? (r.chance(1, 2) ? Poly(2) : Poly(3)) : randIrred(r, e);
        p = p * s;
        extra -= e;
    }
    if (p.deg() >= 2 * d) return;
    if (!has) {
        // oracle: f would have to be what remains after stripping degree < d factors
        NTL::Vec<NTL::Pair<NTL::GF2X, long> > fac;
        NTL::CanZass(fac, toNTL(p));
        for (long i = 0; i < fac.length(); i++) if (deg(fac[i].a) == d) { has = true; f = fromNTL(fac[i].a); }
    }
    NTL::GF2X x = toNTL(p);
    bool got = hasFactorOfDegree(x, d);
    std::string ds = "large d=" + S(d) + " poly " + p.str();
    c.check(got == has, "verdict", ds + " want " + S(has));
    if (has && got) c.check(fromNTL(x) == f, "factor", ds);
    c.eval(ds, true);
    c.count(has ? "with_factor" : "without_factor");
}
static void p04huge(Case& c) {
    Rng& r = c.rng;
    static const int md[] = {1279, 2281, 3217, 4423};
    int d = md[r.range(0, 3)];
    bool has = r.chance(2, 3);
    Poly f = randPrimMersenne(r, d), p = f;
    if (!has) { int e = d == 1279 ? 607 : d == 4423 ? 2281 : 1279; p = randPrimMersenne(r, e) * randPrimMersenne(r, 521); while (p.deg() < d - 300) p = p * randPrimMersenne(r, 127); }
    // cofactors: small ones, or another large one (never enough for a second factor of degree d)
    if (r.chance(1, 3)) { static const int co[] = {521, 607, 1279, 2281}; int e = co[r.range(0, 3)]; if (p.deg() + e < 2 * d && e != d) p = p * randPrimMersenne(r, e); }
    for (int k = r.range(0, 5); k > 0; k--) {
        int e = r.range(1, 24);
        Poly s = e == 1 ? (r.chance(1, 2) ? Poly(2) : Poly(3)) : randIrred(r, e);
        if (p.deg() + e < 2 * d) p = p * s;
    }
    NTL::GF2X x = toNTL(p);
    bool got = hasFactorOfDegree(x, d);
    std::string ds = "huge d=" + S(d) + " degree " + S(p.deg());
    c.check(got == has, "verdict", ds + " want " + S(has));
    if (has && got) c.check(fromNTL(x) == f, "factor", ds);
    c.eval(ds + p.str(), p.deg() >= d);
    c.count(has ? "with_factor" : "without_factor");
}
static void p04tiny(Case& c) {
    for (int d = 1; d <= 5; d++) {
        NTL::GF2X z, o(0, 1);
        c.check(!hasFactorOfDegree(z, d), "verdict", "zero polynomial d=" + S(d));
        c.check(!hasFactorOfDegree(o, d), "verdict", "one d=" + S(d));
        // every polynomial of degree < 2d for small d
        for (uint64_t v = 2; d <= 5 && v < (UINT64_C(1) << (2 * d)); v++) {
            Poly p(v), f;
            for (uint64_t w = UINT64_C(1) << d; w < (UINT64_C(2) << d); w++) {
                Poly q(w);
                if (orc::irreducible(q) && (p % q).isZero()) f = q;
            }
            NTL::GF2X x = toNTL(p);
            bool got = hasFactorOfDegree(x, d);
            std::string ds = "all d=" + S(d) + " " + p.str();
            c.check(got == !f.isZero(), "verdict", ds);
            if (got && !f.isZero()) c.check(fromNTL(x) == f, "factor", ds + " got " + fromNTL(x).str());
            c.eval(ds, p.deg() >= d);
        }
    }
}

void runProperty(Harness& h) {
    if (h.prop == "P01") {
        h.group("u32", h.n(1500, 16000), p01<uint32_t>);
        h.group("u64", h.n(1500, 16000), p01<uint64_t>);
        h.group("segments32", h.n(800, 10000), p01segments<uint32_t>);
        h.group("segments64", h.n(800, 10000), p01segments<uint64_t>);
        h.group("wide", h.n(120, 2000), p01wide);
        if (h.scale >= 0.05) {
            h.group("scale32", h.n(24, 300), p01scale<uint32_t>);
            h.group("scale64", h.n(16, 200), p01scale<uint64_t>);
        }
    } else if (h.prop == "P02") {
        h.group("exhaustive", h.thorough() ? 13 : 11, p02exhaustive);
        h.group("tiny", 1, p02tiny);
        h.group("orders", h.n(1200, 12000), p02orders);
        h.group("mersenne", h.n(240, 2400), p02large);
        h.group("mexp", 1, p02mexp);
        if (h.scale >= 0.05) h.group("huge", h.n(24, 300), p02huge);
    } else if (h.prop == "P03") {
        h.group("table", NTABS, p03table);
        h.group("decide", NTABS * h.n(2, 10), p03decide);
    } else if (h.prop == "P04") {
        h.group("small", h.n(2000, 24000), p04);
        h.group("large", h.n(400, 4000), p04large);
        if (h.scale >= 0.05) h.group("huge", h.n(32, 400), p04huge);
        h.group("tiny", 1, p04tiny);
    } else { fprintf(stderr, "unknown property %s\n", h.prop.c_str()); _exit(3); }
}
