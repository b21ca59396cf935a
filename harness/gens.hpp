// Harness-owned F2-linear generators implementing the library's abstract interfaces, with full
// control over the recurrence, the output map, the tempering and the parity word, and with an event log.
#ifndef VERIF_GENS_HPP
#define VERIF_GENS_HPP
#include <memory>
#include <atomic>
#include <MTToolBox/util.hpp>
#include <MTToolBox/ReducibleTemperingCalculatable.hpp>
#include <MTToolBox/ParameterGenerator.hpp>
#include "common.hpp"
#include "gf2.hpp"

using orc::Poly;
using orc::Words;

struct StepLimit : public std::runtime_error {
    StepLimit() : std::runtime_error("generator step budget exhausted: the algorithm does not end") {}
};
struct Steps { static long& left() { static thread_local long l = -1; return l; }
    static void set(long n) { left() = n; }
    static void tick() { long& l = left(); if (l > 0 && --l == 0) throw StepLimit(); } };

inline Poly randPoly(Rng& r, int deg) {
    Poly p;
    if (deg < 0) return p;
    p.w.assign(static_cast<size_t>(deg) / 64 + 1, 0);
    for (size_t i = 0; i < p.w.size(); i++) p.w[i] = r.next();
    int top = deg % 64;
    if (top != 63) p.w.back() &= (UINT64_C(1) << (top + 1)) - 1;
    p.w.back() |= UINT64_C(1) << top;
    return p;
}
// random irreducible polynomial of the degree (with constant term 1 unless degree 1 gives x)
inline Poly randIrred(Rng& r, int deg) {
    if (deg == 1) return Poly(3);
    for (;;) {
        Poly p = randPoly(r, deg);
        if (!p.bit(0)) p.flip(0);
        if (p.weight() % 2 == 0) p.flip(r.range(1, deg - 1));
        if (p.bit(0) && p.deg() == deg && orc::irreducible(p)) return p;
    }
}
// primitive polynomials of large Mersenne degree: minimal polynomial of a decimated trinomial sequence
inline Poly randPrimMersenne(Rng& r, int n) {
    static const int tri[][2] = {{89, 38}, {127, 1}, {127, 7}, {127, 15}, {127, 30}, {127, 63}, {521, 32}, {521, 48},
                                 {521, 158}, {521, 168}, {607, 105}, {607, 147}, {607, 273}, {1279, 216}, {1279, 418},
                                 {2281, 715}, {2281, 915}, {2281, 1029}, {3217, 67}, {3217, 576}, {4423, 271}, {4423, 369}, {4423, 370},
                                 {4423, 649}, {4423, 1393}, {4423, 1419}, {4423, 2098}, {9689, 84}, {9689, 471}, {9689, 1836}, {9689, 2444},
                                 {9689, 4187}, {19937, 881}, {19937, 7083}, {19937, 9842}, {0, 0}};
    if (n <= 61) return randIrred(r, n);
    std::vector<int> ks;
    for (int i = 0; tri[i][0]; i++) if (tri[i][0] == n) ks.push_back(tri[i][1]);
    if (ks.empty()) return randIrred(r, n);
    int k = r.pick(ks);
    if (r.chance(1, 2)) k = n - k;
    if (n > 5000 || (n > 521 && r.chance(1, 3))) { Poly p; p.flip(n); p.flip(k); p.flip(0); return p; }
    int dec = 2 * r.range(1, 40) + 1;
    std::vector<uint8_t> s(static_cast<size_t>(2 * n * dec));
    for (int i = 0; i < n; i++) s[static_cast<size_t>(i)] = r.next() & 1;
    s[0] = 1;
    for (size_t i = static_cast<size_t>(n); i < s.size(); i++) s[i] = s[i - static_cast<size_t>(n)] ^ s[i - static_cast<size_t>(n) + static_cast<size_t>(k)];
    std::vector<uint8_t> d(static_cast<size_t>(2 * n));
    for (size_t i = 0; i < d.size(); i++) d[i] = s[i * static_cast<size_t>(dec)];
    return orc::minPolySeq(d);
}
inline bool isPrimeSmall(uint64_t n) {
    if (n < 2) return false;
    for (uint64_t d = 2; d * d <= n; d++) if (n % d == 0) return false;
    return true;
}

template<class U> struct WordOps;
template<> struct WordOps<uint32_t> { static const int bits = 32; static uint32_t rnd(Rng& r) { return static_cast<uint32_t>(r.next()); }
    static uint32_t rev(uint32_t x) { uint32_t y = 0; for (int i = 0; i < 32; i++) if ((x >> i) & 1) y |= UINT32_C(1) << (31 - i); return y; } };
template<> struct WordOps<uint64_t> { static const int bits = 64; static uint64_t rnd(Rng& r) { return r.next(); }
    static uint64_t rev(uint64_t x) { uint64_t y = 0; for (int i = 0; i < 64; i++) if ((x >> i) & 1) y |= UINT64_C(1) << (63 - i); return y; } };
template<class U> bool topBit(U x, int b) { return (x >> (WordOps<U>::bits - 1 - b)) & 1; }

static const int MAXW = 160;     // up to 10240 state bits
static const int MAXT = 4;       // tempering parameters

struct Recurrence {               // block diagonal companion matrices
    int n;
    std::vector<Poly> blocks;
    Words fb[32];                 // feedback of block i, shifted into place
    int topbit[32];
    Words keep;                   // positions that may receive a shifted bit
    Poly minpol, charpol;
    void build(const std::vector<Poly>& bl) {
        blocks = bl;
        n = 0;
        charpol = Poly(1);
        minpol = Poly(1);
        for (size_t i = 0; i < bl.size(); i++) {
            n += bl[i].deg();
            charpol = charpol * bl[i];
            minpol = orc::lcm(minpol, bl[i]);
        }
        size_t W = static_cast<size_t>(n + 63) / 64;
        keep.assign(W, ~UINT64_C(0));
        int off = 0;
        for (size_t i = 0; i < bl.size(); i++) {
            keep[static_cast<size_t>(off) / 64] &= ~(UINT64_C(1) << (off % 64));
            Poly low = bl[i];
            low.flip(bl[i].deg());
            Poly sh;
            sh.addShift(low, off);
            sh.w.resize(W, 0);
            fb[i] = sh.w;
            off += bl[i].deg();
            topbit[i] = off - 1;
        }
        if (n % 64) keep[W - 1] &= (UINT64_C(1) << (n % 64)) - 1;
    }
    void step(uint64_t * s) const {
        size_t W = keep.size();
        unsigned tops = 0;
        for (size_t i = 0; i < blocks.size(); i++) tops |= static_cast<unsigned>((s[topbit[i] / 64] >> (topbit[i] % 64)) & 1) << i;
        uint64_t c = 0;
        for (size_t i = 0; i < W; i++) {
            uint64_t c2 = s[i] >> 63;
            s[i] = ((s[i] << 1) | c) & keep[i];
            c = c2;
        }
        for (size_t i = 0; i < blocks.size(); i++)
            if ((tops >> i) & 1) for (size_t j = 0; j < W; j++) s[j] ^= fb[i][j];
    }
};

template<class U> struct Model {
    int n, nw, mexp;
    Recurrence rec;
    std::vector<std::vector<U> > tbl;     // output map, byte tables
    std::vector<std::vector<U> > ptbl;    // parity word map
    int tparams;                          // tempering parameters in use
    bool mtstyle;                         // y ^= (y << sh) & pat, else y ^= <func,state> ? pat : 0
    int sh[MAXT];
    int trapDepth;                        // >0: output bit trapDepth-1 is dead unless the patterns' top bits are the secret
    U trapSecret[MAXT];
    Words func[MAXT];
    std::vector<Words> base;              // setOneBit basis
    std::vector<std::vector<U> > bcols, pcols;   // columns (for oracles)
    static std::vector<std::vector<U> > makeTable(const std::vector<U>& cols) {
        size_t nb = (cols.size() + 7) / 8;
        std::vector<std::vector<U> > t(nb, std::vector<U>(256, 0));
        for (size_t k = 0; k < nb; k++)
            for (int v = 1; v < 256; v++)
                for (int b = 0; b < 8; b++)
                    if (((v >> b) & 1) && k * 8 + static_cast<size_t>(b) < cols.size()) t[k][static_cast<size_t>(v)] ^= cols[k * 8 + static_cast<size_t>(b)];
        return t;
    }
    static U lookup(const std::vector<std::vector<U> >& t, const uint64_t * s) {
        U r = 0;
        for (size_t k = 0; k < t.size(); k++) r ^= t[k][(s[k / 8] >> (8 * (k % 8))) & 255];
        return r;
    }
};

struct GenOpt {
    int outMode;      // 0 random full, 1 sparse, 2 low rank with dead/duplicated bits, 3 identity-like, 4 MT-like top heavy
    int tparams;
    bool mtstyle;
    int mexp;         // 0: n
    bool invertBase;
    bool projectParity;   // certification word = some state bits
    int sparseParity;     // > 0: the certification word sees that many state bits only
    GenOpt() : outMode(0), tparams(1), mtstyle(false), mexp(0), invertBase(true), projectParity(false), sparseParity(0) {}
};

template<class U> std::shared_ptr<Model<U> > makeModel(Rng& r, const std::vector<Poly>& blocks, const GenOpt& o) {
    std::shared_ptr<Model<U> > m(new Model<U>());
    const int B = WordOps<U>::bits;
    m->rec.build(blocks);
    m->n = m->rec.n;
    m->nw = static_cast<int>(m->rec.keep.size());
    if (m->nw > MAXW) throw std::string("model too large");
    m->mexp = o.mexp ? o.mexp : m->n;
    size_t n = static_cast<size_t>(m->n);
    std::vector<U> cols(n, 0);
    switch (o.outMode) {
    case 1:
        for (size_t i = 0; i < n; i++) { if (r.chance(1, 3)) cols[i] = static_cast<U>(1) << r.below(B); }
        for (int b = 0; b < B; b++) cols[r.below(n)] |= static_cast<U>(1) << b;
        break;
    case 2: {   // rank deficient, duplicated and dead output bits
        int rank = r.range(1, 6);
        std::vector<U> gen;
        for (int i = 0; i < rank; i++) gen.push_back(WordOps<U>::rnd(r));
        U dead = WordOps<U>::rnd(r) | WordOps<U>::rnd(r);
        if (r.chance(1, 2)) dead |= static_cast<U>(1) << (B - 1);
        for (size_t i = 0; i < n; i++)
            for (int k = 0; k < rank; k++) if (r.chance(1, 2)) cols[i] ^= gen[static_cast<size_t>(k)] & dead;
        bool any = false;
        for (size_t i = 0; i < n; i++) any |= cols[i] != 0;
        if (!any) cols[0] = dead ? dead : 1;
        break;
    }
    case 3:
        for (size_t i = 0; i < n; i++) cols[i] = static_cast<U>(1) << (B - 1 - static_cast<int>(i) % B);
        break;
    case 4:
        for (size_t i = 0; i < n; i++) { cols[i] = WordOps<U>::rnd(r); int z = r.range(0, B - 1); cols[i] = (cols[i] >> z); }
        for (int b = 0; b < 4; b++) cols[r.below(n)] |= static_cast<U>(1) << (B - 1 - b);
        break;
    default:
        for (size_t i = 0; i < n; i++) cols[i] = WordOps<U>::rnd(r);
    }
    m->bcols.push_back(cols);
    m->tbl = Model<U>::makeTable(cols);
    std::vector<U> pc(n, 0);
    for (size_t i = 0; i < n; i++) pc[i] = WordOps<U>::rnd(r);
    if (o.projectParity) {
        for (size_t i = 0; i < n; i++) pc[i] = 0;
        size_t start = r.below(n);
        for (int b = 0; b < B && b < m->n; b++) pc[(start + static_cast<size_t>(b)) % n] = static_cast<U>(1) << b;
    }
    if (o.sparseParity > 0) {
        for (size_t i = 0; i < n; i++) pc[i] = 0;
        for (int k = 0; k < o.sparseParity; k++) pc[r.below(n)] = r.chance(1, 2) ? WordOps<U>::rnd(r) : static_cast<U>(1) << r.below(B);
    }
    m->pcols.push_back(pc);
    m->ptbl = Model<U>::makeTable(pc);
    m->tparams = o.tparams;
    m->mtstyle = o.mtstyle;
    m->trapDepth = 0;
    for (int t = 0; t < MAXT; t++) {
        m->sh[t] = r.range(1, B - 2);
        m->func[t].assign(static_cast<size_t>(m->nw), 0);
        for (int k = 0; k < 4; k++) { size_t b = r.below(n); m->func[t][b / 64] |= UINT64_C(1) << (b % 64); }
    }
    // random unitriangular products give an invertible basis
    m->base.assign(n, Words(static_cast<size_t>(m->nw), 0));
    for (size_t i = 0; i < n; i++) m->base[i][i / 64] |= UINT64_C(1) << (i % 64);
    if (o.invertBase) {
        for (int pass = 0; pass < 3; pass++)
            for (size_t i = 0; i < n; i++) {
                size_t j = r.below(n);
                if (i != j) for (int w = 0; w < m->nw; w++) m->base[i][static_cast<size_t>(w)] ^= m->base[j][static_cast<size_t>(w)];
            }
    }
    return m;
}

enum Ev { EV_SETUPPARAM, EV_SETTEMPER, EV_SETUPTEMPER, EV_REVERSE, EV_UNREVERSE, EV_SEED, EV_SETPARITY, EV_SETZERO, EV_ADD, EV_SETONEBIT, EV_GEN };
struct Event { Ev e; uint64_t a, b; int i; };

template<class U> class LfsrGen : public MTToolBox::ReducibleTemperingCalculatable<U> {
public:
    typedef std::shared_ptr<Model<U> > MP;
    std::vector<MP> pool;
    size_t cur;
    uint64_t s[MAXW];
    U pat[MAXT], act[MAXT];
    bool reverse;
    U parity;
    bool lazyTemper;          // patterns take effect only at setUpTempering
    uint64_t lastDraw;
    long draws;               // setUpParam calls
    int drawWidth;            // 32 or 64
    std::vector<Event> * log; // only the generator handed to the library logs; clones do not
    static std::atomic<long>& live() { static std::atomic<long> l(0); return l; }

    LfsrGen(const std::vector<MP>& p, bool lazy = true) : pool(p), cur(0), reverse(false), parity(0), lazyTemper(lazy),
        lastDraw(0), draws(0), drawWidth(32), log(0) {
        memset(s, 0, sizeof s);
        for (int i = 0; i < MAXT; i++) pat[i] = act[i] = 0;
        s[0] = 1;
        live()++;
    }
    LfsrGen(const LfsrGen& o) : MTToolBox::AbstractGenerator<U>(), MTToolBox::RecursionSearchable<U>(),
        MTToolBox::EquidistributionCalculatable<U>(), MTToolBox::ReducibleGenerator<U>(),
        MTToolBox::TemperingCalculatable<U>(), MTToolBox::ReducibleTemperingCalculatable<U>(),
        pool(o.pool), cur(o.cur), reverse(o.reverse), parity(o.parity), lazyTemper(o.lazyTemper), lastDraw(o.lastDraw),
        draws(o.draws), drawWidth(o.drawWidth), log(0) {
        memcpy(s, o.s, sizeof s);
        for (int i = 0; i < MAXT; i++) { pat[i] = o.pat[i]; act[i] = o.act[i]; }
        live()++;
    }
    ~LfsrGen() { live()--; }
    const Model<U>& m() const { return *pool[cur]; }
    bool same(const LfsrGen& o) const {
        return cur == o.cur && memcmp(s, o.s, sizeof s) == 0 && memcmp(pat, o.pat, sizeof pat) == 0 &&
            memcmp(act, o.act, sizeof act) == 0 && reverse == o.reverse && parity == o.parity;
    }
    void ev(Ev e, uint64_t a = 0, uint64_t b = 0, int i = 0) { if (log) { Event x = {e, a, b, i}; log->push_back(x); } }
    U output() const {
        const Model<U>& M = m();
        U y = Model<U>::lookup(M.tbl, s);
        for (int t = 0; t < M.tparams; t++) {
            U p = lazyTemper ? act[t] : pat[t];
            if (!p) continue;
            if (M.mtstyle) y ^= (y << M.sh[t]) & p;
            else if (!M.trapDepth) {
                uint64_t x = 0;
                for (int w = 0; w < M.nw; w++) x ^= s[w] & M.func[t][static_cast<size_t>(w)];
                if (__builtin_parityll(x)) y ^= p;
            }
        }
        if (M.trapDepth) {
            bool open = true;
            for (int t = 0; t < M.tparams; t++) open &= (lazyTemper ? act[t] : pat[t]) >> (WordOps<U>::bits - M.trapDepth) == M.trapSecret[t];
            if (!open) y &= ~(static_cast<U>(1) << (WordOps<U>::bits - M.trapDepth));
        }
        return y;
    }
    using MTToolBox::EquidistributionCalculatable<U>::generate;
    U generate() {
        Steps::tick();
        m().rec.step(s);
        ev(EV_GEN);
        return output();
    }
    U generate(int len) {
        U y = generate();
        if (reverse) y = WordOps<U>::rev(y);
        const int B = WordOps<U>::bits;
        if (len < 1 || len > B) throw std::string("generate(length) called with length outside 1..word size");
        return y & (~static_cast<U>(0) << (B - len));
    }
    void seed(U v) {
        ev(EV_SEED, static_cast<uint64_t>(v));
        seedState(static_cast<uint64_t>(v));
    }
    void seedState(uint64_t v) {
        Rng r(v * 2 + 1);
        memset(s, 0, sizeof s);
        for (int w = 0; w < m().nw; w++) s[w] = r.next();
        int n = m().n;
        if (n % 64) s[m().nw - 1] &= (UINT64_C(1) << (n % 64)) - 1;
        // every block component non-zero
        int off = 0;
        for (size_t i = 0; i < m().rec.blocks.size(); i++) {
            int d = m().rec.blocks[i].deg();
            bool z = true;
            for (int b = off; b < off + d; b++) z &= !((s[b / 64] >> (b % 64)) & 1);
            if (z) s[off / 64] |= UINT64_C(1) << (off % 64);
            off += d;
        }
    }
    int bitSize() const { return m().n; }
    int getMexp() const { return m().mexp; }
    void setUpParam(MTToolBox::ParameterGenerator& g) {
        uint64_t d = drawWidth == 32 ? g.getUint32() : g.getUint64();
        lastDraw = d;
        draws++;
        cur = static_cast<size_t>(d % pool.size());
        for (int i = 0; i < MAXT; i++) pat[i] = act[i] = 0;
        ev(EV_SETUPPARAM, d, cur);
    }
    const std::string getHeaderString() { return "cur, pats"; }
    const std::string getParamString() {
        std::string r = std::to_string(cur);
        for (int i = 0; i < MAXT; i++) r += "," + hex(static_cast<uint64_t>(pat[i]));
        return r;
    }
    LfsrGen * clone() const { return new LfsrGen(*this); }
    void add(MTToolBox::EquidistributionCalculatable<U>& o) {
        LfsrGen * that = dynamic_cast<LfsrGen *>(&o);
        if (that == 0) throw std::string("add: wrong type");
        ev(EV_ADD);
        for (int w = 0; w < m().nw; w++) s[w] ^= that->s[w];
    }
    void setZero() { ev(EV_SETZERO); memset(s, 0, sizeof s); }
    bool isZero() const { for (int w = 0; w < m().nw; w++) if (s[w]) return false; return true; }
    void setTemperingPattern(U mask, U pattern, int idx) {
        if (idx < 0 || idx >= m().tparams) throw std::string("tempering index out of range");
        ev(EV_SETTEMPER, static_cast<uint64_t>(mask), static_cast<uint64_t>(pattern), idx);
        pat[idx] = (pat[idx] & ~mask) | (pattern & mask);
    }
    void setUpTempering() { ev(EV_SETUPTEMPER); for (int i = 0; i < MAXT; i++) act[i] = pat[i]; }
    void setReverseOutput() { ev(EV_REVERSE); reverse = true; }
    void resetReverseOutput() { ev(EV_UNREVERSE); reverse = false; }
    bool isReverseOutput() { return reverse; }
    void setOneBit(int pos) {
        if (pos < 0 || pos >= m().n) throw std::string("setOneBit out of range");
        ev(EV_SETONEBIT, static_cast<uint64_t>(pos));
        memset(s, 0, sizeof s);
        const Words& b = m().base[static_cast<size_t>(pos)];
        for (size_t w = 0; w < b.size(); w++) s[w] = b[w];
    }
    U getParityValue() const { return Model<U>::lookup(m().ptbl, s); }
    void setParityValue(U p) { ev(EV_SETPARITY, static_cast<uint64_t>(p)); parity = p; }
private:
    LfsrGen& operator=(const LfsrGen&);
};

// parameter stream with a log
class ListParams : public MTToolBox::ParameterGenerator {
public:
    std::vector<uint64_t> given;
    Rng r;
    explicit ListParams(uint64_t seed_) : r(seed_) {}
    uint32_t getUint32() { uint32_t x = static_cast<uint32_t>(r.next() >> 32); given.push_back(x); return x; }
    uint64_t getUint64() { uint64_t x = r.next(); given.push_back(x); return x; }
    void seed(uint64_t v) { r = Rng(v); given.clear(); }
};

// a parameter stream of extreme or random numbers
class WildParams : public MTToolBox::ParameterGenerator {
public:
    Rng r;
    int mode;
    uint64_t n;
    explicit WildParams(uint64_t seed_) : r(seed_), mode(static_cast<int>(r.below(8))), n(0) {}
    uint64_t value() {
        n++;
        switch (mode) {
        case 0: return 0;
        case 1: return ~UINT64_C(0);
        case 2: return UINT64_C(1) << r.below(64);
        case 3: return ~(UINT64_C(1) << r.below(64));
        case 4: { static const uint64_t V[] = {0, 1, 2, 30, 31, 32, 33, 50, 51, 52, 63, 64, 0x7fffffff, 0x80000000u, 0xffffffffu, UINT64_C(0x8000000000000000), ~UINT64_C(0)}; return V[r.below(17)]; }
        case 5: return n - 1;
        case 6: return (n & 1) ? ~UINT64_C(0) : 0;
        default: return r.next();
        }
    }
    uint32_t getUint32() { return static_cast<uint32_t>(value()); }
    uint64_t getUint64() { return value(); }
    void seed(uint64_t v) { r = Rng(v); }
};
// the stream used by the makers of sample generators
inline bool& wildParams() { static bool b = false; return b; }
inline std::shared_ptr<MTToolBox::ParameterGenerator> paramStream(Rng& r) {
    uint64_t v = r.next();
    if (wildParams()) return std::shared_ptr<MTToolBox::ParameterGenerator>(new WildParams(v));
    return std::shared_ptr<MTToolBox::ParameterGenerator>(new ListParams(v));
}

// oracle access to a generator: record its outputs on a private copy
template<class U> std::vector<U> record(const LfsrGen<U>& g, int count) {
    LfsrGen<U> c(g);
    std::vector<U> o;
    for (int i = 0; i < count; i++) { U y = c.generate(); if (c.reverse) y = WordOps<U>::rev(y); o.push_back(y); }
    return o;
}
template<class U> std::vector<int> oracleK(const std::vector<U>& o, int n, int vmax) {
    return orc::equidist(n, vmax, [&](int t, int b) { return topBit<U>(o[static_cast<size_t>(t)], b); });
}
// sequence filtered by a polynomial: o'(t) = sum_i q_i o(t+i)
template<class U> std::vector<U> filterSeq(const std::vector<U>& o, const Poly& q, int count) {
    std::vector<U> r(static_cast<size_t>(count), 0);
    int d = q.deg();
    for (int i = 0; i <= d; i++) if (q.bit(i)) for (int t = 0; t < count; t++) r[static_cast<size_t>(t)] ^= o[static_cast<size_t>(t + i)];
    return r;
}
template<class U> std::vector<uint8_t> bitSeq(const std::vector<U>& o, int lsbPos, int count) {
    std::vector<uint8_t> r;
    for (int i = 0; i < count; i++) r.push_back(static_cast<uint8_t>((o[static_cast<size_t>(i)] >> lsbPos) & 1));
    return r;
}
// p(T) s, computed with the recurrence alone
inline Words applyPoly(const Recurrence& rec, const Poly& p, const uint64_t * s0) {
    Words s(s0, s0 + rec.keep.size()), acc(rec.keep.size(), 0);
    for (int i = 0; i <= p.deg(); i++) {
        if (p.bit(i)) for (size_t w = 0; w < acc.size(); w++) acc[w] ^= s[w];
        rec.step(s.data());
    }
    return acc;
}
inline bool zeroWords(const Words& w) { for (size_t i = 0; i < w.size(); i++) if (w[i]) return false; return true; }
// the irreducible factor of degree d of p (deg p < 2d), if there is one
inline bool largeFactor(const Poly& p, int d, Poly& f) {
    if (p.deg() < d) return false;
    Poly q = p, t(2);
    if (q.deg() > 1) t = t % q;
    for (int m = 1; 2 * m <= p.deg() && q.deg() > d; m++) {
        t = q.deg() > 0 ? orc::sqrmod(t % q, q) : Poly();
        Poly y = t + Poly(2) % q;
        Poly g = y.isZero() ? q : orc::gcd(q, y);
        if (m >= d) break;
        while (g.deg() > 0) { q = q / g; if (q.deg() <= 0) break; g = orc::gcd(q, g); }
        if (q.deg() > 0) t = t % q;
    }
    if (q.deg() == d && orc::irreducible(q)) { f = q; return true; }
    return false;
}
inline int deltaOf(int n, const std::vector<int>& k) {
    int s = 0;
    for (size_t i = 0; i < k.size(); i++) s += n / static_cast<int>(i + 1) - k[i];
    return s;
}
#endif
