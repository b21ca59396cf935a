// P22: the generator classes of samples/sfmtdc (default) or samples/dSFMTdc (-DDSFMT). P23: their 128-bit words and equidistribution.
#define VERIF_MAIN
#include "common.hpp"
#include "gf2.hpp"
#ifdef DSFMT
#include "samples/dSFMTdc/dSFMTsearch.hpp"
typedef MTToolBox::dSFMT GEN;
typedef MTToolBox::dSFMT_param PAR;
#define GNAME "dSFMT"
static const int LANES = 2;
#else
#include "samples/sfmtdc/sfmtsearch.hpp"
typedef MTToolBox::sfmt GEN;
typedef MTToolBox::sfmt_param PAR;
#define GNAME "sfmt"
static const int LANES = 4;
#endif
typedef MTToolBox::w128_t W128;
#include "words.hpp"
static W128 mk(uint64_t hi, uint64_t lo) { W128 x; x.u64[1] = hi; x.u64[0] = lo; return x; }
template<> struct W<W128> {
    static const int bits = 128;
    static W128 x(W128 a, W128 b) { return mk(a.u64[1] ^ b.u64[1], a.u64[0] ^ b.u64[0]); }
    static bool z(W128 a) { return a.u64[0] == 0 && a.u64[1] == 0; }
    static bool eq(W128 a, W128 b) { return a.u64[0] == b.u64[0] && a.u64[1] == b.u64[1]; }
    static bool bit(W128 a, int b) { return b < 64 ? (a.u64[1] >> (63 - b)) & 1 : (a.u64[0] >> (127 - b)) & 1; }
    static void set(W128& a, int b) { if (b < 64) a.u64[1] |= UINT64_C(1) << (63 - b); else a.u64[0] |= UINT64_C(1) << (127 - b); }
    static W128 top(W128 a, int n) { W128 r = mk(0, 0); for (int i = 0; i < n; i++) if (bit(a, i)) set(r, i); return r; }
    static W128 revd(W128 a) { W128 r = mk(0, 0); for (int i = 0; i < 128; i++) if (bit(a, i)) set(r, 127 - i); return r; }
    static W128 rnd(Rng& r) { return mk(r.next(), r.next()); }
    static std::string s(W128 a) { return hex(a.u64[1]) + "." + hex(a.u64[0]); }
};
#include "contract.hpp"
#include "gens.hpp"

static std::vector<std::string> fields(const std::string& s) {
    std::vector<std::string> r(1);
    for (size_t i = 0; i < s.size(); i++) { if (s[i] == ',') r.push_back(""); else r.back() += s[i]; }
    return r;
}
static uint64_t num(const std::string& s, int base) {
    char * e = 0;
    uint64_t v = strtoull(s.c_str(), &e, base);
    if (s.empty() || *e) throw std::string("unreadable printed number '" + s + "'");
    return v;
}
typedef std::shared_ptr<GEN> P;
static P cl(const GEN& g) { return P(dynamic_cast<GEN *>(g.clone())); }
static PAR parse(GEN& g) {
    std::vector<std::string> f = fields(g.getParamString());
    PAR p;
#ifdef DSFMT
    if (f.size() < 9) throw std::string("printed parameters: " + g.getParamString());
    p.mexp = static_cast<int>(num(f[0], 10));
    p.pos1 = static_cast<int>(num(f[1], 10));
    p.sl1 = static_cast<int>(num(f[2], 10));
    p.msk1 = num(f[3], 16); p.msk2 = num(f[4], 16);
    p.fix1 = num(f[5], 16); p.fix2 = num(f[6], 16);
    p.parity1 = num(f[7], 16); p.parity2 = num(f[8], 16);
#else
    if (f.size() < 14) throw std::string("printed parameters: " + g.getParamString());
    int v[6];
    for (size_t i = 0; i < 6; i++) v[i] = static_cast<int>(num(f[i], 10));
    p.mexp = v[0]; p.pos1 = v[1]; p.sl1 = v[2]; p.sl2 = v[3]; p.sr1 = v[4]; p.sr2 = v[5];
    uint32_t * q[8] = {&p.msk1, &p.msk2, &p.msk3, &p.msk4, &p.parity1, &p.parity2, &p.parity3, &p.parity4};
    for (size_t i = 0; i < 8; i++) *q[i] = static_cast<uint32_t>(num(f[6 + i], 16));
#endif
    return p;
}
// raw state words x_0.. of the following steps, running from the printed parameters
static std::vector<W128> raw(GEN& g, int n) {
    PAR p = parse(g);
    P c = cl(g);
    c->setStartMode(0);
    c->setWeightMode(LANES);
    std::vector<W128> x;
#ifdef DSFMT
    size_t N = static_cast<size_t>((p.mexp - 128) / 104 + 1);
    uint64_t L[2] = {0, 0};
    const uint64_t msk[2] = {p.msk1, p.msk2};
    for (size_t i = 0; i < static_cast<size_t>(n); i++) {
        if (i < N) {
            x.push_back(c->generate());
            L[0] = c->getParityValue().u64[0];
            L[1] = c->getParityValue().u64[1];
            continue;
        }
        uint64_t M[2];
        W128 r;
        for (int k = 0; k < 2; k++) {
            uint64_t t = x[i - N].u64[k], o = L[1 - k];
            M[k] = (t << p.sl1) ^ (o >> 32) ^ (o << 32) ^ x[i - N + static_cast<size_t>(p.pos1)].u64[k];
            r.u64[k] = (M[k] >> 12) ^ (M[k] & msk[k]) ^ t;
        }
        L[0] = M[0];
        L[1] = M[1];
        x.push_back(r);
    }
#else
    size_t N = static_cast<size_t>(p.mexp / 128 + 1);
    const uint32_t msk[4] = {p.msk1, p.msk2, p.msk3, p.msk4};
    for (size_t i = 0; i < static_cast<size_t>(n); i++) {
        if (i < N) { x.push_back(c->generate()); continue; }
        unsigned char a[16], l[16], cc[16], rr[16];      // bytes, least significant first
        W128 A = x[i - N], B = x[i - N + static_cast<size_t>(p.pos1)], C = x[i - 2], D = x[i - 1], r;
        for (int k = 0; k < 16; k++) a[k] = static_cast<unsigned char>(A.u64[k / 8] >> (8 * (k % 8))), cc[k] = static_cast<unsigned char>(C.u64[k / 8] >> (8 * (k % 8)));
        for (int k = 0; k < 16; k++) l[k] = k - p.sl2 >= 0 ? a[k - p.sl2] : 0, rr[k] = k + p.sr2 < 16 ? cc[k + p.sr2] : 0;
        for (int k = 0; k < 4; k++) {
            uint32_t la = 0, ra = 0;
            for (int q = 3; q >= 0; q--) la = la << 8 | l[4 * k + q], ra = ra << 8 | rr[4 * k + q];
            r.u[k] = A.u[k] ^ la ^ ((B.u[k] >> p.sr1) & msk[k]) ^ ra ^ (D.u[k] << p.sl1);
        }
        x.push_back(r);
    }
#endif
    return x;
}
static uint64_t lane(const W128& a, int i) { return LANES == 4 ? a.u[i] : a.u64[i]; }
static void setLane(W128& a, int i, uint64_t v) { if (LANES == 4) a.u[i] = static_cast<uint32_t>(v); else a.u64[i] = v; }
// output seen with start mode s, weight mode w: the lane stream starts s lanes late, lanes from w on are one step old
static std::vector<W128> seen(const std::vector<W128>& x, int s, int w) {
    std::vector<W128> r(x.size(), mk(0, 0)), o(x.size(), mk(0, 0));
    for (size_t i = 0; i < x.size(); i++)
        for (int k = 0; k < LANES; k++) {
            int q = s == 0 ? k : s + k - LANES;      // relative to the newest word
            if (q < 0 && i == 0) continue;
            setLane(r[i], k, q < 0 ? lane(x[i - 1], q + LANES) : lane(x[i], q));
        }
    for (size_t i = 0; i < x.size(); i++)
        for (int k = 0; k < LANES; k++)
            if (k < w) setLane(o[i], k, lane(r[i], k));
            else if (i) setLane(o[i], k, lane(r[i - 1], k));
    return o;
}
struct A {
    typedef GEN G;
    typedef W128 U;
    static const char * name() { return GNAME; }
#ifdef DSFMT
    static const bool rev = false;
    static void setRev(G&, bool) {}
#else
    static const bool rev = true;
    static void setRev(G& g, bool b) { if (b) g.set_reverse_bit(); else g.reset_reverse_bit(); }
#endif
    static const int npat = 0;
    static const bool onebit = true;
    static bool& plainModes() { static bool b = false; return b; }
    static P make(Rng& r, bool& irr) {
        static const int M[] = {521, 607, 1279, 2203, 3217};
        irr = false;
        P g(new G(M[r.range(0, plainModes() || r.chance(1, 2) ? 1 : 4)]));
#ifdef DSFMT
        if (r.chance(1, 4)) { g->setFixed(true); g->setFixedSL1(r.range(1, 51)); }
#endif
        g->setUpParam(*paramStream(r));
        if (r.chance(1, 2)) g->setStartMode(r.range(0, LANES - 1));
        if (!plainModes() && r.chance(1, 2)) g->setWeightMode(r.range(1, LANES));
        W128 par = W<W128>::rnd(r);
        if (r.chance(1, 2)) g->setParityValue(par);
        seed(*g, r.next());
        return g;
    }
    static void seed(G& g, uint64_t v) { g.seed(mk(v * UINT64_C(0x9e3779b97f4a7c15) * (v & 3), v)); }
    static const bool zeroFresh = true;
    static const int seedBits = 128;
    static void seedFlip(G& g, uint64_t v, int b) {
        U x = mk(v * UINT64_C(0x9e3779b97f4a7c15) * (v & 3), v);
        x.u64[b / 64] ^= UINT64_C(1) << (b % 64);
        g.seed(x);
    }
    static int mexp(G& g) { return g.getMexp(); }
    static int printedMexp(G& g) { return parse(g).mexp; }
    static const bool revTold = false;
    static bool isRev(G&) { return false; }
    static std::string range(G& g) {
        PAR p = parse(g);
#ifdef DSFMT
        int N = (p.mexp - 128) / 104 + 1;
        if (p.pos1 < 1 || p.pos1 >= N) return "position " + S(p.pos1);
        if (p.sl1 < 1 || p.sl1 > 51) return "shift " + S(p.sl1);
        if ((p.msk1 | p.msk2) >> 52) return "masks reach beyond the 52 bits of the significand";
#else
        int N = p.mexp / 128 + 1;
        if (p.pos1 < 1 || p.pos1 >= N) return "position " + S(p.pos1);
        if (p.sl1 < 1 || p.sl1 > 31 || p.sr1 < 1 || p.sr1 > 31) return "shifts of words " + S(p.sl1) + " " + S(p.sr1);
        if (p.sl2 < 1 || p.sl2 > 15 || p.sr2 < 1 || p.sr2 > 15) return "shifts of bytes " + S(p.sl2) + " " + S(p.sr2);
#endif
        return "";
    }
    static void pattern(G&, U, U, int) {}
    static void apply(G&) {}
    static std::vector<U> printedPatterns(const std::string&) { return std::vector<U>(); }
    static U patternMask(int) { return mk(0, 0); }
    static void oneBit(G& g, int i) { g.setOneBit(i); }
    static bool sameText(const std::string& a, const std::string& b) { return a == b; }
    static int spanOutputs(int n) { return n / 100 + 6; }
    static P rebuild(G& g) {
        P r(new G(parse(g)));
        r->setStartMode(g.getStartMode());
        r->setWeightMode(g.getWeightMode());
        return r;
    }
    static P fresh(const G& g) { P t = cl(g); return rebuild(*t); }
    static std::vector<U> predict(G& g, int n) {
        std::vector<U> x = raw(g, n), o = seen(x, g.getStartMode(), g.getWeightMode());
        for (size_t i = 0; i < 2; i++) o[i] = g.generate();
        return o;
    }
};
typedef W<W128> w;

// the zero test in the weight modes: zero exactly when every later output is
static void weights(Case& c) {
    bool irr;
    P g = A::make(c.rng, irr);
    int n = g->bitSize();
    int m = c.rng.range(1, LANES);
    g->setWeightMode(m);
    P a = cl(*g), b = cl(*g);
    if (c.rng.chance(1, 2)) a->setOneBit(c.rng.range(0, n - 1)); else A::seed(*a, c.rng.next());
    for (int i = c.rng.range(0, 3); i > 0; i--) a->generate();
    // b: the same state with the remembered word forgotten
    b = cl(*a);
    b->setWeightMode(m);
    P s = cl(*a);
    s->add(*b);
    std::vector<W128> o = Contract<A>::run(*s, n / 52 + 6);
    bool zero = Contract<A>::zero(o);
    std::string d = std::string(GNAME) + " weight mode " + S(m) + " start " + S(g->getStartMode()) + " " + g->getParamString();
    c.check(s->isZero() == zero, "zero-test-weight", d + (zero ? " all outputs are zero" : " first outputs " + w::s(o[0]) + " " + w::s(o[1])));
    c.count(zero ? "weight_zero" : "weight_nonzero");
    c.check(b->getWeightMode() == m && cl(*b)->getWeightMode() == m && cl(*b)->getStartMode() == g->getStartMode(), "mode-lost", d);
    // modes are views of one and the same underlying sequence
    P q = cl(*a);
    q->setStartMode(c.rng.range(0, LANES - 1));
    q->setWeightMode(c.rng.range(1, LANES));
    P q2 = cl(*q);
    std::vector<W128> want = A::predict(*q2, n / 52 + 6), got = Contract<A>::run(*q, n / 52 + 6);
    c.check(Contract<A>::same(want, got), "mode-view", d + " start " + S(q->getStartMode()) + " weight " + S(q->getWeightMode()));
    c.eval(d + hex(c.rng.next()), !zero);
}
// period certification: accepts exactly the odd inner products, otherwise changes one bit and gets an odd one
static int par(W128 a, W128 b) { return __builtin_parityll((a.u64[0] & b.u64[0]) ^ (a.u64[1] & b.u64[1])); }
static void certify(Case& c) {
    bool irr;
    P g = A::make(c.rng, irr);
    W128 p = mk(0, 0);
    int kind = static_cast<int>(c.rng.below(3));
    if (kind == 0) w::set(p, c.rng.range(0, 127));
    else if (kind == 1) { for (int i = 0; i < 3; i++) w::set(p, c.rng.range(0, 127)); }
    else p = w::rnd(c.rng);
    g->setParityValue(p);
#ifdef DSFMT
    W128 f = w::rnd(c.rng);
    g->setFixPoint(f);
#endif
    A::seed(*g, c.rng.next());
    std::string d = std::string(GNAME) + " " + g->getParamString();
    P b = cl(*g);
    W128 before = g->getParityValue();
#ifdef DSFMT
    bool noFix = c.rng.chance(1, 2);
    W128 ref = noFix ? before : w::x(before, f);
    int r = g->periodCertification(noFix);
    W128 after = g->getParityValue(), ra = noFix ? after : w::x(after, f);
#else
    W128 ref = before;
    int r = g->periodCertification();
    W128 after = g->getParityValue(), ra = after;
#endif
    W128 df = w::x(before, after);
    int ch = __builtin_popcountll(df.u64[0]) + __builtin_popcountll(df.u64[1]);
    c.check((r == 1) == (par(ref, p) == 1), "certification-verdict", d);
    c.check(par(ra, p) == 1, "certification-result-even", d);
    c.check(ch == (r == 1 ? 0 : 1), "certification-changes", d + " bits changed " + S(ch));
    // nothing else changes
    P diff = cl(*g);
    diff->add(*b);
    P one = cl(*g);
    one->setZero();
    if (ch) {
        P only = cl(*one);
#ifdef DSFMT
        int base = only->bitSize() - 128;
#else
        int base = 0;
#endif
        for (int i = 0; i < 128; i++) if (w::bit(df, 127 - i)) { only->setOneBit(base + i); }
        diff->add(*only);
    }
    diff->setWeightMode(LANES);
    c.check(diff->isZero(), "certification-changes-elsewhere", d);
    c.count(r == 1 ? "certified_at_once" : "certified_by_flip");
    c.eval(d, true);
}
#ifdef P23
#include "simd.inc"
#endif
void runProperty(Harness& h) {
    typedef Contract<A> K;
#ifdef P23
    if (h.prop == "P23") { simd(h); return; }
#endif
    h.group("contract-" GNAME, h.n(400, 8000), K::contract);
    h.group("printed-" GNAME, h.n(400, 8000), K::printed);
    wildParams() = true;
    h.group("setup-" GNAME, h.n(400, 8000), K::printed);
    wildParams() = false;
    A::plainModes() = true;
    h.group("dimension-" GNAME, h.n(12, 200), K::dimension);
    h.group("onebits-" GNAME, h.n(12, 200), K::oneBits);
    A::plainModes() = false;
    h.group("weights-" GNAME, h.n(600, 12000), weights);
    h.group("certify-" GNAME, h.n(2000, 40000), certify);
}
