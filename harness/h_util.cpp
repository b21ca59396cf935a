// P17 utilities, P18 linearity tester
#define VERIF_MAIN
#include "gens.hpp"
#include "ntlconv.hpp"
#include <MTToolBox/util.hpp>
#include <MTToolBox/TestLinearity.hpp>

using namespace MTToolBox;

template<class U> static U interesting(Rng& r) {
    const int B = static_cast<int>(sizeof(U) * 8);
    switch (r.range(0, 6)) {
    case 0: return static_cast<U>(static_cast<U>(1) << r.below(B));
    case 1: return static_cast<U>(~static_cast<U>(static_cast<U>(1) << r.below(B)));
    case 2: return static_cast<U>(static_cast<U>(~static_cast<U>(0)) << r.below(B));
    case 3: return static_cast<U>(static_cast<U>(~static_cast<U>(0)) >> r.below(B));
    case 4: return static_cast<U>(r.next() & r.next() & r.next());
    case 5: return static_cast<U>(static_cast<U>(r.next()) << r.below(B));
    default: return static_cast<U>(r.next());
    }
}
template<class U> static int naiveCount(U x) { int k = 0; for (size_t i = 0; i < sizeof(U) * 8; i++) k += static_cast<int>((static_cast<uint64_t>(x) >> i) & 1); return k; }
template<class U> static int naivePos(U x) {
    for (size_t i = 0; i < sizeof(U) * 8; i++) if ((static_cast<uint64_t>(x) >> i) & 1) return static_cast<int>(sizeof(U) * 8 - 1 - i);
    return -1;
}
template<class U> static void bitsOf(Case& c, U x) {
    std::string d = S(sizeof(U) * 8) + "-bit " + hex(static_cast<uint64_t>(x));
    c.check(count_bit(x) == naiveCount<U>(x), "count_bit", d + " -> " + S(count_bit(x)));
    c.check(calc_1pos(x) == naivePos<U>(x), "calc_1pos", d + " -> " + S(calc_1pos(x)));
    c.count("words_checked");
}
template<class U> static void revOf(Case& c, U x) {
    U y = reverse_bit(x);
    c.check(y == WordOps<U>::rev(x), "reverse_bit", hex(static_cast<uint64_t>(x)) + " -> " + hex(static_cast<uint64_t>(y)));
}
template<class U> static void vecOf(Case& c, U x) {
    const int B = static_cast<int>(sizeof(U) * 8);
    std::string d = S(B) + "-bit " + hex(static_cast<uint64_t>(x));
    NTL::vec_GF2 v;
    if (c.rng.chance(1, 2)) { v.SetLength(c.rng.range(0, 100)); for (long i = 0; i < v.length(); i++) v.put(i, c.rng.range(0, 1)); }
    toGF2Vec<U>(v, x);
    bool ok = v.length() == B;
    for (int i = 0; ok && i < B; i++) ok = IsOne(v.get(i)) == static_cast<bool>((static_cast<uint64_t>(x) >> (B - 1 - i)) & 1);
    c.check(ok, "toGF2Vec", d);
    NTL::vec_GF2 w;
    w.SetLength(B);
    for (int i = 0; i < B; i++) w.put(i, static_cast<long>((static_cast<uint64_t>(x) >> (B - 1 - i)) & 1));
    U back = fromGF2Vec<U>(w);
    c.check(back == x, "fromGF2Vec", d + " -> " + hex(static_cast<uint64_t>(back)));
}
template<class U> static void posOf(Case& c, U x) {
    const int B = static_cast<int>(sizeof(U) * 8);
    for (int p = 0; p < B; p++) {
        unsigned g = getBitOfPos<U>(x, p);
        c.check(g == ((static_cast<uint64_t>(x) >> p) & 1), "getBitOfPos", hex(static_cast<uint64_t>(x)) + " pos " + S(p) + " -> " + S(g));
        unsigned b = c.rng.chance(1, 2) ? static_cast<unsigned>(c.rng.below(2)) : static_cast<unsigned>(c.rng.next());
        U y = x;
        setBitOfPos<U>(&y, p, b);
        uint64_t want = (static_cast<uint64_t>(x) & ~(UINT64_C(1) << p)) | (static_cast<uint64_t>(b & 1) << p);
        c.check(static_cast<uint64_t>(y) == want, "setBitOfPos", hex(static_cast<uint64_t>(x)) + " pos " + S(p) + " bit " + S(b) + " -> " + hex(static_cast<uint64_t>(y)));
    }
}
template<class T> static void floorOf(Case& c, T n) {
    T f = floor2p<T>(n);
    uint64_t x = 1;
    while (x <= static_cast<uint64_t>(n) / 2) x *= 2;
    c.check(static_cast<uint64_t>(f) == x, "floor2p", S(static_cast<uint64_t>(n)) + " -> " + S(static_cast<uint64_t>(f)));
}
template<class T> static void rangeOf(Case& c) {
    Rng& r = c.rng;
    int start, span;
    switch (r.range(0, 4)) {
    case 0: start = r.range(-50, 50); span = r.range(1, 40); break;
    case 1: start = r.range(0, 40); span = 1; break;
    case 2: start = static_cast<int>(r.next()); span = r.range(1, 1000); if (start > 2147480000) start = 2147480000; break;
    case 3: start = r.range(-5, 0); span = 2147483647; break;
    default: start = r.range(-1000, 1000); span = r.range(1, 2000);
    }
    int end = static_cast<int>(static_cast<int64_t>(start) + span - 1);
    std::string d = "start " + S(start) + " end " + S(end);
    for (int i = 0; i < 30; i++) {
        T x = interesting<T>(r);
        int y = get_range<T>(x, start, end);
        c.check(y >= start && y <= end, "get_range-outside", d + " input " + hex(static_cast<uint64_t>(x)) + " -> " + S(y));
    }
    if (span <= 2000 && static_cast<uint64_t>(span) <= static_cast<uint64_t>(static_cast<T>(~static_cast<T>(0)))) {   // onto
        std::set<int> seen;
        for (int i = 0; i < span; i++) seen.insert(get_range<T>(static_cast<T>(i), start, end));
        c.check(static_cast<int>(seen.size()) == span, "get_range-not-onto", d + ": " + S(seen.size()) + " values");
    }
    c.eval("get_range " + d, span > 1);
}
template<class T> static void tableOf(Case& c) {
    Rng& r = c.rng;
    int bits = r.range(0, 9);
    int size = r.chance(3, 4) ? 1 << bits : r.range(1, 600);
    std::vector<T> src, dst(static_cast<size_t>(size) + 2);
    for (int i = 0; i < 10; i++) src.push_back(interesting<T>(r));
    bool dirty = r.chance(2, 3);
    for (size_t i = 0; i < dst.size(); i++) dst[i] = dirty ? static_cast<T>(r.next()) : static_cast<T>(0);
    T g0 = dst[static_cast<size_t>(size)], g1 = dst[static_cast<size_t>(size) + 1];
    fill_table<T>(dst.data(), src.data(), size);
    bool ok = dst[static_cast<size_t>(size)] == g0 && dst[static_cast<size_t>(size) + 1] == g1;
    c.check(ok, "fill_table-beyond-end", S(size));
    for (int i = 0; i < size; i++) {
        T x = 0;
        for (int k = 0; k < 10; k++) if ((i >> k) & 1) x = static_cast<T>(x ^ src[static_cast<size_t>(k)]);
        if (dst[static_cast<size_t>(i)] != x) { c.fail("fill_table", "size " + S(size) + " index " + S(i) + (dirty ? " (array not cleared before)" : "")); break; }
    }
    c.eval("fill_table " + S(size) + " " + hex(static_cast<uint64_t>(src[0])), size > 1);
}
static void lcmOf(Case& c) {
    Rng& r = c.rng;
    for (int k = 0; k < 20; k++) {
        bool big = r.chance(1, 40);
        Poly g = randPoly(r, r.range(0, big ? 1200 : 40)), a = randPoly(r, r.range(0, big ? 2000 : 60)) * g, b = randPoly(r, r.range(0, big ? 2000 : 60)) * g;
        switch (r.range(0, 9)) { case 0: a = b; break; case 1: a = Poly(1); break; case 2: b = a * b; break; case 3: b = Poly(); break; }
        if (r.chance(1, 6)) { Poly t = a; a = b; b = t; }
        if (a.isZero() && b.isZero()) continue;
        NTL::GF2X x = toNTL(a), y = toNTL(b), l;
        Poly want = (a.isZero() || b.isZero()) ? Poly() : orc::lcm(a, b);
        LCM(l, x, y);
        std::string d = a.str() + " , " + b.str();
        c.check(fromNTL(l) == want, "LCM", d + " -> " + fromNTL(l).str());
        c.check(fromNTL(x) == a && fromNTL(y) == b, "LCM-changes-arguments", d);
        NTL::GF2X z = x;
        LCM(z, z, y);
        c.check(fromNTL(z) == want, "LCM-in-place", d);
        z = y;
        LCM(z, x, z);
        c.check(fromNTL(z) == want, "LCM-in-place", d + " (second argument)");
        if (!a.isZero()) { z = x; LCM(z, z, z); c.check(fromNTL(z) == a, "LCM-in-place", a.str() + " (both arguments)"); }
        c.eval("LCM " + d, !want.isZero());
    }
}
static void printOf(Case& c) {
    Rng& r = c.rng;
    for (int k = 0; k < 10; k++) {
        int d = r.chance(1, 8) ? -1 : r.chance(1, 2) ? r.range(0, 140) : r.chance(1, 16) ? r.range(1000, 20000) : r.range(0, 5) * 32 + r.range(-2, 2);
        if (d < -1) d = 0;
        Poly p = randPoly(r, d);
        NTL::GF2X x = toNTL(p);
        std::ostringstream o;
        bool br = r.chance(1, 2);
        if (r.chance(1, 2)) print_binary(o, x, br); else { br = true; print_binary(o, x); }
        std::string s = o.str(), t;
        for (size_t i = 0; i < s.size(); i++) if (!isspace(static_cast<unsigned char>(s[i]))) t += s[i];
        std::string want;
        for (int i = 0; i <= d; i++) want += p.bit(i) ? '1' : '0';
        if (d < 0) want = "0";
        want += "deg=" + S(d);
        c.check(t == want, "print_binary", "degree " + S(d) + ": " + t.substr(0, 300));
        c.check(fromNTL(x) == p, "print_binary-changes-argument", "");
        c.eval("print " + p.str(), d > 0);
    }
}
static void p17(Harness& h) {
    h.group("words16", 64, [](Case& c) {     // exhaustive
        for (uint32_t x = static_cast<uint32_t>(c.index) * 1024; x < static_cast<uint32_t>(c.index + 1) * 1024; x++) {
            bitsOf<uint16_t>(c, static_cast<uint16_t>(x));
            vecOf<uint16_t>(c, static_cast<uint16_t>(x));
            if (x % 16 == 0) posOf<uint16_t>(c, static_cast<uint16_t>(x));
            if (x) { floorOf<uint16_t>(c, static_cast<uint16_t>(x)); floorOf<int>(c, static_cast<int>(x)); }
            c.eval("w16 " + S(x), x != 0);
        }
    });
    h.group("words", h.n(160, 20000), [](Case& c) {
        for (int i = 0; i < 400; i++) {
            uint32_t a = i < 32 ? UINT32_C(1) << i : interesting<uint32_t>(c.rng);
            uint64_t b = i < 64 ? UINT64_C(1) << i : interesting<uint64_t>(c.rng);
            if (i == 64) { a = 0; b = 0; }
            if (i == 65) { a = ~UINT32_C(0); b = ~UINT64_C(0); }
            bitsOf(c, a); bitsOf(c, b); revOf(c, a); revOf(c, b);
            if (i % 4 == 0) { vecOf(c, a); vecOf(c, b); vecOf(c, static_cast<uint8_t>(a)); posOf(c, a); posOf(c, b); posOf(c, static_cast<uint8_t>(b)); }
            if (a) floorOf<uint32_t>(c, a);
            if (b) floorOf<uint64_t>(c, b);
            if (a & 0x7fffffff) floorOf<int>(c, static_cast<int>(a & 0x7fffffff));
            c.check(isZero(a) == (a == 0) && isZero(b) == (b == 0), "isZero", hex(a));
            c.check((convert<uint32_t, uint64_t>(b)) == static_cast<uint32_t>(b) && (convert<uint64_t, uint32_t>(a)) == a, "convert", hex(b));
            c.eval("words " + hex(a) + " " + hex(b), a != 0 && b != 0);
        }
        c.check(bit_size<uint8_t>() == 8 && bit_size<uint16_t>() == 16 && bit_size<uint32_t>() == 32 && bit_size<uint64_t>() == 64, "bit_size", "");
        c.check(getOne<uint32_t>() == 1 && getOne<uint64_t>() == 1, "getOne", "");
    });
    h.group("range", h.n(600, 40000), [](Case& c) { rangeOf<uint32_t>(c); rangeOf<uint64_t>(c); rangeOf<uint16_t>(c); });
    h.group("table", h.n(400, 20000), [](Case& c) { tableOf<uint8_t>(c); tableOf<uint16_t>(c); tableOf<uint32_t>(c); tableOf<uint64_t>(c); });
    h.group("lcm", h.n(600, 30000), lcmOf);
    h.group("print", h.n(200, 20000), printOf);
}

// ---------------------------------------------------------------- P18
enum Quirk { Q_NONE, Q_AND, Q_CONST, Q_ADD_OR, Q_ADD_DROP, Q_ZERO_STATE, Q_LATE, Q_CARRY, NQUIRK };
template<class U> class QuirkGen : public EquidistributionCalculatable<U> {
public:
    std::shared_ptr<Model<U> > mp;
    uint64_t s[MAXW];
    int t;            // outputs since seeding
    Quirk q;
    int at, bit, i1, i2;
    static std::vector<uint64_t>& seeds() { static thread_local std::vector<uint64_t> v; return v; }
    static long& live() { static thread_local long l = 0; return l; }
    QuirkGen(const std::shared_ptr<Model<U> >& m) : mp(m), t(0), q(Q_NONE), at(0), bit(0), i1(0), i2(0) { memset(s, 0, sizeof s); s[0] = 1; live()++; }
    QuirkGen(const QuirkGen& o) : AbstractGenerator<U>(), RecursionSearchable<U>(), EquidistributionCalculatable<U>(),
        mp(o.mp), t(o.t), q(o.q), at(o.at), bit(o.bit), i1(o.i1), i2(o.i2) { memcpy(s, o.s, sizeof s); live()++; }
    ~QuirkGen() { live()--; }
    bool sb(int i) const { return (s[i / 64] >> (i % 64)) & 1; }
    using EquidistributionCalculatable<U>::generate;
    U generate() {
        mp->rec.step(s);
        U y = Model<U>::lookup(mp->tbl, s);
        U e = static_cast<U>(1) << bit;
        bool hit = t == at;
        switch (q) {
        case Q_AND: if (hit && sb(i1) && sb(i2)) y ^= e; break;
        case Q_CONST: if (hit) y ^= e; break;
        case Q_ZERO_STATE: if (hit && isZero()) y ^= e; break;
        case Q_CARRY: if (hit) y = (y & ~e) | (static_cast<U>(y + (static_cast<U>(s[0]) | 1)) & e); break;
        case Q_LATE: if (t >= 100 && sb(i1) && sb(i2)) y ^= e; break;
        default:;
        }
        t++;
        return y;
    }
    U generate(int len) { return generate() & (~static_cast<U>(0) << (WordOps<U>::bits - len)); }
    void seed(U v) {
        seeds().push_back(static_cast<uint64_t>(v));
        Rng r(static_cast<uint64_t>(v) * 2 + 1);
        memset(s, 0, sizeof s);
        for (int w = 0; w < mp->nw; w++) s[w] = r.next();
        if (mp->n % 64) s[mp->nw - 1] &= (UINT64_C(1) << (mp->n % 64)) - 1;
        t = 0;
    }
    int bitSize() const { return mp->n; }
    void setUpParam(ParameterGenerator&) { throw std::string("setUpParam called by an analysis"); }
    const std::string getHeaderString() { return "quirk"; }
    const std::string getParamString() { return S(static_cast<int>(q)); }
    QuirkGen * clone() const { return new QuirkGen(*this); }
    void add(EquidistributionCalculatable<U>& o) {
        QuirkGen& that = dynamic_cast<QuirkGen&>(o);
        for (int w = 0; w < mp->nw; w++) {
            uint64_t a = s[w], b = that.s[w];
            s[w] = a ^ b;
            if (w == i1 / 64) {
                uint64_t m = UINT64_C(1) << (i1 % 64);
                if (q == Q_ADD_OR) s[w] = (s[w] & ~m) | ((a | b) & m);
                if (q == Q_ADD_DROP) s[w] = (s[w] & ~m) | (a & m);
            }
        }
    }
    void setZero() { memset(s, 0, sizeof s); }
    bool isZero() const { for (int w = 0; w < mp->nw; w++) if (s[w]) return false; return true; }
private:
    QuirkGen& operator=(const QuirkGen&);
};
// direct observation of superposition, states a and b
template<class U> static bool superposes(const QuirkGen<U>& g, uint64_t a, uint64_t b, int horizon, std::string& why) {
    std::vector<uint64_t> keep = QuirkGen<U>::seeds();
    QuirkGen<U> x(g), y(g);
    x.seed(static_cast<U>(a));
    y.seed(static_cast<U>(b));
    QuirkGen<U> d(x), z(y);
    d.add(x);
    z.add(x);
    bool ok = true;
    for (int i = 0; ok && i < horizon; i++) {
        if (d.generate() != 0) { ok = false; why = "self " + S(i); }
        U p = x.generate(), q = y.generate(), w = z.generate();
        if (ok && (p ^ q) != w) { ok = false; why = "pair " + S(i); }
    }
    QuirkGen<U>::seeds() = keep;
    return ok;
}
template<class U> static void p18(Case& c) {
    Rng& r = c.rng;
    GenOpt o;
    o.outMode = r.range(0, 4);
    int n = r.chance(1, 60) ? r.range(500, 5000) : r.range(2, 90);
    QuirkGen<U> g(makeModel<U>(r, std::vector<Poly>(1, randPoly(r, n)), o));
    for (int k = 0; k < 24; k++) {
        g.q = static_cast<Quirk>(k < NQUIRK ? k : r.range(0, NQUIRK - 1));
        static const std::vector<int> ats = {0, 1, 50, 97, 98, 99};
        g.at = r.chance(1, 2) ? r.pick(ats) : r.range(0, 99);
        g.bit = r.chance(1, 3) ? r.pick(std::vector<int>{0, WordOps<U>::bits - 1}) : r.range(0, WordOps<U>::bits - 1);
        g.i1 = r.range(0, n - 1);
        g.i2 = r.range(0, n - 1);
        g.t = r.range(0, 5);
        for (int w = 0; w < g.mp->nw; w++) g.s[w] = r.next();
        if (n % 64) g.s[g.mp->nw - 1] &= (UINT64_C(1) << (n % 64)) - 1;
        if (r.chance(1, 8)) g.setZero();
        QuirkGen<U>::seeds().clear();
        long l0 = QuirkGen<U>::live();
        QuirkGen<U> before(g);
        TestLinearity<U> tl;
        bool got = tl(g);
        std::vector<uint64_t> sd = QuirkGen<U>::seeds();
        std::string d = "quirk " + S(static_cast<int>(g.q)) + " step " + S(g.at) + " bit " + S(g.bit) + " n " + S(n);
        std::set<uint64_t> ds(sd.begin(), sd.end());
        if (ds.size() < 2) { c.fail("not-two-test-states", d + ": " + S(ds.size()) + " distinct seeds"); continue; }
        uint64_t a = sd[0], b = sd[1];
        for (size_t i = 1; i < sd.size(); i++) if (sd[i] != a) { b = sd[i]; break; }
        std::string why;
        bool fails100 = !superposes(g, a, b, 100, why);
        bool linear = g.q == Q_NONE;
        if (linear) c.check(got, "linear-rejected", d);
        if (fails100) c.check(!got, "visible-failure-accepted", d + " (" + why + ")");
        c.check(memcmp(before.s, g.s, sizeof g.s) == 0 && before.t == g.t, "generator-changed", d);
        c.leak(QuirkGen<U>::live(), l0 + 1, "TestLinearity");
        c.count(linear ? "linear_generators" : fails100 ? "visible_failures" : "hidden_failures");
        if (fails100) c.count("failures_at_step_" + S(g.at >= 97 ? g.at : g.at >= 50 ? 50 : 0) + (g.at >= 97 ? "" : "_and_up"));
        c.eval(d + why, linear || fails100);
    }
}
#if defined(USE_SHA)
static void digestOf(Case& c) {
    Rng& r = c.rng;
    if (c.index == 0) c.check(orc::sha1hex("abc") == "a9993e364706816aba3e25717850c26c9cd0d89d", "oracle-sha1", "self test of the oracle");
    for (int k = 0; k < 8; k++) {
        int d = k == 0 && r.chance(1, 4) ? -1 : r.chance(1, 2) ? r.range(0, 140) : r.chance(1, 2) ? r.range(0, 9) * 64 + r.range(-1, 1) : r.range(0, 3500);
        if (d < -1) d = 0;
        Poly p = randPoly(r, d);
        NTL::GF2X x = toNTL(p);
        std::string s = r.chance(1, 2) ? "" : "left over from an earlier call, much longer than any digest";
        poly_sha1(s, x);
        std::string want = orc::sha1hex(orc::coefText(p));
        c.check(s == want, "poly_sha1", "degree " + S(d) + ": " + s + ", SHA-1 of the coefficients is " + want);
        c.check(fromNTL(x) == p, "poly_sha1-changes-argument", "degree " + S(d));
        c.eval("sha1 " + want, d > 0);
        c.count("digests_checked");
    }
}
#endif
void runProperty(Harness& h) {
    if (h.prop == "P17") {
        p17(h);
#if defined(USE_SHA)
        h.group("digest", h.n(60, 6000), digestOf);
#endif
    }
    else if (h.prop == "P18") {
        h.group("u32", h.n(4000, 100000), p18<uint32_t>);
        h.group("u64", h.n(4000, 100000), p18<uint64_t>);
    }
}
