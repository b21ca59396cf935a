// P23: 128-bit word operations and the equidistribution of 128/64/52/32-bit streams of SFMT and dSFMT.
#include "gens.hpp"
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#ifdef DSFMT
#include "samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp"
#else
#include "samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp"
#endif
typedef unsigned __int128 u128;
static u128 val(W128 x) { return (static_cast<u128>(x.u64[1]) << 64) | x.u64[0]; }
static W128 wd(u128 v) { return mk(static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v)); }

static void words(Case& c) {
    W128 x = w::rnd(c.rng), y = w::rnd(c.rng);
    switch (c.rng.below(8)) {
    case 0: x = mk(0, 0); break;
    case 1: x = mk(~UINT64_C(0), ~UINT64_C(0)); break;
    case 2: x = mk(0, 0); w::set(x, c.rng.range(0, 127)); break;
    case 3: x.u64[0] = 0; break;
    case 4: x.u64[1] = 0; break;
    case 5: x = wd(val(x) << c.rng.range(0, 127)); break;
    case 6: x = mk(0, 0); w::set(x, c.rng.pick(std::vector<int>{0, 63, 64, 127, 31, 32, 95, 96})); break;
    default: break;
    }
    std::string d = w::s(x);
    u128 v = val(x);
    using namespace MTToolBox;
    c.check(w::eq(x & y, wd(v & val(y))), "and", d);
    c.check(w::eq(x ^ y, wd(v ^ val(y))), "xor", d);
    c.check(w::eq(~x, wd(~v)), "not", d);
    W128 t = x;
    t |= y;
    c.check(w::eq(t, wd(v | val(y))), "or-assign", d);
    t = x;
    t ^= y;
    c.check(w::eq(t, wd(v ^ val(y))), "xor-assign", d);
    c.check((x == y) == (v == val(y)) && (x == x), "equal", d);
    t = x;
    if (v) { int p = c.rng.range(0, 127); t = wd(v ^ (static_cast<u128>(1) << p)); c.check(!(x == t), "equal", d + " bit " + S(p)); }
    for (int s = 0; s < 128; s++) {
        c.check(w::eq(x >> s, wd(v >> s)), "shift-right", d + " by " + S(s) + " got " + w::s(x >> s));
        c.check(w::eq(x << s, wd(v << s)), "shift-left", d + " by " + S(s) + " got " + w::s(x << s));
        c.check(getBitOfPos<W128>(x, s) == static_cast<unsigned>((v >> s) & 1), "getBitOfPos", d + " bit " + S(s));
        for (unsigned b = 0; b < 2; b++) {
            t = x;
            setBitOfPos<W128>(&t, s, b);
            u128 one = static_cast<u128>(1) << s;
            c.check(w::eq(t, wd(b ? v | one : v & ~one)), "setBitOfPos", d + " bit " + S(s) + " := " + S(b));
        }
        W128 m = make_msb_mask(s == 0 ? 128 : s);
        u128 want = s == 0 ? ~static_cast<u128>(0) : ~(~static_cast<u128>(0) >> s);
        c.check(w::eq(m, wd(want)), "make_msb_mask", S(s));
        c.check(w::eq(and_mask(x, m), wd(v & want)), "and_mask", d + " " + S(s));
    }
    c.check(isZero<W128>(x) == (v == 0), "isZero", d);
    t = x;
    setZero<W128>(t);
    c.check(val(t) == 0, "setZero", d);
    c.check(val(getOne<W128>()) == 1, "getOne", "");
    c.check(w::eq(reverse_bit(x), w::revd(x)), "reverse_bit", d);
    c.check(w::eq(reverse_bit(reverse_bit(x)), x), "reverse_bit", d);
    int low = -1;
    for (int i = 0; i < 128 && low < 0; i++) if ((v >> i) & 1) low = i;
    c.check(calc_1pos(x) == (low < 0 ? -1 : 127 - low), "calc_1pos", d + " got " + S(calc_1pos(x)));
    c.check(val(convert<W128, uint64_t>(y.u64[0])) == y.u64[0] && val(convert<W128, uint32_t>(y.u[1])) == y.u[1], "convert", d);
    c.check(bit_size<W128>() == 128, "bit_size", "");
    std::ostringstream o;
    o << std::hex << x;
    char b[64];
    snprintf(b, sizeof b, "%016llx.%016llx", (unsigned long long)x.u64[1], (unsigned long long)x.u64[0]);
    c.check(o.str() == b, "print", d + " printed " + o.str());
    c.count("word_operations", 128 * 7);
    c.eval("w128 " + d, v != 0);
}

// the component of maximal period: irreducible factor of degree mexp (by own arithmetic), and a state in it
struct Comp { orc::Poly irr, quo; };
static orc::Poly bitPoly(const GEN& g, int bit, int n) {
    P t = cl(g);
    std::vector<uint8_t> s;
    for (int i = 0; i < 2 * n + 80; i++) s.push_back(w::bit(t->generate(), bit));
    return orc::minPolySeq(s);
}
static bool component(GEN& g, int mexp, Comp& k) {      // g: default modes; leaves g in the component
    int n = g.bitSize();
    orc::Poly h(1);
    for (int i = 0; i < 128; i++) h = orc::lcm(h, bitPoly(g, i, n));
    orc::Poly rest = h;
    for (int d = 1; d <= n - mexp + 1 && rest.deg() > mexp; d++) {
        for (;;) {
            orc::Poly x = orc::Poly::mono(1);
            for (int i = 0; i < d; i++) x = orc::sqrmod(x, rest);
            orc::Poly q = orc::gcd(x + orc::Poly::mono(1), rest);
            if (q.deg() <= 0 || q.deg() >= mexp) break;
            rest = rest / q;
        }
    }
    while (rest.deg() > 0 && !rest.bit(0)) rest = rest / orc::Poly::mono(1);
    if (rest.deg() != mexp) return false;
    std::string key = rest.str();
    static std::map<std::string, bool> memo;
    if (!memo.count(key)) memo[key] = orc::irreducible(rest);
    if (!memo[key]) return false;
    k.irr = rest;
    k.quo = h / rest;
    P work = cl(g), acc = cl(g);
    acc->setZero();
    for (int i = 0; i <= k.quo.deg(); i++) {
        if (k.quo.bit(i)) acc->add(*work);
        work->generate();
    }
    g.setZero();
    g.add(*acc);
    for (int i = 0; i < 128; i++) {       // really there
        orc::Poly p = bitPoly(g, i, mexp);
        if (p.deg() > 0 && !(p == k.irr)) return false;
    }
    return !g.isZero();
}
// exact k(v), v = 1..vmax, of a stream of words: lanes[t] = the words emitted at step t in order, bit 0 on top
struct Stream {
    int per;            // words per step
    int vmax;
    std::vector<std::vector<uint64_t> > hi, lo;      // [lane][step], up to 128 bits: hi holds the top 64
    bool bit(int lane, int t, int b) const {
        const std::vector<uint64_t>& x = b < 64 ? hi[static_cast<size_t>(lane)] : lo[static_cast<size_t>(lane)];
        return (x[static_cast<size_t>(t)] >> (63 - (b & 63))) & 1;
    }
};
static std::vector<std::vector<int> > exactK(const Stream& s, int mexp) {   // [start][v]
    std::vector<std::vector<int> > k;
    for (int st = 0; st < s.per; st++) {
        // columns as bit vectors over the states T^0 x .. T^(mexp-1) x
        std::vector<std::vector<orc::Words> > col;
        k.push_back(std::vector<int>(static_cast<size_t>(s.vmax) + 1, 0));
        for (int v = 1; v <= s.vmax; v++) {
            orc::Elim el(mexp);
            int kk = 0;
            for (;; kk++) {
                if ((kk + 1) * v > mexp) break;
                while (static_cast<int>(col.size()) <= kk) col.push_back(std::vector<orc::Words>());
                bool ok = true;
                for (int b = 0; b < v && ok; b++) {
                    if (static_cast<int>(col[static_cast<size_t>(kk)].size()) <= b) {
                        orc::Words c(static_cast<size_t>(mexp + 63) / 64, 0);
                        int q = st + kk;
                        for (int i = 0; i < mexp; i++)
                            if (s.bit(q % s.per, i + q / s.per, b)) c[static_cast<size_t>(i) / 64] |= UINT64_C(1) << (i % 64);
                        col[static_cast<size_t>(kk)].push_back(c);
                    }
                    ok = el.insert(col[static_cast<size_t>(kk)][static_cast<size_t>(b)]);
                }
                if (!ok) break;
            }
            k.back()[static_cast<size_t>(v)] = kk;
        }
    }
    return k;
}
static Stream streamOf(const GEN& g, int mexp, int width, bool lsb) {       // width 128, 64, 52 or 32
    Stream s;
    s.per = width == 128 ? 1 : width == 32 ? 4 : 2;
    s.vmax = width;
    s.hi.resize(static_cast<size_t>(s.per));
    s.lo.resize(static_cast<size_t>(s.per));
    P t = cl(g);
    t->setStartMode(0);
    t->setWeightMode(LANES);
    for (int i = 0; i < 2 * mexp + 8; i++) {
        W128 x = t->generate();
        for (int l = 0; l < s.per; l++) {
            size_t q = static_cast<size_t>(l);
            if (width == 128) { W128 y = lsb ? w::revd(x) : x; s.hi[q].push_back(y.u64[1]); s.lo[q].push_back(y.u64[0]); continue; }
            uint64_t v = width == 32 ? x.u[l] : x.u64[l], m = 0;
            for (int b = 0; b < width; b++) if ((v >> b) & 1) m |= lsb ? UINT64_C(1) << (63 - b) : UINT64_C(1) << (64 - width + b);
            s.hi[q].push_back(m);
        }
    }
    return s;
}
static const char * PARAMS[] = {
#ifdef DSFMT
    "521,1,13,000ffaff7a79f7bb,000effaee7ffbd36", "521,1,17,0006e3affbdfecad,000b758ffeff75fb", "521,1,13,000bfbffb957e3be,000dfd0fbffeff7d",
    "521,1,11,000e7fefcbf33d7f,000cdbf7beecfbf9", "521,1,9,0007e1ff7f98efb7,000e7ee4f7b3eff7", "521,1,17,000fd77afe5faa6f,000d9f7ce7ddf7aa",
    "521,1,27,000f99ddf6fff2df,000de8bbad6decfc", "521,1,13,0007b17b8f77f77f,000ef75ff59bffeb", "521,1,39,000cffff3ac61fff,000fc23efebebf3e",
    "521,1,45,000fe76ff2edff5b,000fee57deffcb9b", "521,1,15,000d5bf5efafffde,000eda7f7f4eff65", "521,1,51,0007dbbdaffbffff,000a7b4b6fb6bdfb",
    "521,1,7,0007fff17df7f7fb,000fffafbbbffeff", "521,1,9,000bdf53bfbfe7fd,000fdbfdeef57ff3", "521,1,47,0007e3f6ff7af7ef,0007dd7dfbd769fc",
    "521,1,13,000ccff47fc7bdff,00097ef37cfcff5f",
    "1279,9,21,000efdf9fdf86d76,000ffbba6b5bdb7f", "1279,5,25,000babbfbb0eb6ef,000dbd69e5bfb7df", "1279,7,43,000ffdfeeffdf5f7,000bcb9efbe7ff77",
#else
    "607,1,11,1,14,3,7fc7646d,f1de9ffa,ae3dbcd7,d547b5bf", "607,2,13,1,21,3,dbdfdbfb,7fb8f9ec,ffecfe87,fc7fffee",
    "607,3,2,1,21,3,fd4bbd3d,571c9ffb,fc87e83f,fef32cff", "607,2,15,1,14,5,fe3ecf0f,fadbff7f,eedb9b0f,df29cbf7",
    "607,2,21,7,12,1,eb9b3ff9,ffff5cfd,e7f7d4da,597fdffe", "607,2,2,5,11,3,d3e1f9ff,f551be8d,d5abefed,ee7856ff",
    "607,1,28,5,7,3,9df5fbde,fbfb5f7c,aeeffbff,bfe74b7f", "607,3,27,5,9,3,beffe97f,dea5fd32,faef3fff,fe4e47ff",
    "607,3,7,1,27,7,57fb7fd8,dbfdffb6,9fa5ffd7,fbf39fee", "607,3,1,1,1,7,bc655bf9,eafdfbfd,5fbdeef4,edffdbd5",
    "607,3,2,7,9,3,ffbbffef,9f9e3d5f,7fe35fef,fb67dfcf", "607,1,16,3,1,5,efbcfdbf,ddbffbfb,0dff9a9f,edf3fd2e",
    "607,2,9,3,8,3,aff9d72f,ff7bfb69,6ffdf69d,dffdff7f", "607,1,25,1,20,1,6fffbefd,b97bda5f,ffdbfbfc,b6cd3ecf",
    "607,3,21,1,23,1,ed9f7fd7,fbfbd7df,f9ebbf7a,eefe9479", "607,2,7,1,4,7,0b6bbbff,3defbfff,699fab7b,bfbfcfff",
    "1279,3,11,1,18,3,fbf7f3b7,ffbbde7a,7ff34bff,8e7eedf7", "1279,8,22,3,3,1,56f9df9d,bf95efef,df54dc3f,9ff7fef7",
    "1279,4,12,1,11,1,db49daf4,fbfeaeff,dfafc7ff,fdefffa7",
#endif
    0};
static const int NSMALL = 16, NALL = 19;
static PAR tableParam(int i) {
    std::vector<std::string> f = fields(PARAMS[i]);
    PAR p;
#ifdef DSFMT
    p.mexp = static_cast<int>(num(f[0], 10));
    p.pos1 = static_cast<int>(num(f[1], 10));
    p.sl1 = static_cast<int>(num(f[2], 10));
    p.msk1 = num(f[3], 16);
    p.msk2 = num(f[4], 16);
#else
    int * v[6] = {&p.mexp, &p.pos1, &p.sl1, &p.sl2, &p.sr1, &p.sr2};
    for (size_t i2 = 0; i2 < 6; i2++) *v[i2] = static_cast<int>(num(f[i2], 10));
    uint32_t * q[4] = {&p.msk1, &p.msk2, &p.msk3, &p.msk4};
    for (size_t i2 = 0; i2 < 4; i2++) *q[i2] = static_cast<uint32_t>(num(f[6 + i2], 16));
#endif
    return p;
}
static std::string kstr(const std::vector<int>& k) { std::string s; for (size_t i = 0; i < k.size(); i++) s += (i ? " " : "") + S(k[i]); return s; }
static bool& largeOnes() { static bool b = false; return b; }
static void equi(Case& c) {
    int idx = static_cast<int>(c.index % NSMALL);
    if (c.h.thorough() && c.index % 40 == 39) idx = c.rng.range(NSMALL, NALL - 1);
    if (largeOnes()) idx = NSMALL + static_cast<int>(c.index % (NALL - NSMALL));
    PAR p = tableParam(idx);
    GEN g(p);
    A::seed(g, c.rng.next() | 1);
    int mexp = p.mexp;
    Comp k;
    std::string d = std::string(GNAME) + " " + PARAMS[idx];
    if (!component(g, mexp, k)) { c.count("no_component"); return; }
    for (int i = c.rng.range(0, 30); i > 0; i--) g.generate();
#ifdef DSFMT
    const int widths[] = {52};
    bool lsb = false;
    int width = widths[0];
#else
    const int widths[] = {32, 64, 128, 32};
    bool lsb = c.rng.chance(1, 3);
    int width = widths[(c.index / NSMALL + c.index) % 4];
#endif
    d += " width " + S(width) + (lsb ? " lsb" : "");
    Stream s = streamOf(g, mexp, width, lsb);
    std::vector<std::vector<int> > ex = exactK(s, mexp);
    const int full = width;
    if (c.rng.chance(1, 4)) width = c.rng.range(1, full);          // not all accuracies asked for
    std::vector<int> want(static_cast<size_t>(full), -7), got(static_cast<size_t>(full), -7);
    long delta = 0;
    for (int v = 1; v <= width; v++) {
        int m = ex[0][static_cast<size_t>(v)];
        for (size_t q = 1; q < ex.size(); q++) m = std::min(m, ex[q][static_cast<size_t>(v)]);
        want[static_cast<size_t>(v) - 1] = m;
        delta += mexp / v - m;
    }
    P before = cl(g);
    int dl;
#ifdef DSFMT
    MTToolBox::DSFMTInfo info;
    info.bitSize = 128;
    info.elementNo = 2;
    dl = MTToolBox::calc_dSFMT_equidistribution<W128, GEN>(g, got.data(), width, info, mexp);
#else
    if (full == 128) {
        if (lsb) g.set_reverse_bit();
        MTToolBox::AlgorithmEquidistribution<W128> re(g, width, mexp);
        dl = re.get_all_equidist(got.data());
        if (c.rng.chance(1, 3)) {
            int v = c.rng.range(1, width);
            MTToolBox::AlgorithmEquidistribution<W128> one(g, v, mexp);
            int sum = 0, e = one.get_equidist(&sum);
            c.check(e == want[static_cast<size_t>(v) - 1], "single-k", d + " k(" + S(v) + ") = " + S(e) + " exact " + S(want[static_cast<size_t>(v) - 1]));
        }
    } else {
        MTToolBox::SIMDInfo info;
        info.bitSize = 128;
        info.bitMode = full;
        info.elementNo = 128 / full;
        dl = MTToolBox::calc_SIMD_equidistribution<W128, GEN>(g, got.data(), width, info, mexp, lsb);
    }
#endif
    for (int v = 1; v <= width; v++)
        if (!c.check(got[static_cast<size_t>(v) - 1] == want[static_cast<size_t>(v) - 1], "simd-k", d + " k(" + S(v) + ") = " + S(got[static_cast<size_t>(v) - 1]) + " exact " + S(want[static_cast<size_t>(v) - 1]) +
                " all reported " + kstr(got) + " all exact " + kstr(want))) break;
    c.check(dl == delta, "simd-delta", d + " delta " + S(dl) + " exact " + S(delta));
    for (int v = width; v < full; v++) if (!c.check(got[static_cast<size_t>(v)] == -7, "writes-past-asked", d + " asked for " + S(width))) break;
    if (width < full) c.count("fewer_accuracies");
    // the analysed generator is left alone
    c.check(Contract<A>::same(Contract<A>::run(g, 40), Contract<A>::run(*before, 40)) || lsb, "input-changed", d);
    c.count("equidistribution_dimensions", width);
    c.count("width_" + S(full) + (lsb ? "_lsb" : ""));
    std::set<int> starts;
    for (size_t q = 0; q < ex.size(); q++) starts.insert(ex[q][1] * 100000 + ex[q][static_cast<size_t>(full) / 2]);
    c.count("start_positions_differ", starts.size() > 1);
    c.eval(d + kstr(want), true);
}
static void simd(Harness& h) {
    h.group("w128-" GNAME, h.n(4000, 80000), words);
    h.group("equi-" GNAME, h.n(48, 640), equi);
    if (h.scale >= 0.05) {
        largeOnes() = true;
        if (!h.leaks) h.group("scale-" GNAME, h.n(3, 60), equi);
        largeOnes() = false;
    }
}
