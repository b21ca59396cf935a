// P11 characteristic polynomial and annihilation, P13 period certification vectors
#define VERIF_MAIN
#include <algorithm>
#include "gens.hpp"
#include "ntlconv.hpp"
#include "redoracle.hpp"
#include <MTToolBox/ReducibleGenerator.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmCalculateParity.hpp>

using namespace MTToolBox;

static std::vector<Poly> blocksOf(Rng& r, int total) {
    std::vector<Poly> b;
    for (int left = total; left > 0;) {
        int d = r.chance(1, 4) ? left : r.range(1, left);
        Poly p = d == 1 ? Poly(3) : (r.chance(1, 2) ? randIrred(r, d) : randPoly(r, d));
        if (!p.bit(0)) p.flip(0);
        b.push_back(p);
        left -= d;
        if (left >= d && r.chance(1, 4)) { b.push_back(p); left -= d; }
        if (b.size() >= 20) { if (left > 0) { Poly q = randPoly(r, left); if (!q.bit(0)) q.flip(0); b.push_back(q); } break; }
    }
    return b;
}
static std::vector<Poly> bigBlocks(Rng& r, int n) {
    std::vector<Poly> b;
    int left = n;
    if (r.chance(1, 2)) { b.push_back(randPrimMersenne(r, r.pick(std::vector<int>{521, 607, 1279}))); left -= b[0].deg(); }
    while (left > 0) {
        int d = b.size() > 3 || r.chance(1, 2) ? left : r.range(1, left);
        Poly p = randPoly(r, d);
        if (!p.bit(0)) p.flip(0);
        b.push_back(p);
        left -= d;
    }
    return b;
}
template<class U> static void p11any(Case& c, bool scale) {
    Rng& r = c.rng;
    const int B = WordOps<U>::bits;
    GenOpt o;
    int om = r.range(0, 4);
    o.outMode = scale ? r.pick(std::vector<int>{0, 1, 3}) : om;
    o.invertBase = !scale;
    o.tparams = r.range(0, 2);
    o.mtstyle = r.chance(1, 2);
    std::shared_ptr<Model<U> > m = makeModel<U>(r, scale ? bigBlocks(r, r.range(1500, 4000)) : blocksOf(r, r.range(1, r.chance(1, 4) ? 200 : 60)), o);
    LfsrGen<U> g(std::vector<std::shared_ptr<Model<U> > >(1, m));
    long live0 = LfsrGen<U>::live();
    for (int i = 0; i < m->tparams; i++) g.setTemperingPattern(~static_cast<U>(0), WordOps<U>::rnd(r), i);
    g.setUpTempering();
    if (r.chance(1, 3)) g.setReverseOutput();
    int n = m->n;
    for (int k = 0; k < (scale ? 2 : 4); k++) {
        switch (r.range(0, 6)) { case 0: g.setZero(); break; case 1: g.setOneBit(r.range(0, n - 1)); break; default: g.seedState(r.next()); }
        Poly p;
        switch (r.range(0, 6)) {
        case 0: break;
        case 1: p = Poly(1); break;
        case 2: p = Poly::mono(r.range(0, 2 * n)); break;
        case 3: p = m->rec.charpol; break;
        case 4: p = m->rec.charpol / r.pick(m->rec.blocks); break;
        default: p = randPoly(r, r.range(scale ? n / 2 : 0, scale ? n + n / 2 : 2 * n + 10));
        }
        LfsrGen<U> h(g);
        Steps::set(100000);
        if (r.chance(1, 2)) annihilate<U>(&h, toNTL(p)); else annihilate(&h, toNTL(p));
        Steps::set(-1);
        Words want = applyPoly(m->rec, p, g.s), got(h.s, h.s + m->nw);
        std::string d = "annihilate n=" + S(n) + " p=" + p.str();
        c.check(want == got, "annihilate", d);
        if (p == m->rec.charpol) c.check(h.isZero(), "charpoly-does-not-annihilate", d);
        memcpy(h.s, g.s, sizeof g.s);
        c.check(h.same(g), "annihilate-side-effect", d);
        c.eval(d + " state " + hex(g.s[0]), p.deg() > 0 && !g.isZero());
    }
    // characteristic polynomial over all output bits
    if (scale && c.index % 4) return;
    g.seedState(r.next());
    if (r.chance(1, 5)) g.setOneBit(r.range(0, n - 1));
    Poly start(1);
    if (r.chance(1, 2)) start = r.pick(m->rec.blocks);
    if (r.chance(1, 8)) start = m->rec.charpol;
    std::vector<U> rec = record(g, 2 * n + 8);
    if (g.reverse) for (size_t i = 0; i < rec.size(); i++) rec[i] = WordOps<U>::rev(rec[i]);
    Poly want = start;
    for (int b = 0; b < B; b++) want = orc::lcm(want, orc::minPolySeq(bitSeq(rec, b, 2 * n + 8)));
    NTL::GF2X chi = toNTL(start);
    LfsrGen<U> h(g);
    Steps::set(static_cast<long>(B) * (2 * n + 4) * 2 + 1000);
    calcCharacteristicPolynomial(static_cast<ReducibleGenerator<U> *>(&h), chi);
    Steps::set(-1);
    std::string d = "charpoly n=" + S(n) + " start=" + start.str() + " want " + want.str();
    c.check(fromNTL(chi) == want, "charpoly", d + " got " + fromNTL(chi).str());
    LfsrGen<U> a(g);
    annihilate<U>(&a, chi);
    bool zero = true;
    for (int i = 0; i < 2 * n; i++) zero &= a.generate() == 0;
    c.check(zero, "outputs-survive-annihilation", d);
    c.eval(d, want.deg() > 0);
    c.count(want.deg() < n ? "proper_divisor" : "full_degree");
    c.leak(LfsrGen<U>::live() - 2, live0, "annihilate");
}

template<class U> static void p13any(Case& c, bool scale) {
    Rng& r = c.rng;
    const int B = WordOps<U>::bits;
    static const int me[] = {13, 17, 19, 31, 61, 89, 127};
    int mexp = scale && c.h.leaks ? r.pick(std::vector<int>{521, 607}) : scale ? (c.index == 0 ? 2281 : c.index == 2 ? 1279 : r.pick(std::vector<int>{521, 607, 1279, 2281})) : me[r.range(0, 6)];
    int extra = r.range(0, std::min(mexp - 1, B - 1));
    if (r.chance(1, 6)) extra = std::min(mexp - 1, B - 1);
    std::vector<Poly> b(1, randPrimMersenne(r, mexp));
    Poly f = b[0];
    if (extra) { std::vector<Poly> e = blocksOf(r, extra); b.insert(b.end(), e.begin(), e.end()); }
    bool plain = scale ? c.index % 2 == 0 : r.chance(1, 4);      // single-bit states: first all those of the large component
    if (!plain) std::swap(b[0], b[r.below(b.size())]);
    GenOpt o;
    o.mexp = mexp;
    o.outMode = r.range(0, 1);
    o.projectParity = !(scale && plain) && r.chance(1, 2);
    if (!o.projectParity && !(scale && plain) && r.chance(1, 2)) o.sparseParity = r.range(1, 6);
    o.invertBase = !plain && r.chance(1, 2);
    std::shared_ptr<Model<U> > m = makeModel<U>(r, b, o);
    if (!scale && (m->rec.charpol % (f * f)).isZero()) return;
    LfsrGen<U> g(std::vector<std::shared_ptr<Model<U> > >(1, m));
    std::vector<Event> log;
    g.seedState(r.next());
    LfsrGen<U> before(g);
    long live0 = LfsrGen<U>::live();
    int reps = scale ? 1 : r.range(1, 2);
    AlgorithmCalculateParity<U, LfsrGen<U> > alg;
    for (int k = 0; k < reps; k++) {
        g.parity = before.parity;
        Steps::set(50000000L);
        U p = alg.searchParity(g, toNTL(f));
        Steps::set(-1);
        std::string d = "mexp=" + S(mexp) + " n=" + S(m->n) + " f=" + f.str() + " chi=" + m->rec.charpol.str() + " p=" + hex(static_cast<uint64_t>(p));
        std::string e = certify<U>(g, f, p);
        c.check(e.empty(), "not-certifying", d + ": " + e);
        c.check(g.parity == p, "not-handed-over", d);
        // the states as such: random states, states of the component, states of the complement
        long pass = 0;
        Poly q = m->rec.charpol / f;
        for (int t = 0; t < (scale ? 18 : 60); t++) {
            uint64_t s[MAXW];
            memset(s, 0, sizeof s);
            for (int w = 0; w < m->nw; w++) s[w] = r.next();
            if (m->n % 64) s[m->nw - 1] &= (UINT64_C(1) << (m->n % 64)) - 1;
            if (t % 3 == 1) { Words v = applyPoly(m->rec, f, s); for (size_t w = 0; w < v.size(); w++) s[w] = v[w]; }
            if (t % 3 == 2) { Words v = applyPoly(m->rec, q, s); for (size_t w = 0; w < v.size(); w++) s[w] = v[w]; }
            bool odd = __builtin_parityll(static_cast<uint64_t>(Model<U>::lookup(m->ptbl, s) & p));
            bool component = !zeroWords(applyPoly(m->rec, q, s));
            if (odd) { pass++; c.check(component, "certified-but-degenerate", d); }
            if (!odd && o.projectParity && m->n >= B) {
                // flip one state bit that feeds a word bit selected by the vector
                bool done = false;
                for (int i = 0; i < m->n && !done; i++) {
                    U w = m->pcols[0][static_cast<size_t>(i)];
                    if ((w & p) == 0) continue;
                    s[i / 64] ^= UINT64_C(1) << (i % 64);
                    done = true;
                    c.check(__builtin_parityll(static_cast<uint64_t>(Model<U>::lookup(m->ptbl, s) & p)), "flip-does-not-certify", d);
                    c.check(!zeroWords(applyPoly(m->rec, q, s)), "certified-but-degenerate", d);
                }
                c.check(done, "vector-selects-no-state-bit", d);
            }
        }
        c.count("certified_states", pass);
        c.eval(d, extra > 0);
        U keep = g.parity;
        g.parity = before.parity;
        c.check(g.same(before), "generator-modified", d);
        g.parity = keep;
    }
    c.leak(LfsrGen<U>::live(), live0, "AlgorithmCalculateParity");
}

template<class U> static void p11(Case& c) { p11any<U>(c, false); }
template<class U> static void p11scale(Case& c) { p11any<U>(c, true); }
template<class U> static void p13(Case& c) { p13any<U>(c, false); }
template<class U> static void p13scale(Case& c) { p13any<U>(c, true); }
void runProperty(Harness& h) {
    if (h.prop == "P11") {
        h.group("char32", h.n(1200, 20000), p11<uint32_t>);
        h.group("char64", h.n(800, 12000), p11<uint64_t>);
        if (h.scale >= 0.05) {
            h.group("scale32", h.n(16, 200), p11scale<uint32_t>);
            h.group("scale64", h.n(12, 160), p11scale<uint64_t>);
        }
    } else if (h.prop == "P13") {
        h.group("parity32", h.n(1800, 16000), p13<uint32_t>);
        h.group("parity64", h.n(1000, 9000), p13<uint64_t>);
        if (h.scale >= 0.05) {
            h.group("scale32", h.n(6, 100), p13scale<uint32_t>);
            h.group("scale64", h.n(4, 60), p13scale<uint64_t>);
        }
    } else { fprintf(stderr, "unknown property %s\n", h.prop.c_str()); _exit(3); }
}
