// P06 equidistribution, P07 block-wise tempering, P08 bit-wise tempering, P12 reducible equidistribution
#define VERIF_MAIN
#include <algorithm>
#include "gens.hpp"
#include "ntlconv.hpp"
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleEquidistribution.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>

using namespace MTToolBox;
template<class U> static std::string kstr(const std::vector<int>& k) { std::string s; for (size_t i = 0; i < k.size(); i++) s += (i ? "," : "") + S(k[i]); return s; }

template<class U> static void temperAll(Rng& r, LfsrGen<U>& g) {
    for (int i = 0; i < g.m().tparams; i++) g.setTemperingPattern(~static_cast<U>(0), r.chance(1, 4) ? 0 : WordOps<U>::rnd(r), i);
    g.setUpTempering();
}
static const int CANARY = 0x5a5a5a5a;

// one analysis of both forms against the oracle
template<class U, class MK> static void analyse(Case& c, const std::string& d, MK make, const LfsrGen<U>& g, const std::vector<int>& k, int n, int acc) {
    const int B = WordOps<U>::bits;
    LfsrGen<U> before(g);
    int veq[66];
    for (int i = 0; i < 66; i++) veq[i] = CANARY;
    int total = 0, sum = CANARY, single = 0;
    Steps::set(60000000L);
    {
        auto a = make();
        total = a->get_all_equidist(veq);
    }
    {
        auto a = make();
        single = a->get_equidist(&sum);
    }
    Steps::set(-1);
    int want = 0, wantSum = 0;
    std::string diff;
    for (int v = 1; v <= acc; v++) {
        want += n / v - k[static_cast<size_t>(v - 1)];
        if (v < acc) wantSum += n / v - k[static_cast<size_t>(v - 1)];
        if (veq[v - 1] != k[static_cast<size_t>(v - 1)]) diff += " k(" + S(v) + ") is " + S(k[static_cast<size_t>(v - 1)]) + " got " + S(veq[v - 1]);
    }
    c.check(diff.empty(), "veq", d + diff);
    c.check(total == want, "total", d + " want " + S(want) + " got " + S(total));
    c.check(single == k[static_cast<size_t>(acc - 1)], "single", d + " want " + S(k[static_cast<size_t>(acc - 1)]) + " got " + S(single));
    c.check(sum == wantSum, "single-sum", d + " want " + S(wantSum) + " got " + S(sum));
    for (int i = acc; i < 66; i++) c.check(veq[i] == CANARY, "veq-overrun", d);
    c.check(g.same(before), "generator-modified", d);
    (void)B;
}

// ---------------------------------------------------------------- P06
template<class U> static void p06one(Case& c, int n, const Poly& f, bool all) {
    Rng& r = c.rng;
    const int B = WordOps<U>::bits;
    GenOpt o;
    int om = r.range(0, 5);
    o.outMode = om == 5 ? 0 : om;
    o.tparams = r.range(0, 2);
    o.mtstyle = r.chance(1, 2);
    std::shared_ptr<Model<U> > m = makeModel<U>(r, std::vector<Poly>(1, f), o);
    LfsrGen<U> g(std::vector<std::shared_ptr<Model<U> > >(1, m));
    long live0 = LfsrGen<U>::live();
    g.seedState(r.next());
    temperAll(r, g);
    if (r.chance(1, 3)) g.setReverseOutput();
    std::vector<int> k = oracleK(record(g, 2 * n + 4), n, B);
    std::vector<int> accs;
    if (all) for (int v = 1; v <= B; v++) accs.push_back(v);
    else { accs.push_back(B); accs.push_back(r.range(1, B)); accs.push_back(r.range(1, 6)); }
    for (size_t i = 0; i < accs.size(); i++) {
        int acc = accs[i];
        std::string d = "n=" + S(n) + " acc=" + S(acc) + " out=" + S(o.outMode) + " rev=" + S(g.reverse) + " f=" + f.str();
        bool explicitSize = r.chance(1, 3);
        analyse<U>(c, d, [&]() { return std::unique_ptr<AlgorithmEquidistribution<U> >(
            explicitSize ? new AlgorithmEquidistribution<U>(g, acc, n) : new AlgorithmEquidistribution<U>(g, acc)); }, g, k, n, acc);
        c.eval(d + " k=" + kstr<U>(k), k[0] > 0 && acc > 1);
        c.count("k_values_compared", 2 * acc);
    }
    if (k[0] < n) c.count("top_bit_degenerate");
    if (deltaOf(n, k) == 0) c.count("perfect");
    c.leak(LfsrGen<U>::live(), live0, "AlgorithmEquidistribution");
}
template<class U> static void p06(Case& c) {
    int n = c.rng.chance(1, 3) ? c.rng.range(1, 12) : c.rng.range(2, 100);
    p06one<U>(c, n, randIrred(c.rng, n), c.rng.chance(1, 12));
}
template<class U> static void p06big(Case& c) {
    static const int me[] = {127, 521, 607, 127, 521, 1279};
    int n = me[c.rng.range(0, c.h.thorough() ? 5 : 4)];
    p06one<U>(c, n, randPrimMersenne(c.rng, n), false);
}

// state sizes of real generators, up from single bits and long stretches of zeros
template<class U> static void p06scale(Case& c) {
    Rng& r = c.rng;
    const int B = WordOps<U>::bits;
    int n = c.index == 0 || c.h.thorough() ? (r.chance(1, 2) ? 2281 : 1279) : 1279;
    Poly f = randPrimMersenne(r, n);
    GenOpt o;
    static const int om[] = {0, 1, 3, 3};
    o.outMode = om[c.index % 4];
    o.tparams = r.range(0, 1);
    o.invertBase = false;
    std::shared_ptr<Model<U> > m = makeModel<U>(r, std::vector<Poly>(1, f), o);
    if (c.index % 4 == 3) {       // one state bit makes all the output: as many zeros in a row as the recurrence has
        std::vector<U> cols(static_cast<size_t>(n), 0);
        int at = r.range(0, n - 1);
        for (int b = 0; b < B; b++) cols[static_cast<size_t>((at + b * r.range(0, 3)) % n)] |= static_cast<U>(1) << b;
        m->bcols[0] = cols;
        m->tbl = Model<U>::makeTable(cols);
    }
    LfsrGen<U> g(std::vector<std::shared_ptr<Model<U> > >(1, m));
    if (r.chance(1, 2)) g.setOneBit(r.range(0, n - 1)); else g.seedState(r.next());
    temperAll(r, g);
    if (r.chance(1, 3)) g.setReverseOutput();
    std::vector<int> k = oracleK(record(g, 2 * n + 4), n, B);
    int acc = c.index % 2 ? B : r.range(1, B);
    std::string d = "scale n=" + S(n) + " acc=" + S(acc) + " out=" + S(o.outMode) + " rev=" + S(g.reverse);
    analyse<U>(c, d, [&]() { return std::unique_ptr<AlgorithmEquidistribution<U> >(new AlgorithmEquidistribution<U>(g, acc)); }, g, k, n, acc);
    c.eval(d + f.str() + " k=" + kstr<U>(k), k[0] > 0 && acc > 1);
    c.count("k_values_compared", 2 * acc);
    c.h.counters["max_state_size"] = std::max<long>(c.h.counters["max_state_size"], n);
}

// ---------------------------------------------------------------- P12
template<class U> static void p12any(Case& c, bool scale) {
    Rng& r = c.rng;
    const int B = WordOps<U>::bits;
    static const int me[] = {3, 5, 7, 13, 17, 19, 31, 61, 89, 127};
    int mexp = me[r.range(0, 9)];
    int extra = r.range(0, std::min(mexp - 1, 40));
    if (scale) { mexp = r.pick(std::vector<int>{521, 607, 1279}); if (c.index == 0) mexp = 1279; extra = r.chance(1, 2) ? r.range(1, 127) : r.range(1, 500); }
    std::vector<Poly> b;
    b.push_back(randPrimMersenne(r, mexp));
    for (int left = extra; left > 0;) {
        int d = r.range(1, std::min(left, scale ? left : 12));
        Poly p = d == 1 ? Poly(3) : (d < 40 && r.chance(1, 2) ? randIrred(r, d) : randPoly(r, d));
        if (!p.bit(0)) p.flip(0);
        b.push_back(p);
        left -= d;
    }
    Poly f = b[0];
    std::swap(b[0], b[r.below(b.size())]);
    GenOpt o;
    o.outMode = r.chance(1, 4) ? 1 : 0;
    o.tparams = r.range(0, 2);
    o.mtstyle = r.chance(1, 2);
    o.mexp = mexp;
    std::shared_ptr<Model<U> > m = makeModel<U>(r, b, o);
    LfsrGen<U> g(std::vector<std::shared_ptr<Model<U> > >(1, m));
    long live0 = LfsrGen<U>::live();
    g.seedState(r.next());
    temperAll(r, g);
    int n = m->n;
    // the characteristic polynomial of what the outputs show (the library collects it from the output bits)
    std::vector<U> rec = record(g, 4 * n + 8);
    Poly chi(1);
    for (int bit = 0; bit < B; bit++) chi = orc::lcm(chi, orc::minPolySeq(bitSeq(rec, bit, 2 * n + 8)));
    if (!(chi % f).isZero()) { c.count("factor_not_visible"); return; }      // degenerate state/output
    bool rev = r.chance(1, 4);
    if (rev) { g.setReverseOutput(); rec = record(g, 4 * n + 8); }
    Poly q = chi / f;
    std::vector<U> comp = filterSeq(rec, q, 2 * mexp + 4);
    std::vector<int> k = oracleK(comp, mexp, B);
    int accs[3] = {B, r.range(1, B), r.range(1, 6)};
    for (int i = 0; i < (scale ? 1 : 3); i++) {
        int acc = scale && c.index % 2 ? accs[1] : accs[i];
        std::string d = "mexp=" + S(mexp) + " n=" + S(n) + " acc=" + S(acc) + " rev=" + S(rev) + " f=" + f.str() + " chi=" + chi.str();
        analyse<U>(c, d, [&]() { return std::unique_ptr<AlgorithmReducibleEquidistribution<U, LfsrGen<U> > >(
            new AlgorithmReducibleEquidistribution<U, LfsrGen<U> >(g, toNTL(f), acc, mexp)); }, g, k, mexp, acc);
        c.eval(d + " k=" + kstr<U>(k), extra > 0);
        c.count("k_values_compared", 2 * acc);
    }
    c.leak(LfsrGen<U>::live(), live0, "AlgorithmReducibleEquidistribution");
}

template<class U> static void p12(Case& c) { p12any<U>(c, false); }
template<class U> static void p12scale(Case& c) { p12any<U>(c, true); }

// ---------------------------------------------------------------- P07
template<class U> static int totalDefect(const LfsrGen<U>& g, int n, int vmax) { return deltaOf(n, oracleK(record(g, 2 * n + 4), n, vmax)); }

template<class U, class ALG> static void p07run(Case& c, ALG& alg, int params, int tryLen, int step, bool lsb, bool scale = false) {
    Rng& r = c.rng;
    const int B = WordOps<U>::bits;
    int n = r.chance(1, 2) ? r.range(5, 30) : r.range(20, 70);
    if (scale) n = r.pick(std::vector<int>{521, 607});
    Poly f = scale ? randPrimMersenne(r, n) : randIrred(r, n);
    GenOpt o;
    o.outMode = r.chance(1, 2) ? 0 : (r.chance(1, 2) ? 4 : 1);
    if (scale) o.outMode = 2;       // defects in the thousands
    o.tparams = params + (r.chance(1, 4) && params < 3 ? 1 : 0);      // one more parameter than the algorithm may touch
    o.mtstyle = r.chance(1, 2);
    std::shared_ptr<Model<U> > m = makeModel<U>(r, std::vector<Poly>(1, f), o);
    LfsrGen<U> g(std::vector<std::shared_ptr<Model<U> > >(1, m), r.chance(2, 3));
    g.seedState(r.next());
    if (r.chance(1, 2)) temperAll(r, g);
    if (r.chance(1, 3)) g.setReverseOutput();
    LfsrGen<U> init(g), want(g);
    long live0 = LfsrGen<U>::live();
    bool verbose = r.chance(1, 5);
    Steps::set(600000000L);
    alg(g, verbose);
    Steps::set(-1);
    std::string d = "n=" + S(n) + " B=" + S(B) + " params=" + S(params) + " range=" + S(tryLen) + " step=" + S(step) + " lsb=" + S(lsb) + " mtstyle=" + S(o.mtstyle) + " out=" + S(o.outMode);
    // frame: only tempering bits inside the range changed
    for (int i = 0; i < MAXT; i++) {
        U allowed = 0;
        if (i < params) for (int b = 0; b < tryLen; b++) allowed |= static_cast<U>(1) << (lsb ? b : B - 1 - b);
        c.check(((g.pat[i] ^ init.pat[i]) & ~allowed) == 0, "changed-outside-range", d + " param " + S(i) + " from " + hex(static_cast<uint64_t>(init.pat[i])) + " to " + hex(static_cast<uint64_t>(g.pat[i])));
    }
    c.check(memcmp(g.s, init.s, sizeof g.s) == 0 && g.cur == init.cur, "state-changed", d);
    c.check(!g.reverse, "left-reversed", d);
    c.check(memcmp(g.pat, g.act, sizeof g.pat) == 0 || !g.lazyTemper, "not-in-effect", d);
    // greedy optimality, block by block
    want.lazyTemper = false;
    want.reverse = lsb;
    int worst = 0;
    for (int p = 0; p < tryLen; p += step) {
        int len = std::min(step, tryLen - p);
        for (int i = 0; i < params; i++) {
            U mask = 0;
            for (int b = 0; b < len; b++) mask |= static_cast<U>(1) << (lsb ? p + b : B - 1 - p - b);
            U chosen = g.pat[i] & mask, rest = want.pat[i] & ~mask;
            int best = INT32_MAX, bestW = -1, chosenDelta = -1;
            for (int v = 0; v < (1 << len); v++) {
                U patt = 0;
                for (int b = 0; b < len; b++) if ((v >> b) & 1) patt |= static_cast<U>(1) << (lsb ? p + b : B - 1 - p - b);
                want.pat[i] = rest | patt;
                int dl = totalDefect(want, n, B);
                int w = __builtin_popcount(static_cast<unsigned>(v));
                if (dl < best || (dl == best && w > bestW)) { best = dl; bestW = w; }
                if (patt == chosen) chosenDelta = dl;
                worst = std::max(worst, dl);
            }
            want.pat[i] = rest | chosen;
            std::string e = d + " block " + S(p) + "+" + S(len) + " param " + S(i) + " chosen " + hex(static_cast<uint64_t>(chosen));
            c.check(chosenDelta == best, "not-minimal", e + " delta " + S(chosenDelta) + " best " + S(best));
            if (chosenDelta == best) c.check(__builtin_popcountll(static_cast<uint64_t>(chosen)) == bestW, "not-most-ones", e + " best weight " + S(bestW));
            c.eval(e + " best " + S(best) + " worst " + S(worst) + " poly " + f.str(), worst > best);
            c.count("patterns_evaluated", 1 << len);
        }
    }
    c.count("searches");
    c.leak(LfsrGen<U>::live(), live0, "AlgorithmPartialBitPattern");
}
template<class U, int PN, int TRY, int STEP, bool LSB> static void p07t(Case& c) {
    AlgorithmPartialBitPattern<U, WordOps<U>::bits, PN, TRY, STEP, LSB> alg;
    c.check(alg.isLSBTempering() == LSB, "isLSBTempering", "");
    p07run<U>(c, alg, PN, TRY, STEP, LSB);
}
template<class U, int PN, int TRY, int STEP, bool LSB> static void p07scale(Case& c) {
    AlgorithmPartialBitPattern<U, WordOps<U>::bits, PN, TRY, STEP, LSB> alg;
    p07run<U>(c, alg, PN, TRY, STEP, LSB, true);
}
template<class U, bool LSB> static void p07def(Case& c) {      // default step
    AlgorithmPartialBitPattern<U, WordOps<U>::bits, 1, 12> alg;
    AlgorithmPartialBitPattern<U, WordOps<U>::bits, 1, 12, 5, true> algL;
    if (LSB) p07run<U>(c, algL, 1, 12, 5, true); else p07run<U>(c, alg, 1, 12, 5, false);
}

// ---------------------------------------------------------------- P08
template<class U> static void p08any(Case& c, bool scale) {
    Rng& r = c.rng;
    const int B = WordOps<U>::bits;
    int n = scale ? r.pick(std::vector<int>{521, 607, 1279}) : r.range(4, 40);
    Poly f = scale ? randPrimMersenne(r, n) : randIrred(r, n);
    GenOpt o;
    { static const int om[] = {0, 1, 2, 2, 3, 4, 4, 4}; o.outMode = om[r.range(0, 7)]; }
    if (scale) o.outMode = r.chance(2, 3) ? 2 : 4;
    int size = scale ? 1 : r.range(1, 2);
    o.tparams = size;
    o.mtstyle = true;
    std::shared_ptr<Model<U> > m = makeModel<U>(r, std::vector<Poly>(1, f), o);
    int shifts[2];
    for (int i = 0; i < 2; i++) shifts[i] = r.chance(1, 5) ? r.range(1, 3) : r.range(2, B / 2 + 2);
    int limit = r.range(1, r.chance(1, 4) ? 14 : 8);
    if (scale) limit = r.range(2, 5);
    for (int i = 0; i < 2; i++) m->sh[i] = shifts[i];
    LfsrGen<U> g(std::vector<std::shared_ptr<Model<U> > >(1, m), r.chance(1, 2));
    g.seedState(r.next());
    if (r.chance(1, 2)) temperAll(r, g);
    if (r.chance(1, 3)) g.setReverseOutput();
    std::string d = "n=" + S(n) + " B=" + S(B) + " size=" + S(size) + " shifts=" + S(shifts[0]) + "," + S(shifts[1]) + " limit=" + S(limit) + " lazy=" + S(g.lazyTemper);
    // oracle: breadth first over survivors
    typedef std::vector<U> P;
    std::map<P, long> cur;           // survivor -> number of ways to reach it (the algorithm may keep them all)
    cur[P(static_cast<size_t>(size), 0)] = 1;
    LfsrGen<U> e(g);
    e.lazyTemper = false;
    e.reverse = false;
    int np = size * (size + 1) / 2;
    long evals = 0, work = 0;
    int done = 0, best = 0;
    for (int v = 0; v < limit; v++) {
        std::map<P, long> all;
        long ways = 0;
        for (typename std::map<P, long>::iterator it = cur.begin(); it != cur.end(); ++it) ways += it->second;
        if (ways > 200 || work > (scale ? 60 : 2000)) break;       // too broad to go on: shorten the search instead
        work += ways << np;
        for (typename std::map<P, long>::iterator it = cur.begin(); it != cur.end(); ++it)
            for (int pt = 0; pt < (1 << np); pt++) {
                // slots: parameter 0..size-1 at bit v; with two parameters also parameter 0 at bit v + shift of the last one
                P q = it->first;
                bool ok = true;
                for (int s = 0; s < np; s++) {
                    int idx = s < size ? s : 0, pos = v + (s < size ? 0 : shifts[size - 1]);
                    bool on = (pt >> s) & 1;
                    if (on && pos + shifts[idx] > B) ok = false;        // would select bits shifted out
                    if (pos + 1 >= B) continue;                          // nothing there to set
                    U bit = static_cast<U>(1) << (B - 1 - pos);
                    q[static_cast<size_t>(idx)] = on ? (q[static_cast<size_t>(idx)] | bit) : (q[static_cast<size_t>(idx)] & ~bit);
                }
                if (ok) all[q] += it->second;
            }
        std::map<P, long> next;
        best = INT32_MAX;
        for (typename std::map<P, long>::iterator it = all.begin(); it != all.end(); ++it) {
            for (int s = 0; s < size; s++) e.pat[s] = it->first[static_cast<size_t>(s)];
            int dl = totalDefect(e, n, v + 1);
            evals++;
            if (dl < best) { best = dl; next.clear(); }
            if (dl == best) next[it->first] = it->second;
        }
        cur.swap(next);
        done = v + 1;
    }
    limit = done;
    d += " depth " + S(limit) + " best " + S(best) + " survivors " + S(cur.size());
    c.h.counters["max_depth"] = std::max<long>(c.h.counters["max_depth"], limit);
    long live0 = LfsrGen<U>::live();
    LfsrGen<U> init(g);
    AlgorithmBestBits<U> alg(B, shifts, size, limit);
    Steps::set(1500000000L);
    alg(g, r.chance(1, 6));
    Steps::set(-1);
    P got;
    for (int i = 0; i < size; i++) got.push_back(g.pat[i]);
    auto eff = [&](P p) {          // bits that can matter
        for (int i = 0; i < size; i++) p[static_cast<size_t>(i)] &= ~static_cast<U>(0) << std::min(shifts[i], B - 1);
        return p;
    };
    bool in = false;
    for (typename std::map<P, long>::iterator it = cur.begin(); it != cur.end(); ++it) in |= eff(it->first) == eff(got);
    std::string gs;
    for (int i = 0; i < size; i++) gs += " " + hex(static_cast<uint64_t>(got[static_cast<size_t>(i)]));
    for (int s = 0; s < size; s++) e.pat[s] = got[static_cast<size_t>(s)];
    c.check(in, "not-a-survivor", d + " left" + gs + " with defect " + S(totalDefect(e, n, limit)));
    c.check(!g.reverse, "left-reversed", d);
    c.check(memcmp(g.pat, g.act, sizeof g.pat) == 0 || !g.lazyTemper, "not-in-effect", d);
    c.check(memcmp(g.s, init.s, sizeof g.s) == 0, "state-changed", d);
    c.check(!alg.isLSBTempering(), "isLSBTempering", d);
    c.eval(d + gs + " f=" + f.str(), cur.size() < (static_cast<size_t>(1) << (np * limit > 20 ? 20 : np * limit)));
    c.count("patterns_evaluated", evals);
    c.leak(LfsrGen<U>::live() - 1, live0, "AlgorithmBestBits");
}

template<class U> static void p08(Case& c) { p08any<U>(c, false); }
template<class U> static void p08scale(Case& c) { p08any<U>(c, true); }

// everything is equally good up to a depth, and there only the extensions of one secret: a search that drops survivors misses it
template<class U> static void p08trap(Case& c) {
    Rng& r = c.rng;
    const int B = WordOps<U>::bits;
    int size = r.chance(1, 3) ? 2 : 1;
    int depth = size == 2 ? r.range(2, 3) : r.range(2, 9);
    int n = r.range(std::max(depth, 5), 14);
    GenOpt o;
    o.tparams = size;
    std::shared_ptr<Model<U> > m = makeModel<U>(r, std::vector<Poly>(1, randIrred(r, n)), o);
    int shifts[2] = {r.range(1, B / 3), r.range(depth, B / 3)};
    m->trapDepth = depth;
    for (int t = 0; t < size; t++) m->trapSecret[t] = static_cast<U>(r.below(static_cast<uint64_t>(1) << depth));
    int limit = depth + (size == 1 && depth < 7 ? r.range(0, 2) : 0);
    LfsrGen<U> g(std::vector<std::shared_ptr<Model<U> > >(1, m), r.chance(1, 2));
    g.seedState(r.next());
    LfsrGen<U> shut(g), open(g);
    for (int t = 0; t < size; t++) {
        open.pat[t] = open.act[t] = m->trapSecret[t] << (B - depth);
        shut.pat[t] = shut.act[t] = (m->trapSecret[t] ^ 1) << (B - depth);
    }
    int dShut = totalDefect(shut, n, depth), dOpen = totalDefect(open, n, depth);
    if (dOpen >= dShut) return;      // the dead bit costs nothing here
    std::string d = "n=" + S(n) + " B=" + S(B) + " size=" + S(size) + " depth=" + S(depth) + " limit=" + S(limit) + " secret " + hex(static_cast<uint64_t>(m->trapSecret[0]));
    long live0 = LfsrGen<U>::live();
    AlgorithmBestBits<U> alg(B, shifts, size, limit);
    Steps::set(1500000000L);
    alg(g, false);
    Steps::set(-1);
    bool found = true;
    for (int t = 0; t < size; t++) found &= g.pat[t] >> (B - depth) == m->trapSecret[t];
    c.check(found, "survivor-dropped", d + " left " + hex(static_cast<uint64_t>(g.pat[0])));
    c.check(!g.reverse && memcmp(g.pat, g.act, sizeof(U) * static_cast<size_t>(size)) == 0, "not-in-effect", d);
    c.eval(d, true);
    c.count("equal_survivors", 1L << (size * depth));
    c.leak(LfsrGen<U>::live(), live0, "AlgorithmBestBits");
}

void runProperty(Harness& h) {
    if (h.prop == "P06") {
        h.group("k32", h.n(1500, 24000), p06<uint32_t>);
        h.group("k64", h.n(800, 12000), p06<uint64_t>);
        h.group("big32", h.n(24, 300), p06big<uint32_t>);
        h.group("big64", h.n(12, 160), p06big<uint64_t>);
        if (h.scale >= 0.05) {
            h.group("scale32", h.n(8, 100), p06scale<uint32_t>);
            h.group("scale64", h.n(4, 40), p06scale<uint64_t>);
        }
    } else if (h.prop == "P12") {
        h.group("red32", h.n(800, 12000), p12<uint32_t>);
        h.group("red64", h.n(400, 6000), p12<uint64_t>);
        if (h.scale >= 0.05) {
            h.group("scale32", h.n(8, 120), p12scale<uint32_t>);
            h.group("scale64", h.n(4, 60), p12scale<uint64_t>);
        }
    } else if (h.prop == "P07") {
        long q = h.n(10, 160);
        h.group("p32-1-9-3", q, p07t<uint32_t, 1, 9, 3, false>);
        h.group("p32-1-10-4-lsb", q, p07t<uint32_t, 1, 10, 4, true>);
        h.group("p32-2-7-3", q, p07t<uint32_t, 2, 7, 3, false>);
        h.group("p32-2-8-3-lsb", q, p07t<uint32_t, 2, 8, 3, true>);
        h.group("p32-3-5-2", q, p07t<uint32_t, 3, 5, 2, false>);
        h.group("p32-1-32-5", q, p07t<uint32_t, 1, 32, 5, false>);
        h.group("p32-1-32-6-lsb", q, p07t<uint32_t, 1, 32, 6, true>);
        h.group("p32-1-1-1", q, p07t<uint32_t, 1, 1, 1, false>);
        h.group("p32-1-3-7", q, p07t<uint32_t, 1, 3, 7, true>);
        if (h.scale >= 0.05) {
            h.group("scale32", h.n(8, 80), p07scale<uint32_t, 1, 3, 2, false>);
            h.group("scale32-lsb", h.n(4, 60), p07scale<uint32_t, 2, 2, 1, true>);
            h.group("scale64", h.n(4, 40), p07scale<uint64_t, 1, 2, 2, false>);
        }
        h.group("p32-default", q, p07def<uint32_t, false>);
        h.group("p32-default-lsb", q, p07def<uint32_t, true>);
        h.group("p64-1-9-4", q, p07t<uint64_t, 1, 9, 4, false>);
        h.group("p64-1-9-4-lsb", q, p07t<uint64_t, 1, 9, 4, true>);
        h.group("p64-2-6-5", q, p07t<uint64_t, 2, 6, 5, false>);
        h.group("p64-1-40-3", q, p07t<uint64_t, 1, 40, 3, false>);
        h.group("p64-1-40-3-lsb", q, p07t<uint64_t, 1, 40, 3, true>);
        h.group("p64-1-64-4", (q + 2) / 3, p07t<uint64_t, 1, 64, 4, true>);
    } else if (h.prop == "P08") {
        h.group("best32", h.n(300, 5000), p08<uint32_t>);
        h.group("best64", h.n(120, 2000), p08<uint64_t>);
        if (h.scale >= 0.05) {
            h.group("scale32", h.n(12, 160), p08scale<uint32_t>);
            h.group("scale64", h.n(6, 80), p08scale<uint64_t>);
        }
        h.group("trap32", h.n(60, 1200), p08trap<uint32_t>);
        h.group("trap64", h.n(40, 800), p08trap<uint64_t>);
    } else { fprintf(stderr, "unknown property %s\n", h.prop.c_str()); _exit(3); }
}
