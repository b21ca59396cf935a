// P05 recursion search, P09 combined search, P10 reducible search, P12 (combined reducible search)
#define VERIF_MAIN
#include <algorithm>
#include "gens.hpp"
#include "ntlconv.hpp"
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleRT.hpp>
#include "redoracle.hpp"

using namespace MTToolBox;

static std::vector<uint64_t> factorSmall(uint64_t v) {
    std::vector<uint64_t> f;
    for (uint64_t d = 2; d * d <= v; d += d == 2 ? 1 : 2)
        if (v % d == 0) { f.push_back(d); while (v % d == 0) v /= d; }
    if (v > 1) f.push_back(v);
    return f;
}
static bool primitive(const Poly& p, const std::vector<uint64_t>& fac) {
    if (!orc::irreducible(p) || !p.bit(0)) return false;
    int n = p.deg();
    uint64_t N = (n == 64 ? 0 : (UINT64_C(1) << n)) - 1;
    for (size_t i = 0; i < fac.size(); i++) {
        std::string bits;
        for (int k = 63; k >= 0; k--) bits += (((N / fac[i]) >> k) & 1) ? '1' : '0';
        if (orc::powx(bits, p).isOne()) return false;
    }
    return true;
}
static bool isMersenneExp(int n) {
    static const int m[] = {2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279};
    for (int x : m) if (x == n) return true;
    return false;
}

// pool of n-bit parameters of all kinds
template<class U> std::vector<std::shared_ptr<Model<U> > > makePool(Rng& r, int n, int size, int goodPercent, int tparams, bool mtstyle) {
    std::vector<std::shared_ptr<Model<U> > > pool;
    for (int i = 0; i < size; i++) {
        std::vector<Poly> b;
        GenOpt o;
        o.outMode = r.chance(1, 3) ? 1 : 0;
        o.tparams = tparams;
        o.mtstyle = mtstyle;
        bool good = i == 0 || r.chance(goodPercent, 100);
        if (good) b.push_back(randPrimMersenne(r, n));
        else switch (r.range(0, 4)) {
            case 0: b.push_back(randPoly(r, n)); break;                      // any companion polynomial
            case 1: { int a = r.range(1, n - 1); b.push_back(randIrred(r, a)); b.push_back(randIrred(r, n - a)); break; }
            case 2: if (n % 2 == 0) { Poly p = randIrred(r, n / 2); b.push_back(p); b.push_back(p); } else { b.push_back(randIrred(r, n - 1)); b.push_back(Poly(3)); } break;
            case 3: b.push_back(randIrred(r, n)); o.outMode = 2; break;      // dead output bits
            default: { Poly p = randIrred(r, n); p.flip(r.range(1, n - 1)); b.push_back(p); }
        }
        pool.push_back(makeModel<U>(r, b, o));
    }
    return pool;
}

// minimal polynomial of the observed bit of a candidate, by the oracle
template<class U> Poly candidatePoly(const LfsrGen<U>& g, size_t cur) {
    LfsrGen<U> c(g);
    c.cur = cur;
    for (int i = 0; i < MAXT; i++) c.pat[i] = c.act[i] = 0;
    c.reverse = false;
    c.seedState(1);
    int total = 2 * c.m().n + 8;
    return orc::minPolySeq(bitSeq(record(c, total), 0, total));
}

template<class U> struct Cands {          // cache
    LfsrGen<U>& g;
    std::vector<Poly> poly;
    std::vector<int> have;
    explicit Cands(LfsrGen<U>& gg) : g(gg), poly(gg.pool.size()), have(gg.pool.size(), 0) {}
    const Poly& get(size_t i) { if (!have[i]) { poly[i] = candidatePoly(g, i); have[i] = 1; } return poly[i]; }
};
static std::vector<size_t> setups(const std::vector<Event>& l, size_t from) {
    std::vector<size_t> r;
    for (size_t i = from; i < l.size(); i++) if (l[i].e == EV_SETUPPARAM) r.push_back(static_cast<size_t>(l[i].b));
    return r;
}

// ---------------------------------------------------------------- P05
template<class U, class J> static void p05run(Case& c, const std::vector<std::shared_ptr<Model<U> > >& pool, int n, bool useList, const AlgorithmPrimitivity& prim, J accept) {
    Rng& r = c.rng;
    LfsrGen<U> g(pool);
    g.drawWidth = r.chance(1, 2) ? 32 : 64;
    std::vector<Event> log;
    g.log = &log;
    g.seedState(r.next());
    ListParams pg(r.next());
    AlgorithmRecursionSearch<U> * s = useList ? new AlgorithmRecursionSearch<U>(g, pg, prim) : new AlgorithmRecursionSearch<U>(g, pg);
    std::unique_ptr<AlgorithmRecursionSearch<U> > hold(s);
    Cands<U> cand(g);
    long expected = 0;
    c.check(s->getCount() == 0, "count-initial", S(s->getCount()));
    int calls = r.range(1, 5);
    for (int k = 0; k < calls; k++) {
        int budget = n > 1000 ? r.range(0, 6) : r.chance(1, 6) ? 0 : (r.chance(1, 3) ? 1 : r.range(2, 40));
        size_t from = log.size(), drawn = pg.given.size();
        Steps::set(static_cast<long>(budget + 4) * (2 * n + 4) * 4 + 1000);
        bool ok = s->start(budget);
        Steps::set(-1);
        std::vector<size_t> tried = setups(log, from);
        std::string d = "n=" + S(n) + " pool=" + S(pool.size()) + " call " + S(k) + " budget=" + S(budget) + " list=" + S(useList) + " tried=" + S(tried.size());
        // oracle replay over the candidates the stream yields
        bool want = false;
        size_t wantTried = 0;
        Poly wp;
        size_t wcur = 0;
        Rng peek = pg.r;
        (void)peek;
        for (size_t i = 0; i < tried.size() && !want; i++) {
            wantTried++;
            const Poly& p = cand.get(tried[i]);
            if (p.deg() == n && accept(p)) { want = true; wp = p; wcur = tried[i]; }
        }
        c.check(wantTried == tried.size(), "missed-good-candidate", d + " accepted candidate was number " + S(wantTried));
        c.check(ok == want, "verdict", d + " want " + S(want) + " got " + S(ok));
        if (!want) c.check(tried.size() == static_cast<size_t>(budget), "budget", d);
        c.check(tried.size() <= static_cast<size_t>(budget), "budget", d);
        c.check(pg.given.size() - drawn == tried.size(), "draws", d + " draws " + S(pg.given.size() - drawn));
        expected += static_cast<long>(tried.size());
        c.check(s->getCount() == expected, "count", d + " count " + S(s->getCount()) + " want " + S(expected));
        if (ok && want) {
            c.check(g.cur == wcur && g.lastDraw == pg.given.back(), "parameter", d);
            c.check(fromNTL(s->getMinPoly()) == wp, "minpoly", d + " want " + wp.str() + " got " + fromNTL(s->getMinPoly()).str());
            c.check(s->getParamString() == g.getParamString(), "param-string", d);
        }
        c.eval(d + " pos " + S(wcur) + " draws " + S(pg.given.size()), ok || tried.size() > 1);
        c.count("candidates", static_cast<long>(tried.size()));
        if (ok) c.count("found"); else c.count("not_found");
    }
    c.leak(LfsrGen<U>::live(), 1, "AlgorithmRecursionSearch");
}

template<class U> static void p05(Case& c) {
    Rng& r = c.rng;
    bool mers = r.chance(1, 2);
    static const int me[] = {3, 5, 7, 13, 17, 19, 31, 61, 89};
    int n = mers ? me[r.range(0, 8)] : r.range(4, 50);
    std::vector<uint64_t> fac = n <= 60 ? factorSmall((UINT64_C(1) << n) - 1) : std::vector<uint64_t>();
    std::vector<std::string> strs;
    std::vector<const char *> cs;
    for (size_t i = 0; i < fac.size(); i++) strs.push_back(std::to_string(fac[i]));
    for (size_t i = 0; i < strs.size(); i++) cs.push_back(strs[i].c_str());
    cs.push_back(NULL);
    bool useList = !mers || (n <= 60 && r.chance(1, 2));
    AlgorithmPrimitivity prim(cs.data());
    int goodp = r.chance(1, 3) ? 0 : r.range(1, 40);
    std::vector<std::shared_ptr<Model<U> > > pool = makePool<U>(r, n, r.range(2, 24), goodp, 1, false);
    if (r.chance(1, 6)) pool.erase(pool.begin());      // possibly no good one at all
    p05run<U>(c, pool, n, useList, prim, [&](const Poly& p) { return useList ? primitive(p, fac) : orc::irreducible(p); });
}
template<class U> static std::vector<std::shared_ptr<Model<U> > > bigPool(Rng& r, int n, int size, int tparams, bool mtstyle, std::vector<Poly>& good) {
    std::vector<std::shared_ptr<Model<U> > > pool;
    for (int i = 0; i < size; i++) {
        std::vector<Poly> b;
        if (i == 0 || r.chance(1, 5)) { b.push_back(randPrimMersenne(r, n)); good.push_back(b[0]); }
        else {
            std::vector<int> sm;
            for (int d : {127, 521, 607, 1279, 2281}) if (d < n - 30) sm.push_back(d);
            int d = r.chance(1, 2) ? r.range(2, 24) : r.pick(sm);
            b.push_back(d <= 24 ? randIrred(r, d) : randPrimMersenne(r, d));
            Poly q = randPoly(r, n - d);
            if (!q.bit(0)) q.flip(0);
            if (r.chance(1, 2)) b.push_back(q); else b[0] = b[0] * q;
        }
        GenOpt o;
        o.outMode = r.chance(1, 3) ? 1 : 0;
        o.invertBase = false;
        o.tparams = tparams;
        o.mtstyle = mtstyle;
        pool.push_back(makeModel<U>(r, b, o));
    }
    return pool;
}
// degrees of real generators; which candidates are good is known by construction
template<class U> static void p05scale(Case& c) {
    Rng& r = c.rng;
    static const int me[] = {607, 1279, 2281, 3217, 4423};
    int n = me[c.index < 5 ? 4 - c.index : r.range(0, 4)];
    std::vector<Poly> good;
    std::vector<std::shared_ptr<Model<U> > > pool = bigPool<U>(r, n, 5, 0, false, good);
    if (r.chance(1, 8)) pool.erase(pool.begin());
    const char * none[] = {NULL};
    AlgorithmPrimitivity prim(none);
    p05run<U>(c, pool, n, false, prim, [&](const Poly& p) { return std::find(good.begin(), good.end(), p) != good.end(); });
    c.h.counters["max_degree"] = std::max<long>(c.h.counters["max_degree"], n);
}

// ---------------------------------------------------------------- P10
template<class U> std::vector<std::shared_ptr<Model<U> > > makeRedPool(Rng& r, int mexp, int extra, int size, int goodPercent, int tparams,
                                                                        bool mtstyle, bool full, bool projectParity = false) {
    std::vector<std::shared_ptr<Model<U> > > pool;
    int n = mexp + extra;
    for (int i = 0; i < size; i++) {
        std::vector<Poly> b;
        GenOpt o;
        o.outMode = full ? 0 : (r.chance(1, 4) ? 1 : 0);
        o.tparams = tparams;
        o.mtstyle = mtstyle;
        o.mexp = mexp;
        o.projectParity = projectParity;
        bool good = i == 0 || r.chance(goodPercent, 100);
        int left = n;
        int kind = good ? 0 : r.range(1, 4);
        if (kind == 0) { b.push_back(randPrimMersenne(r, mexp)); left -= mexp; }
        else if (kind == 1) { int d = mexp - r.range(1, std::min(3, mexp - 1)); b.push_back(randIrred(r, d)); left -= d; }
        else if (kind == 2 && extra > 0) { int d = mexp + r.range(1, std::min(3, extra)); b.push_back(randIrred(r, d)); left -= d; }
        else if (kind == 3) { b.push_back(randPoly(r, mexp)); if (!b[0].bit(0)) b[0].flip(0); left -= mexp; }
        else { int d = mexp / 2 + 1; b.push_back(randIrred(r, d)); left -= d; if (mexp - d > 0) { b.push_back(randIrred(r, mexp - d)); left -= mexp - d; } }
        while (left > 0) {
            int d = r.range(1, std::min(left, 9));
            Poly p = d == 1 ? Poly(3) : (r.chance(1, 2) ? randIrred(r, d) : randPoly(r, d));
            if (!p.bit(0)) p.flip(0);
            b.push_back(p);
            left -= d;
        }
        // the big block is not always first
        std::swap(b[0], b[r.below(b.size())]);
        pool.push_back(makeModel<U>(r, b, o));
    }
    return pool;
}
template<class U, class J> static void p10run(Case& c, const std::vector<std::shared_ptr<Model<U> > >& pool, int mexp, int extra, J factorOf) {
    Rng& r = c.rng;
    LfsrGen<U> g(pool);
    g.drawWidth = r.chance(1, 2) ? 32 : 64;
    std::vector<Event> log;
    g.log = &log;
    ListParams pg(r.next());
    AlgorithmReducibleRecursionSearch<U> s(g, pg);
    Cands<U> cand(g);
    long expected = 0;
    c.check(s.getCount() == 0, "count-initial", S(s.getCount()));
    int n = mexp + extra;
    int calls = r.range(1, 5);
    for (int k = 0; k < calls; k++) {
        int budget = n > 500 ? r.range(0, 6) : r.chance(1, 6) ? 0 : (r.chance(1, 3) ? 1 : r.range(2, 30));
        size_t from = log.size(), drawn = pg.given.size();
        Steps::set(static_cast<long>(budget + 4) * (2 * n + 4) * 4 + 1000);
        bool ok = s.start(budget);
        Steps::set(-1);
        std::vector<size_t> tried = setups(log, from);
        std::string d = "mexp=" + S(mexp) + " n=" + S(n) + " pool=" + S(pool.size()) + " call " + S(k) + " budget=" + S(budget) + " tried=" + S(tried.size());
        bool want = false;
        size_t wantTried = 0, wcur = 0;
        Poly wp, wf;
        for (size_t i = 0; i < tried.size() && !want; i++) {
            wantTried++;
            const Poly& p = cand.get(tried[i]);
            if (factorOf(p, wf)) { want = true; wp = p; wcur = tried[i]; }
        }
        c.check(wantTried == tried.size(), "missed-good-candidate", d + " good candidate was number " + S(wantTried));
        c.check(ok == want, "verdict", d + " want " + S(want) + " got " + S(ok));
        if (!want) c.check(tried.size() == static_cast<size_t>(budget), "budget", d);
        c.check(tried.size() <= static_cast<size_t>(budget), "budget", d);
        c.check(pg.given.size() - drawn == tried.size(), "draws", d);
        expected += static_cast<long>(tried.size());
        c.check(s.getCount() == expected, "count", d + " count " + S(s.getCount()) + " want " + S(expected));
        if (ok && want) {
            c.check(g.cur == wcur && g.lastDraw == pg.given.back(), "parameter", d);
            c.check(fromNTL(s.getCharacteristicPolynomial()) == wp, "minpoly", d + " want " + wp.str() + " got " + fromNTL(s.getCharacteristicPolynomial()).str());
            Poly f = fromNTL(s.getIrreducibleFactor());
            c.check(f == wf, "factor", d + " want " + wf.str() + " got " + f.str());
            c.check(f.deg() == mexp && (wp % f).isZero() && (mexp > 500 || orc::irreducible(f)), "factor", d + " got " + f.str());
            c.check(s.getParamString() == g.getParamString(), "param-string", d);
        }
        c.eval(d + " pos " + S(wcur) + " draws " + S(pg.given.size()), ok || tried.size() > 1);
        c.count("candidates", static_cast<long>(tried.size()));
        if (ok) c.count("found"); else c.count("not_found");
    }
    c.leak(LfsrGen<U>::live(), 1, "AlgorithmReducibleRecursionSearch");
}
template<class U> static void p10(Case& c) {
    Rng& r = c.rng;
    static const int me[] = {5, 7, 13, 17, 19, 31, 61, 89, 127};
    int mexp = me[r.range(0, c.h.thorough() ? 8 : 7)];
    int extra = r.range(0, std::min(mexp - 1, 30));
    std::vector<std::shared_ptr<Model<U> > > pool = makeRedPool<U>(r, mexp, extra, r.range(2, 16), r.chance(1, 3) ? 0 : r.range(1, 40), 1, false, false);
    if (r.chance(1, 6)) pool.erase(pool.begin());
    p10run<U>(c, pool, mexp, extra, [&](const Poly& p, Poly& f) { return largeFactor(p, mexp, f); });
}
template<class U> static std::vector<std::shared_ptr<Model<U> > > bigRedPool(Rng& r, int mexp, int extra, int size, int tparams, bool mtstyle, std::vector<Poly>& good) {
    std::vector<std::shared_ptr<Model<U> > > pool;
    for (int i = 0; i < size; i++) {
        std::vector<Poly> b;
        int left = mexp + extra;
        if (i == 0 || r.chance(1, 4)) { b.push_back(randPrimMersenne(r, mexp)); good.push_back(b[0]); left -= mexp; }
        while (left > 0) {          // factors of smaller degrees
            std::vector<int> sm;
            for (int d : {127, 521, 607, 1279, 2281}) if (d < mexp && d <= left) sm.push_back(d);
            int d = !sm.empty() && r.chance(3, 4) ? r.pick(sm) : r.range(1, std::min(left, 20));
            if (d == 1) b.push_back(Poly(3));
            else if (d <= 20) { Poly p = randPoly(r, d); if (!p.bit(0)) p.flip(0); b.push_back(p); }
            else b.push_back(randPrimMersenne(r, d));
            left -= d;
            while (b.size() > 14 && left > 0) { int e = std::min(left, mexp - 1); Poly p = randPoly(r, e); if (!p.bit(0)) p.flip(0); b.push_back(p); left -= e; }
        }
        std::swap(b[0], b[r.below(b.size())]);
        GenOpt o;
        o.mexp = mexp;
        o.tparams = tparams;
        o.mtstyle = mtstyle;
        o.invertBase = false;
        pool.push_back(makeModel<U>(r, b, o));
    }
    return pool;
}
template<class U> static bool knownFactor(const Poly& p, const std::vector<Poly>& good, Poly& f) {
    for (size_t i = 0; i < good.size(); i++) if (p.deg() >= good[i].deg() && (p % good[i]).isZero()) { f = good[i]; return true; }
    return false;
}
template<class U> static void p10scale(Case& c) {
    Rng& r = c.rng;
    static const int me[] = {521, 607, 1279, 2281, 4423};
    int mexp = me[c.index < 5 ? 4 - c.index : r.range(0, 4)];
    int extra = r.chance(1, 2) ? r.range(1, 130) : r.range(1, std::min(mexp - 1, 1500));
    std::vector<Poly> good;
    std::vector<std::shared_ptr<Model<U> > > pool = bigRedPool<U>(r, mexp, extra, 4, 1, false, good);
    if (r.chance(1, 8)) { pool.erase(pool.begin()); }
    p10run<U>(c, pool, mexp, extra, [&](const Poly& p, Poly& f) { return knownFactor<U>(p, good, f); });
    c.h.counters["max_degree"] = std::max<long>(c.h.counters["max_degree"], mexp + extra);
}

// ---------------------------------------------------------------- P09 / P12 combined searches
// a tempering stage that records when it ran and leaves random tempering behind
template<class U> class ScriptTempering : public AlgorithmTempering<U> {
public:
    Rng r;
    bool lsb;
    int runs;
    std::vector<int> * order;
    int id;
    bool last;
    std::vector<bool> sawVerbose;
    std::shared_ptr<LfsrGen<U> > entered;          // the generator as this stage received it
    std::shared_ptr<LfsrGen<U> > left;             // the generator as this stage left it, in the direction it worked in
    ScriptTempering(uint64_t seed, bool l, std::vector<int> * o, int i) : r(seed), lsb(l), runs(0), order(o), id(i), last(false) {}
    int operator()(TemperingCalculatable<U>& g, bool verbose = false) {
        order->push_back(id);
        runs++;
        sawVerbose.push_back(verbose);
        LfsrGen<U>& lg = dynamic_cast<LfsrGen<U>&>(g);
        entered.reset(new LfsrGen<U>(lg));
        entered->log = 0;
        bool touch = lsb || r.chance(1, 2);       // a stage for the upper bits may leave the direction alone altogether
        if (lsb) g.setReverseOutput(); else if (touch) g.resetReverseOutput();
        for (int i = 0; i < lg.m().tparams; i++) g.setTemperingPattern(WordOps<U>::rnd(r), WordOps<U>::rnd(r), i);
        g.setUpTempering();
        left.reset(new LfsrGen<U>(lg));
        left->log = 0;
        left->reverse = lsb;
        if (touch) g.resetReverseOutput();
        return 0;
    }
    bool isLSBTempering() const { return lsb; }
};
struct Report { std::vector<std::pair<int, std::pair<int, int> > > k; std::vector<int> deltas; bool hasParam; };
// the tables of k(v) in order, and the value of "lsb delta"
static std::vector<std::vector<int> > sections(const std::string& text, std::vector<long>& lsb) {
    std::vector<std::vector<int> > all;
    std::istringstream is(text);
    std::string l;
    lsb.clear();
    while (std::getline(is, l)) {
        int v, k, d, used = 0;
        if (sscanf(l.c_str(), "%d:%d(%d)%n", &v, &k, &d, &used) == 3 && used == static_cast<int>(l.size())) {
            if (v == 1) all.push_back(std::vector<int>());
            if (!all.empty() && v == static_cast<int>(all.back().size()) + 1) all.back().push_back(k);
        } else if (l.compare(0, 12, "lsb delta = ") == 0) lsb.push_back(strtol(l.c_str() + 12, 0, 10));
    }
    return all;
}
static void parseReport(const std::string& text, std::vector<int>& kv, std::vector<int>& dd, std::vector<long>& deltas) {
    std::istringstream is(text);
    std::string l;
    kv.clear(); dd.clear(); deltas.clear();
    while (std::getline(is, l)) {
        int v, k, d, used = 0;
        if (sscanf(l.c_str(), "%d:%d(%d)%n", &v, &k, &d, &used) == 3 && used == static_cast<int>(l.size())) {
            if (v == 1) { kv.clear(); dd.clear(); }
            if (v == static_cast<int>(kv.size()) + 1) { kv.push_back(k); dd.push_back(d); }
        } else if (l.compare(0, 8, "delta = ") == 0) deltas.push_back(strtol(l.c_str() + 8, 0, 10));
    }
}
template<class U> static void p09any(Case& c, bool scale) {
    Rng& r = c.rng;
    const int B = WordOps<U>::bits;
    static const int me[] = {7, 13, 17, 19, 31, 61};
    bool list = !scale && r.chance(1, 4);
    int n = scale ? r.pick(std::vector<int>{521, 607, 1279}) : list ? r.range(6, 40) : me[r.range(0, 5)];
    std::vector<uint64_t> fac = n <= 60 ? factorSmall((UINT64_C(1) << n) - 1) : std::vector<uint64_t>();
    std::vector<std::string> strs;
    std::vector<const char *> cs;
    for (size_t i = 0; i < fac.size(); i++) strs.push_back(std::to_string(fac[i]));
    for (size_t i = 0; i < strs.size(); i++) cs.push_back(strs[i].c_str());
    cs.push_back(NULL);
    AlgorithmPrimitivity prim(cs.data());
    int tp = r.range(1, 2);
    bool mts = r.chance(1, 2);
    std::vector<Poly> good;
    std::vector<std::shared_ptr<Model<U> > > pool = scale ? bigPool<U>(r, n, 4, tp, mts, good) : makePool<U>(r, n, r.range(3, 12), 15, tp, mts);
    if (scale) ;
    else if (list) {                                     // at least one acceptable
        for (;;) { Poly p = randIrred(r, n); if (primitive(p, fac)) { GenOpt o; o.tparams = tp; o.mtstyle = mts;
            std::shared_ptr<Model<U> > m = makeModel<U>(r, std::vector<Poly>(1, p), o); pool[r.below(pool.size())] = m;
            LfsrGen<U> t(std::vector<std::shared_ptr<Model<U> > >(1, m)); if (candidatePoly(t, 0).deg() == n) break; } }
    } else {
        bool any = false;
        LfsrGen<U> t(pool);
        for (size_t i = 0; i < pool.size(); i++) { Poly p = candidatePoly(t, i); any |= p.deg() == n && orc::irreducible(p); }
        if (!any) return;
    }
    uint64_t pseed = r.next(), tseed = r.next();
    bool real = r.chance(1, 5) && n < 32;
    int searches = scale ? 1 : r.range(1, 3);
    int form = r.range(0, 2);                       // 0: two stages, 1: two stages no_lsb, 2: single-stage overload
    int lsbFirst = r.range(0, 1);
    std::vector<std::vector<uint64_t> > finals[2], draws[2];
    for (int verbose = 0; verbose < 2; verbose++) {
        LfsrGen<U> g(pool);
        std::vector<Event> log;
        g.log = &log;
        ListParams pg(pseed);
        AlgorithmRecursionAndTempering<U> dflt(pg), withList(pg, prim);
        AlgorithmRecursionAndTempering<U>& rt = list ? withList : dflt;
        std::vector<int> order;
        ScriptTempering<U> m1(tseed, false, &order, 1), m2(tseed + 1, true, &order, 2), m2b(tseed + 1, false, &order, 2);
        AlgorithmPartialBitPattern<U, B, 1, 3, 3, false> real1;
        AlgorithmPartialBitPattern<U, B, 1, 3, 3, true> real2;
        AlgorithmTempering<U>& st1 = real ? static_cast<AlgorithmTempering<U>&>(real1) : m1;
        AlgorithmTempering<U>& st2 = real ? static_cast<AlgorithmTempering<U>&>(real2) : (lsbFirst ? m2 : m2b);
        for (int k = 0; k < searches; k++) {
            std::ostringstream os;
            order.clear();
            size_t from = log.size();
            Steps::set(400000000L);
            bool ok = form == 0 ? rt.search(g, st1, st2, verbose != 0, os, false)
                    : form == 1 ? rt.search(g, st1, st2, verbose != 0, os, true) : rt.search(g, st1, verbose != 0, os);
            Steps::set(-1);
            std::string d = "n=" + S(n) + " form=" + S(form) + " verbose=" + S(verbose) + " list=" + S(list) + " real=" + S(real) + " search " + S(k) + " cur=" + S(g.cur);
            c.check(ok, "verdict", d);
            Poly p = candidatePoly(g, g.cur);
            c.check(p.deg() == n && (scale ? std::find(good.begin(), good.end(), p) != good.end() : list ? primitive(p, fac) : orc::irreducible(p)), "not-full-period", d + " poly " + p.str());
            c.check(fromNTL(rt.getCharacteristicPolynomial()) == p, "poly", d + " want " + p.str() + " got " + fromNTL(rt.getCharacteristicPolynomial()).str());
            c.check(rt.getWeight() == p.weight(), "weight", d + " want " + S(p.weight()) + " got " + S(rt.getWeight()));
            c.check(!g.reverse, "left-reversed", d);
            std::vector<int> kk = oracleK(record(g, 2 * n + 4), n, B);
            int want = deltaOf(n, kk);
            c.check(rt.getDelta() == want, "delta", d + " want " + S(want) + " got " + S(rt.getDelta()));
            if (!real) {
                std::vector<int> w;
                if (form == 0) w.push_back(2);
                w.push_back(1);
                c.check(order == w, "stage-order", d + " stages run: " + S(order.size()) + (order.empty() ? "" : " first " + S(order[0])));
            } else {
                // the LSB stage is the only one that reverses; the MSB stage is the last to set patterns
                bool rev = false;
                for (size_t i = from; i < log.size(); i++) rev |= log[i].e == EV_REVERSE;
                c.check(rev == (form == 0), "stage-order", d + " reversed " + S(rev));
            }
            if (verbose) {
                std::vector<int> kv, dd;
                std::vector<long> deltas;
                parseReport(os.str(), kv, dd, deltas);
                c.check(kv == kk, "report-k", d + " printed " + S(kv.size()) + " values");
                bool okd = dd.size() == kk.size();
                for (size_t i = 0; okd && i < kk.size(); i++) okd = dd[i] == n / static_cast<int>(i + 1) - kk[i];
                c.check(okd, "report-defects", d);
                c.check(!deltas.empty() && deltas.back() == want, "report-delta", d + " printed " + (deltas.empty() ? "none" : S(deltas.back())) + " want " + S(want));
                c.check(os.str().find(g.getParamString()) != std::string::npos, "report-params", d);
                if (!real && form == 0) {
                    ScriptTempering<U>& used = lsbFirst ? m2 : m2b;
                    std::vector<long> ld;
                    std::vector<std::vector<int> > sec = sections(os.str(), ld);
                    LfsrGen<U> t(*used.left);
                    std::vector<int> lk = oracleK(record(t, 2 * n + 4), n, B);
                    c.check(sec.size() == 3 && sec[1] == lk, "report-lsb-k", d + " sections " + S(sec.size()));
                    LfsrGen<U> t0(*used.entered);
                    c.check(!sec.empty() && sec[0] == oracleK(record(t0, 2 * n + 4), n, B), "report-initial-k", d);
                    c.check(!deltas.empty() && deltas[0] == deltaOf(n, oracleK(record(t0, 2 * n + 4), n, B)), "report-initial-delta", d);
                    c.check(ld.size() == 1 && ld[0] == deltaOf(n, lk), "report-lsb-delta", d + " printed " + (ld.empty() ? "none" : S(ld[0])) + " want " + S(deltaOf(n, lk)));
                }
            } else c.check(os.str().empty(), "output-when-not-verbose", d + os.str().substr(0, 100));
            std::vector<uint64_t> fin(1, g.cur);
            for (int i = 0; i < MAXT; i++) fin.push_back(static_cast<uint64_t>(g.act[i]));
            fin.push_back(static_cast<uint64_t>(rt.getDelta()));
            finals[verbose].push_back(fin);
            draws[verbose].push_back(pg.given);
            c.eval(d + " delta=" + S(want) + " poly " + p.str(), true);
            c.count("searches");
        }
    }
    c.check(finals[0] == finals[1], "verbose-changes-result", "n=" + S(n));
    c.check(draws[0] == draws[1], "verbose-changes-draws", "n=" + S(n));
    c.leak(LfsrGen<U>::live(), 0, "AlgorithmRecursionAndTempering");
}

template<class U> static void p09(Case& c) { p09any<U>(c, false); }
template<class U> static void p09scale(Case& c) { p09any<U>(c, true); }

template<class U> static void p12rtAny(Case& c, bool scale) {
    Rng& r = c.rng;
    const int B = WordOps<U>::bits;
    static const int me[] = {13, 17, 19, 31, 61, 89};
    int mexp = scale ? r.pick(std::vector<int>{521, 607, 1279}) : me[r.range(0, 5)];
    int extra = r.range(1, std::min(mexp - 1, B - 1));
    int tp = r.range(1, 2);
    bool mts = r.chance(1, 2);
    std::vector<std::shared_ptr<Model<U> > > pool = scale ? std::vector<std::shared_ptr<Model<U> > >() : makeRedPool<U>(r, mexp, extra, r.range(2, 8), 20, tp, mts, true);
    std::vector<Poly> good;
    if (scale) pool = bigRedPool<U>(r, mexp, extra, 3, tp, mts, good);
    else {
        bool any = false;
        LfsrGen<U> t(pool);
        Poly f;
        for (size_t i = 0; i < pool.size(); i++) any |= largeFactor(candidatePoly(t, i), mexp, f);
        if (!any) return;
    }
    uint64_t pseed = r.next(), tseed = r.next();
    bool no_lsb = r.chance(1, 2);
    std::vector<std::vector<uint64_t> > finals[2], draws[2];
    int searches = scale ? 1 : r.range(1, 2);
    int n = mexp + extra;
    for (int verbose = 0; verbose < 2; verbose++) {
        LfsrGen<U> g(pool);
        std::vector<Event> log;
        g.log = &log;
        ListParams pg(pseed);
        AlgorithmReducibleRecursionAndTempering<U, LfsrGen<U> > rt(pg);
        std::vector<int> order;
        ScriptTempering<U> m1(tseed, false, &order, 1), m2(tseed + 1, true, &order, 2);
        for (int k = 0; k < searches; k++) {
            std::ostringstream os;
            order.clear();
            Steps::set(400000000L);
            bool ok = rt.search(g, m1, m2, verbose != 0, os, no_lsb);
            Steps::set(-1);
            std::string d = "mexp=" + S(mexp) + " n=" + S(n) + " no_lsb=" + S(no_lsb) + " verbose=" + S(verbose) + " search " + S(k) + " cur=" + S(g.cur);
            c.check(ok, "verdict", d);
            Poly p = candidatePoly(g, g.cur), f;
            bool has = scale ? knownFactor<U>(p, good, f) : largeFactor(p, mexp, f);
            c.check(has, "no-large-factor", d + " poly " + p.str());
            if (!has) continue;
            c.check(fromNTL(rt.getIrreducibleFactor()) == f, "factor", d + " want " + f.str() + " got " + fromNTL(rt.getIrreducibleFactor()).str());
            Words s = applyPoly(g.m().rec, f, g.s);
            c.check(zeroWords(s) && !g.isZero(), "component-not-selected", d);
            c.check(!g.reverse, "left-reversed", d);
            std::vector<int> kk = oracleK(record(g, 2 * mexp + 4), mexp, B);
            int want = deltaOf(n, kk);
            c.check(rt.getDelta() == want, "delta", d + " want " + S(want) + " got " + S(rt.getDelta()));
            if (!(g.m().rec.charpol % (f * f)).isZero()) {
                std::string e = certify<U>(g, f, rt.getParity());
                c.check(e.empty(), "parity", d + " " + e);
            }
            c.check(g.parity == rt.getParity(), "parity-not-handed-over", d);
            std::vector<int> w;
            if (!no_lsb) w.push_back(2);
            w.push_back(1);
            c.check(order == w, "stage-order", d);
            if (verbose) {
                std::vector<int> kv, dd;
                std::vector<long> deltas;
                parseReport(os.str(), kv, dd, deltas);
                c.check(kv == kk, "report-k", d + " printed " + S(kv.size()) + " values");
                bool okd = dd.size() == kk.size();
                for (size_t i = 0; okd && i < kk.size(); i++) okd = dd[i] == g.bitSize() / static_cast<int>(i + 1) - kk[i];
                c.check(okd, "report-defects", d);
                c.check(!deltas.empty() && deltas.back() == want, "report-delta", d);
                c.check(os.str().find(g.getParamString()) != std::string::npos, "report-params", d);
                std::vector<long> ld;
                std::vector<std::vector<int> > sec = sections(os.str(), ld);
                LfsrGen<U> t0(no_lsb ? *m1.entered : *m2.entered);
                std::vector<int> ik = oracleK(record(t0, 2 * mexp + 4), mexp, B);
                c.check(sec.size() == (no_lsb ? 2U : 3U) && sec[0] == ik, "report-initial-k", d + " sections " + S(sec.size()));
                c.check(!deltas.empty() && deltas[0] == deltaOf(n, ik), "report-initial-delta", d);
                if (!no_lsb) {
                    LfsrGen<U> t(*m2.left);
                    std::vector<int> lk = oracleK(record(t, 2 * mexp + 4), mexp, B);
                    c.check(sec.size() == 3 && sec[1] == lk, "report-lsb-k", d + " sections " + S(sec.size()));
                    c.check(ld.size() == 1 && ld[0] == deltaOf(n, lk), "report-lsb-delta", d + " printed " + (ld.empty() ? "none" : S(ld[0])) + " want " + S(deltaOf(n, lk)));
                }
            } else c.check(os.str().empty(), "output-when-not-verbose", d);
            std::vector<uint64_t> fin(1, g.cur);
            for (int i = 0; i < MAXT; i++) fin.push_back(static_cast<uint64_t>(g.act[i]));
            fin.push_back(static_cast<uint64_t>(rt.getDelta()));
            fin.push_back(static_cast<uint64_t>(rt.getParity()));
            finals[verbose].push_back(fin);
            draws[verbose].push_back(pg.given);
            c.eval("rt " + d + " delta=" + S(want) + " factor " + f.str(), true);
            c.count("combined_searches");
        }
    }
    c.check(finals[0] == finals[1], "verbose-changes-result", "mexp=" + S(mexp));
    c.check(draws[0] == draws[1], "verbose-changes-draws", "mexp=" + S(mexp));
    c.leak(LfsrGen<U>::live(), 0, "AlgorithmReducibleRecursionAndTempering");
}

template<class U> static void p12rt(Case& c) { p12rtAny<U>(c, false); }
template<class U> static void p12rtScale(Case& c) { p12rtAny<U>(c, true); }

void runProperty(Harness& h) {
    if (h.prop == "P05") {
        h.group("search32", h.n(1200, 20000), p05<uint32_t>);
        h.group("search64", h.n(1200, 20000), p05<uint64_t>);
        if (h.scale >= 0.05) {
            h.group("scale32", h.n(16, 200), p05scale<uint32_t>);
            h.group("scale64", h.n(12, 160), p05scale<uint64_t>);
        }
    } else if (h.prop == "P10") {
        h.group("red32", h.n(800, 12000), p10<uint32_t>);
        h.group("red64", h.n(800, 12000), p10<uint64_t>);
        if (h.scale >= 0.05) {
            h.group("scale32", h.n(16, 200), p10scale<uint32_t>);
            h.group("scale64", h.n(12, 160), p10scale<uint64_t>);
        }
    } else if (h.prop == "P09") {
        h.group("rt32", h.n(240, 4000), p09<uint32_t>);
        h.group("rt64", h.n(120, 2000), p09<uint64_t>);
        if (h.scale >= 0.05) {
            h.group("scale32", h.n(12, 160), p09scale<uint32_t>);
            h.group("scale64", h.n(6, 80), p09scale<uint64_t>);
        }
    } else if (h.prop == "P12") {
        h.group("redrt32", h.n(160, 3000), p12rt<uint32_t>);
        h.group("redrt64", h.n(80, 1500), p12rt<uint64_t>);
        if (h.scale >= 0.05) {
            h.group("rtscale32", h.n(8, 120), p12rtScale<uint32_t>);
            h.group("rtscale64", h.n(4, 60), p12rtScale<uint64_t>);
        }
    } else { fprintf(stderr, "unknown property %s\n", h.prop.c_str()); _exit(3); }
}
