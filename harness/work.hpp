// Deterministic pieces of library work, each on objects of its own, cut into steps that can be interleaved
// (P19) or run in concurrent threads (P20).  The digest contains everything the work could observe.
#ifndef VERIF_WORK_HPP
#define VERIF_WORK_HPP
#include "gens.hpp"
#include "ntlconv.hpp"
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/MersenneTwister64.hpp>
#include <MTToolBox/Sequential.hpp>
#include <MTToolBox/TestLinearity.hpp>
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleEquidistribution.hpp>
#include <MTToolBox/AlgorithmReducibleRT.hpp>
#include <MTToolBox/AlgorithmCalculateParity.hpp>

namespace work {
using namespace MTToolBox;

// called at generator steps: nested interleaving (P19) or scheduling noise (P20)
inline std::function<void()>& stepHook() { static thread_local std::function<void()> f; return f; }

template<class U> class HookGen : public LfsrGen<U> {
public:
    typedef LfsrGen<U> B;
    explicit HookGen(const std::vector<typename B::MP>& p, bool lazy = true) :
        AbstractGenerator<U>(), RecursionSearchable<U>(), EquidistributionCalculatable<U>(), ReducibleGenerator<U>(),
        TemperingCalculatable<U>(), B(p, lazy) {}
    HookGen(const HookGen& o) :
        AbstractGenerator<U>(), RecursionSearchable<U>(), EquidistributionCalculatable<U>(), ReducibleGenerator<U>(),
        TemperingCalculatable<U>(), B(o) {}
    using B::generate;
    U generate() { hook(); return B::generate(); }
    U generate(int len) { return B::generate(len); }      // calls generate()
    HookGen * clone() const { return new HookGen(*this); }
    void add(EquidistributionCalculatable<U>& o) { hook(); B::add(o); }
    static void hook() { if (stepHook()) stepHook()(); }
private:
    HookGen& operator=(const HookGen&);
};

struct Task {
    std::string name;
    std::vector<std::function<void(std::string&)> > steps;
    size_t at;
    std::string digest;
    bool busy;
    Task() : at(0), busy(false) {}
    bool done() const { return at >= steps.size(); }
    void step() { busy = true; size_t i = at++; std::string o; steps[i](o); digest += "[" + o + "]"; busy = false; }
    void run() { while (!done()) step(); }
};
typedef std::shared_ptr<Task> TaskP;

template<class U> std::string st(const LfsrGen<U>& g) {
    std::string s = S(g.cur) + (g.reverse ? "r" : "n") + hex(static_cast<uint64_t>(g.parity));
    for (int w = 0; w < g.m().nw; w++) s += "." + hex(g.s[w]);
    for (int i = 0; i < MAXT; i++) s += "," + hex(static_cast<uint64_t>(g.pat[i])) + "/" + hex(static_cast<uint64_t>(g.act[i]));
    return s;
}
inline std::string ps(const NTL::GF2X& p) { return fromNTL(p).str(); }

template<class U> std::vector<std::shared_ptr<Model<U> > > pool(Rng& r, int n, int mexp, int size, int tparams) {
    std::vector<std::shared_ptr<Model<U> > > v;
    for (int i = 0; i < size; i++) {
        GenOpt o;
        o.tparams = tparams;
        o.mtstyle = r.chance(1, 2);
        o.mexp = mexp;
        std::vector<Poly> b;
        int left = n;
        if (i == 0 || r.chance(1, 4)) { b.push_back(randPrimMersenne(r, mexp)); left -= mexp; }
        else { int d = r.range(2, n - 1); b.push_back(randIrred(r, d)); left -= d; }
        while (left > 0) { int d = r.range(1, left); Poly p = randPoly(r, d); if (!p.bit(0)) p.flip(0); b.push_back(d == 1 ? Poly(3) : p); left -= d; }
        v.push_back(makeModel<U>(r, b, o));
    }
    return v;
}
static const int NKIND = 16;
inline const char * kindName(int k) {
    static const char * n[NKIND] = {"mt32", "mt64", "sequential", "recursion-search", "equidistribution", "partial-bit-pattern", "best-bits",
        "recursion-and-tempering", "reducible-search", "reducible-equidistribution", "reducible-rt", "parity", "polynomials", "primitivity", "linearity", "minpoly"};
    return n[k];
}
template<class U> TaskP makeTaskU(int kind, uint64_t seed, int level) {
    Rng r(seed);
    TaskP t(new Task());
    t->name = kindName(kind);
    typedef HookGen<U> G;
    static const int me[] = {7, 13, 17, 19, 31};
    int mexp = me[r.range(0, 4)];
    auto& st_ = t->steps;
    uint64_t s1 = r.next(), s2 = r.next();
    switch (kind) {
    case 0: case 1: {
        std::shared_ptr<ParameterGenerator> g;
        if (kind == 0) g.reset(new MersenneTwister(static_cast<uint32_t>(s1))); else g.reset(new MersenneTwister64(s1));
        int chunks = r.range(3, 6);
        for (int i = 0; i < chunks; i++) {
            int n = r.range(1, 900), how = r.range(0, 2);
            bool reseed = r.chance(1, 4);
            st_.push_back([g, n, how, reseed, s2](std::string& o) {
                uint64_t h = 0;
                if (reseed) g->seed(s2);
                for (int k = 0; k < n; k++) h = h * 31 + (how == 0 || (how == 2 && (k & 1)) ? g->getUint32() : g->getUint64());
                o = hex(h);
            });
        }
        break;
    }
    case 2: {
        std::shared_ptr<Sequential<U> > q(new Sequential<U>(static_cast<U>(s1), static_cast<U>(r.range(0, 100))));
        for (int i = 0; i < 6; i++) {
            int n = r.range(1, 40);
            U v = static_cast<U>(r.range(0, 60));
            bool re = r.chance(1, 3);
            st_.push_back([q, n, v, re](std::string& o) {
                if (re) q->reseed(v);
                for (int k = 0; k < n; k++) try { o += hex(static_cast<uint64_t>(q->next())) + ","; } catch (std::underflow_error&) { o += "U"; }
            });
        }
        break;
    }
    case 3: case 8: {
        int n = kind == 3 ? mexp : mexp + r.range(0, mexp - 1);
        std::shared_ptr<G> g(new G(pool<U>(r, n, mexp, 6, 1)));
        std::shared_ptr<MersenneTwister> mt(new MersenneTwister(static_cast<uint32_t>(s1)));
        if (kind == 3) {
            std::shared_ptr<AlgorithmRecursionSearch<U> > a(new AlgorithmRecursionSearch<U>(*g, *mt));
            for (int i = 0; i < 4; i++) { int b = r.range(0, 6); st_.push_back([g, mt, a, b](std::string& o) {
                bool ok = a->start(b);
                o = S(ok) + " " + S(a->getCount()) + " " + ps(a->getMinPoly()) + " " + a->getParamString() + " " + st<U>(*g); }); }
        } else {
            std::shared_ptr<AlgorithmReducibleRecursionSearch<U> > a(new AlgorithmReducibleRecursionSearch<U>(*g, *mt));
            for (int i = 0; i < 4; i++) { int b = r.range(0, 6); st_.push_back([g, mt, a, b](std::string& o) {
                bool ok = a->start(b);
                o = S(ok) + " " + S(a->getCount()) + " " + ps(a->getCharacteristicPolynomial()) + " " + ps(a->getIrreducibleFactor()) + " " + a->getParamString() + " " + st<U>(*g); }); }
        }
        break;
    }
    case 4: {
        int n = r.range(5, 40 * level);
        GenOpt o;
        o.outMode = r.range(0, 4);
        std::shared_ptr<G> g(new G(std::vector<std::shared_ptr<Model<U> > >(1, makeModel<U>(r, std::vector<Poly>(1, randIrred(r, n)), o))));
        g->seedState(s1);
        int acc = r.range(1, WordOps<U>::bits);
        typedef AlgorithmEquidistribution<U> A;
        std::shared_ptr<std::shared_ptr<A> > a(new std::shared_ptr<A>()), b(new std::shared_ptr<A>());
        st_.push_back([g, a, acc](std::string& o) { a->reset(new A(*g, acc)); o = st<U>(*g); });
        st_.push_back([g, b, acc](std::string& o) { b->reset(new A(*g, acc)); o = st<U>(*g); });
        st_.push_back([g, a, acc](std::string& o) { std::vector<int> v(static_cast<size_t>(acc), -1); o = S((*a)->get_all_equidist(v.data())) + ":"; for (int x : v) o += S(x) + ","; o += st<U>(*g); });
        st_.push_back([g, b](std::string& o) { int s = -1; o = S((*b)->get_equidist(&s)) + "/" + S(s) + st<U>(*g); b->reset(); });
        st_.push_back([a](std::string&) { a->reset(); });
        break;
    }
    case 5: case 6: {
        int n = r.range(5, 20);
        GenOpt o;
        o.tparams = 2;
        o.mtstyle = kind == 6 || r.chance(1, 2);
        std::shared_ptr<G> g(new G(std::vector<std::shared_ptr<Model<U> > >(1, makeModel<U>(r, std::vector<Poly>(1, randIrred(r, n)), o)), r.chance(1, 2)));
        std::shared_ptr<AlgorithmTempering<U> > a;
        if (kind == 5) {
            if (r.chance(1, 2)) a.reset(new AlgorithmPartialBitPattern<U, WordOps<U>::bits, 2, 4, 2, false>());
            else a.reset(new AlgorithmPartialBitPattern<U, WordOps<U>::bits, 1, 4, 3, true>());
        } else {
            int sh[2] = {r.range(3, 8), r.range(6, 14)};
            for (int i = 0; i < 2; i++) g->pool[0]->sh[i] = sh[i];
            a.reset(new AlgorithmBestBits<U>(WordOps<U>::bits, sh, r.range(1, 2), r.range(1, 3)));
        }
        for (int i = 0; i < 3; i++) {       // the same search object three times
            uint64_t s = r.next();
            st_.push_back([g, a, s](std::string& o) { g->seedState(s); (*a)(*g); o = st<U>(*g); });
        }
        break;
    }
    case 7: case 10: {
        int n = kind == 7 ? mexp : mexp + r.range(1, std::min(mexp - 1, 12));
        std::shared_ptr<G> g(new G(pool<U>(r, n, mexp, 4, 1)));
        std::shared_ptr<MersenneTwister64> mt(new MersenneTwister64(s1));
        std::shared_ptr<AlgorithmPartialBitPattern<U, WordOps<U>::bits, 1, 3, 3, false> > p1(new AlgorithmPartialBitPattern<U, WordOps<U>::bits, 1, 3, 3, false>());
        std::shared_ptr<AlgorithmPartialBitPattern<U, WordOps<U>::bits, 1, 2, 2, true> > p2(new AlgorithmPartialBitPattern<U, WordOps<U>::bits, 1, 2, 2, true>());
        if (kind == 7) {
            std::shared_ptr<AlgorithmRecursionAndTempering<U> > a(new AlgorithmRecursionAndTempering<U>(*mt));
            for (int i = 0; i < 2; i++) st_.push_back([g, mt, p1, p2, a, i](std::string& o) {
                std::ostringstream os;
                bool ok = a->search(*g, *p1, *p2, false, os, i == 1);
                o = S(ok) + " " + S(a->getDelta()) + " " + S(a->getWeight()) + " " + ps(a->getCharacteristicPolynomial()) + st<U>(*g); });
        } else {
            std::shared_ptr<AlgorithmReducibleRecursionAndTempering<U, G> > a(new AlgorithmReducibleRecursionAndTempering<U, G>(*mt));
            for (int i = 0; i < 2; i++) st_.push_back([g, mt, p1, p2, a, i](std::string& o) {
                std::ostringstream os;
                bool ok = a->search(*g, *p1, *p2, false, os, i == 1);
                o = S(ok) + " " + S(a->getDelta()) + " " + hex(static_cast<uint64_t>(a->getParity())) + " " + ps(a->getIrreducibleFactor()) + st<U>(*g); });
        }
        break;
    }
    case 9: case 11: {
        int extra = r.range(1, std::min(mexp - 1, 10));
        std::vector<Poly> b;
        Poly f = randPrimMersenne(r, mexp);
        b.push_back(f);
        for (int left = extra; left > 0;) { int d = r.range(1, left); Poly p = randPoly(r, d); if (!p.bit(0)) p.flip(0); b.push_back(d == 1 ? Poly(3) : p); left -= d; }
        GenOpt o;
        o.mexp = mexp;
        std::shared_ptr<G> g(new G(std::vector<std::shared_ptr<Model<U> > >(1, makeModel<U>(r, b, o))));
        g->seedState(s1);
        int acc = r.range(2, WordOps<U>::bits);
        for (int i = 0; i < 2; i++) {
            if (kind == 9) st_.push_back([g, f, acc, mexp](std::string& o) {
                AlgorithmReducibleEquidistribution<U, G> a(*g, toNTL(f), acc, mexp);
                std::vector<int> v(static_cast<size_t>(acc), -1);
                o = S(a.get_all_equidist(v.data())) + ":";
                for (int x : v) o += S(x) + ",";
                o += st<U>(*g); });
            else st_.push_back([g, f](std::string& o) {
                AlgorithmCalculateParity<U, G> a;
                o = hex(static_cast<uint64_t>(a.searchParity(*g, toNTL(f)))) + st<U>(*g); });
        }
        if (kind == 11) st_.push_back([g](std::string& o) {
            NTL::GF2X chi(0, 1);
            calcCharacteristicPolynomial(static_cast<ReducibleGenerator<U> *>(g.get()), chi);
            o = ps(chi);
            annihilate<U>(g.get(), chi);
            o += st<U>(*g); });
        break;
    }
    case 12: {
        for (int i = 0; i < 5; i++) {
            int d = r.range(2, 60);
            Poly p = r.chance(1, 2) ? randIrred(r, d) : randPoly(r, d), q = randPoly(r, r.range(0, d - 1));
            uint64_t x = r.next();
            st_.push_back([p, q, d, x](std::string& o) {
                NTL::GF2X a = toNTL(p), b = toNTL(p * q), l;
                o = S(isIrreducible(a)) + S(isPrime(a)) + S(isMexp(static_cast<uint32_t>(d)));
                bool h = hasFactorOfDegree(b, d);
                o += S(h) + ps(b);
                LCM(l, a, b);
                o += ps(l) + S(count_bit(x)) + hex(reverse_bit(x)) + S(calc_1pos(x));
                std::ostringstream os;
                print_binary(os, a);
                o += os.str();
                std::vector<uint32_t> src, dst(16);
                for (int k = 0; k < 4; k++) src.push_back(static_cast<uint32_t>(x >> (8 * k)));
                fill_table(dst.data(), src.data(), 16);
                for (uint32_t v : dst) o += hex(v);
                NTL::vec_GF2 v;
                toGF2Vec(v, x);
                o += hex(fromGF2Vec<uint64_t>(v));
            });
        }
        break;
    }
    case 13: {
        std::vector<Poly> v;
        static const char * f12[] = {"3", "5", "7", "13", 0};
        static const char * f11[] = {"23", "89", 0};
        bool big = r.chance(1, 3);
        for (int i = 0; i < 4; i++) v.push_back(randIrred(r, big ? 12 : 11));
        std::shared_ptr<std::shared_ptr<AlgorithmPrimitivity> > a(new std::shared_ptr<AlgorithmPrimitivity>());
        st_.push_back([a, big](std::string&) { a->reset(new AlgorithmPrimitivity(big ? f12 : f11)); });
        for (const Poly& p : v) st_.push_back([a, p, big](std::string& o) {
            o = S((**a)(big ? 12 : 11, toNTL(p))) + S(MersennePrimitivity(p.deg(), toNTL(p))) + S(isPrime(toNTL(p), big ? 12 : 11, big ? f12 : f11)); });
        // factor lists kept in one place that is filled anew for every question
        for (const Poly& p : v) st_.push_back([p, big](std::string& o) {
            static thread_local const char * list[8];
            const char ** from = big ? f12 : f11;
            for (int k = 0; k < 8; k++) { list[k] = from[k]; if (!from[k]) break; }
            o = S(isPrime(toNTL(p), big ? 12 : 11, list)) + S(AlgorithmPrimitivity(list)(big ? 12 : 11, toNTL(p))); });
        st_.push_back([a](std::string& o) { AlgorithmPrimitivity c(prime_factors2_128_1), d(**a); Poly x = Poly::mono(127); x.flip(1); x.flip(0);
            o = S(c(128, toNTL(x))) + S(MersennePrimitivity(127, toNTL(x))) + S(d(12, toNTL(x))); });
        break;
    }
    case 14: {
        int n = r.range(5, 60);
        GenOpt o;
        o.outMode = r.range(0, 4);
        std::shared_ptr<G> g(new G(std::vector<std::shared_ptr<Model<U> > >(1, makeModel<U>(r, std::vector<Poly>(1, randPoly(r, n)), o))));
        g->seedState(s1);
        for (int i = 0; i < 3; i++) st_.push_back([g](std::string& o) { TestLinearity<U> t; o = S(t(*g)) + st<U>(*g); });
        break;
    }
    default: {
        int n = r.range(5, 60 * level);
        GenOpt o;
        std::shared_ptr<G> g(new G(std::vector<std::shared_ptr<Model<U> > >(1, makeModel<U>(r, std::vector<Poly>(1, randPoly(r, n)), o))));
        g->seedState(s1);
        for (int i = 0; i < 4; i++) { int pos = r.range(0, WordOps<U>::bits - 1), sz = r.chance(1, 2) ? 0 : n; st_.push_back([g, pos, sz](std::string& o) {
            NTL::GF2X p;
            minpoly<U>(p, *g, pos, sz);
            o = ps(p) + st<U>(*g); }); }
    }
    }
    return t;
}
inline TaskP makeTask(int kind, bool wide, uint64_t seed, int level = 1) {
    return wide ? makeTaskU<uint64_t>(kind, seed, level) : makeTaskU<uint32_t>(kind, seed, level);
}
}
#endif
