// The generator contract, judged on the behaviour of a sample generator class (P22).
// Adapter A:  typedef G, U;  static std::shared_ptr<G> make(Rng&, bool& irreducible);  static void seed(G&, uint64_t);
//   static const bool rev;  static void setRev(G&, bool);  static const int npat;  static void pattern(G&, U, U, int); static void apply(G&);
//   static int mexp(G&), printedMexp(G&): what getMexp says (-1: no such thing) and what is printed; static bool isRev(G&)
//   static std::string range(G&): what is wrong with the parameters, if anything;  static const int seedBits; static void seedFlip(G&, uint64_t, int bit)
//   static const bool zeroFresh: a generator made from parameters and not yet seeded is zero
//   static const bool onebit;  static void oneBit(G&, int);
//   static std::vector<U> predict(G&, int n): next n outputs by a reference working from the printed parameters
//   static std::shared_ptr<G> rebuild(G&): a generator made from the printed parameters (null: not possible)
#ifndef VERIF_CONTRACT_HPP
#define VERIF_CONTRACT_HPP
#include "common.hpp"
#include "gf2.hpp"
#include "words.hpp"
#include <memory>

template<class A> struct Contract {
    typedef typename A::G G;
    typedef typename A::U U;
    typedef W<U> w;
    typedef std::shared_ptr<G> P;
    static P clone(const G& g) { return P(dynamic_cast<G *>(g.clone())); }
    static std::vector<U> run(const G& g, int n) {
        P c = clone(g);
        std::vector<U> r;
        for (int i = 0; i < n; i++) r.push_back(c->generate());
        return r;
    }
    static bool same(const std::vector<U>& a, const std::vector<U>& b) {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); i++) if (!w::eq(a[i], b[i])) return false;
        return true;
    }
    static bool zero(const std::vector<U>& a) {
        for (size_t i = 0; i < a.size(); i++) if (!w::z(a[i])) return false;
        return true;
    }
    static std::vector<U> sum(const std::vector<U>& a, const std::vector<U>& b) {
        std::vector<U> r;
        for (size_t i = 0; i < a.size(); i++) r.push_back(w::x(a[i], b[i]));
        return r;
    }
    static orc::Words vec(const std::vector<U>& a) {
        orc::Words r((a.size() * static_cast<size_t>(w::bits) + 63) / 64, 0);
        for (size_t i = 0; i < a.size(); i++)
            for (int b = 0; b < w::bits; b++)
                if (w::bit(a[i], b)) { size_t k = i * static_cast<size_t>(w::bits) + static_cast<size_t>(b); r[k / 64] |= UINT64_C(1) << (k % 64); }
        return r;
    }
    static void steps(G& g, int n) { for (int i = 0; i < n; i++) g.generate(); }
    // a state with some history
    static void mess(G& g, Rng& r) {
        for (int i = r.range(0, 4); i > 0; i--) {
            switch (r.below(5)) {
            case 0: A::seed(g, r.next()); break;
            case 1: g.setZero(); break;
            case 2: steps(g, r.range(1, 60)); break;
            case 3: { P o = clone(g); A::seed(*o, r.next()); steps(*o, r.range(0, 9)); g.add(*o); break; }
            default: if (A::onebit) A::oneBit(g, static_cast<int>(r.below(static_cast<uint64_t>(g.bitSize())))); break;
            }
        }
    }

    static void contract(Case& c) {
        bool irr = false;
        P g = A::make(c.rng, irr);
        std::string d = std::string(A::name()) + " " + g->getParamString();
        int n = g->bitSize();
        int L = n / w::bits * 2 + 12;
        bool rv = A::rev && c.rng.chance(1, 2);
        A::setRev(*g, rv);
        mess(*g, c.rng);
        A::seed(*g, c.rng.next());
        steps(*g, c.rng.range(0, 3 * L));

        // clones: identical continuation, in every output form, and independent
        P k1 = clone(*g), k2 = clone(*g), k3 = clone(*g);
        std::vector<U> f1, f2;
        std::vector<int> lens;
        for (int i = 0; i < L; i++) lens.push_back(c.rng.range(1, w::bits));
        for (int i = 0; i < L; i++) f1.push_back(k1->generate(lens[static_cast<size_t>(i)]));
        mess(*k1, c.rng);
        k1->setZero();
        for (int i = 0; i < L; i++) f2.push_back(k2->generate(lens[static_cast<size_t>(i)]));
        c.check(same(f1, f2), "clones-differ", d);
        // the n-bit output is the top of the (reversed) full output
        for (int i = 0; i < L; i++) {
            U full = k3->generate();
            U want = w::top(rv ? w::revd(full) : full, lens[static_cast<size_t>(i)]);
            if (!c.check(w::eq(want, f2[static_cast<size_t>(i)]), "bit-length-output", d + " length " + S(lens[static_cast<size_t>(i)]) + (rv ? " reversed" : "") + " got " + w::s(f2[static_cast<size_t>(i)]) + " want " + w::s(want))) break;
        }
        std::vector<U> o0 = run(*g, L);
        {   // the original is not touched by what happened to the clones; a clone outlives its original
            P o = clone(*g);
            P p = clone(*o);
            o.reset();
            c.check(same(run(*p, L), o0), "clone-of-clone", d);
            c.check(same(run(*g, L), o0), "original-moved", d);
        }
        c.check(g->bitSize() == n && clone(*g)->bitSize() == n, "bit-size-changes", d);

        // addition of states at different offsets
        P a = clone(*g), b = clone(*g);
        A::seed(*b, c.rng.next());
        steps(*b, c.rng.range(0, 2 * L));
        if (c.rng.chance(1, 4) && A::onebit) A::oneBit(*b, static_cast<int>(c.rng.below(static_cast<uint64_t>(n))));
        std::vector<U> oa = run(*a, 3 * L), ob = run(*b, 3 * L);
        a->add(*b);
        c.check(same(run(*a, 3 * L), sum(oa, ob)), "addition", d + " output is not the exclusive or");
        c.check(same(run(*b, 3 * L), ob), "addition-moves-addend", d);
        steps(*a, c.rng.range(0, 9));
        int off = c.rng.range(0, L);
        steps(*b, off);
        { P t = clone(*a); t->add(*b); t->add(*b); c.check(same(run(*t, L), run(*a, L)), "add-twice", d); }

        // zero
        bool nz = !zero(o0);
        c.check(!nz || !g->isZero(), "zero-test-on-nonzero", d);
        { P t = clone(*g); t->add(*g); c.check(t->isZero() && zero(run(*t, L)), "sum-with-itself", d + (t->isZero() ? " outputs not zero" : " not isZero")); }
        { P t = clone(*g); t->setZero(); c.check(t->isZero(), "set-zero", d + " not isZero");
          c.check(zero(run(*t, 2 * L)), "set-zero", d + " outputs not zero"); steps(*t, L); c.check(t->isZero(), "set-zero", d + " not zero after stepping");
          t->add(*g); c.check(same(run(*t, L), o0), "zero-plus", d); }

        // seeding is a deterministic complete reset
        for (int i = 0; i < 3; i++) {
            uint64_t v = i == 0 ? 1 : c.rng.next();
            P s1 = clone(*g), s2 = clone(*g);
            mess(*s1, c.rng);
            s2->setZero();
            A::seed(*s1, v);
            A::seed(*s2, v);
            c.check(same(run(*s1, 2 * L), run(*s2, 2 * L)), "seed-depends-on-history", d + " seed " + hex(v));
            P f = A::fresh(*g);
            if (f && A::zeroFresh) c.check(f->isZero() && zero(run(*f, L)), "unseeded-not-zero", d);
            if (f) { A::seed(*f, v); c.check(same(run(*f, L), run(*s1, L)), "seed-fresh-object", d + " seed " + hex(v)); }
        }
        // different seeds, different states and streams
        for (int i = 0; i < 3; i++) {
            uint64_t v = c.rng.chance(1, 4) ? c.rng.below(3) : c.rng.next();
            int bit = c.rng.range(0, A::seedBits - 1);
            P s1 = clone(*g), s2 = clone(*g);
            A::seed(*s1, v);
            A::seedFlip(*s2, v, bit);
            bool differ = !same(run(*s1, 2 * L), run(*s2, 2 * L));
            s1->add(*s2);
            c.check(!s1->isZero() && (differ || !irr), "seeds-collide", d + " seed " + hex(v) + " bit " + S(bit));
        }
        // what the generator says about itself
        int me = A::mexp(*g);
        if (me >= 0) c.check(me == A::printedMexp(*g) && A::mexp(*clone(*g)) == me, "announced-exponent", d + " getMexp " + S(me));
        if (A::revTold) {
            c.check(A::isRev(*g) == rv && A::isRev(*clone(*g)) == rv, "reverse-flag", d);
            P t = clone(*g);
            A::setRev(*t, !rv);
            c.check(A::isRev(*t) == !rv && A::isRev(*g) == rv, "reverse-flag", d);
        }
        c.eval(d + (rv ? "r" : "") + hex(c.rng.next()), nz);
        c.count(std::string("contract_") + A::name());
    }

    // printed parameters against the running generator
    static void printed(Case& c) {
        bool irr = false;
        P g = A::make(c.rng, irr);
        A::seed(*g, c.rng.next());
        int L = g->bitSize() / w::bits * 2 + 12;
        steps(*g, c.rng.range(0, L));
        std::string d = std::string(A::name()) + " " + g->getParamString();
        std::vector<U> got = run(*g, 3 * L);
        {
            P t = clone(*g);
            std::vector<U> want = A::predict(*t, 3 * L);
            if (!want.empty()) { c.check(same(got, want), "runs-other-parameters", d); c.count("predicted_outputs", 3 * L); }
        }
        {
            std::string bad = A::range(*g);
            c.check(bad.empty(), "parameters-out-of-range", d + " " + bad);
        }
        P r = A::rebuild(*g);
        if (r) {
            uint64_t v = c.rng.next();
            P s = clone(*g);
            A::seed(*s, v);
            A::seed(*r, v);
            c.check(same(run(*s, L), run(*r, L)), "rebuilt-from-print-differs", d);
            std::string a = g->getParamString(), b = r->getParamString();
            c.check(A::sameText(a, b), "rebuilt-prints-differ", a + " / " + b);
            c.check(clone(*g)->getParamString() == a, "clone-prints-differ", d);
        }
        c.eval(d, !zero(got));
        c.count(std::string("printed_") + A::name());
    }

    // tempering patterns: partial updates act like one update of exactly the masked bits
    static void patterns(Case& c) {
        bool irr = false;
        P g = A::make(c.rng, irr);
        A::seed(*g, c.rng.next());
        std::string d = A::name();
        U ones;
        memset(&ones, 0xff, sizeof ones);
        std::vector<U> model;
        for (int i = 0; i < A::npat; i++) { U p = w::rnd(c.rng); A::pattern(*g, ones, p, i); model.push_back(p); }
        int rounds = c.rng.range(1, 8);
        for (int q = 0; q < rounds; q++) {
            int i = c.rng.range(0, A::npat - 1);
            U mask = w::rnd(c.rng), pat = w::rnd(c.rng);
            switch (c.rng.below(4)) {
            case 0: mask = static_cast<U>(1) << c.rng.below(static_cast<uint64_t>(w::bits)); break;
            case 1: mask = 0; break;
            case 2: mask = ones; break;
            default: break;
            }
            A::pattern(*g, mask, pat, i);
            model[static_cast<size_t>(i)] = static_cast<U>((model[static_cast<size_t>(i)] & ~mask) | (pat & mask));
            if (c.rng.chance(1, 3)) { A::apply(*g); steps(*g, 3); }
        }
        A::apply(*g);
        P h = clone(*g);
        for (int i = 0; i < A::npat; i++) A::pattern(*h, ones, model[static_cast<size_t>(i)], i);
        A::apply(*h);
        int L = g->bitSize() / w::bits + 200;
        c.check(same(run(*g, L), run(*h, L)), "pattern-effect", d + " partial updates differ from the whole pattern");
        std::vector<U> pr = A::printedPatterns(g->getParamString());
        for (int i = 0; i < A::npat; i++)
            c.check(w::eq(static_cast<U>(pr[static_cast<size_t>(i)] & A::patternMask(i)), static_cast<U>(model[static_cast<size_t>(i)] & A::patternMask(i))), "pattern-printed",
                    d + " pattern " + S(i) + " printed " + w::s(pr[static_cast<size_t>(i)]) + " expected " + w::s(model[static_cast<size_t>(i)]));
        // and the reference from the printed parameters follows
        P t = clone(*g);
        std::vector<U> want = A::predict(*t, L);
        if (!want.empty()) c.check(same(run(*g, L), want), "runs-other-parameters", d + " " + g->getParamString());
        c.eval(d + g->getParamString(), true);
        c.count(std::string("patterns_") + A::name());
    }

    // announced dimension and the zero test, by elimination over many states
    static void dimension(Case& c) {
        bool irr = false;
        P g = A::make(c.rng, irr);
        std::string d = std::string(A::name()) + " " + g->getParamString();
        int n = g->bitSize();
        int L = n / w::bits * 2 + 16;
        struct Row { P p; orc::Words v; };
        std::vector<Row> rows;
        int extra = 40;
        for (int i = 0; i < n + extra; i++) {
            Row r;
            r.p = clone(*g);
            if (i == 0 || c.rng.chance(1, 3)) { A::seed(*r.p, c.rng.next()); steps(*r.p, c.rng.range(0, 2 * L)); }
            else { r.p = clone(*rows.back().p); steps(*r.p, 1); }
            r.v = vec(run(*r.p, L));
            rows.push_back(r);
        }
        int rank = 0, cols = L * w::bits;
        size_t done = 0;
        for (int col = 0; col < cols && done < rows.size(); col++) {
            size_t q = done;
            while (q < rows.size() && !((rows[q].v[static_cast<size_t>(col) / 64] >> (col % 64)) & 1)) q++;
            if (q == rows.size()) continue;
            std::swap(rows[q], rows[done]);
            for (size_t k = done + 1; k < rows.size(); k++)
                if ((rows[k].v[static_cast<size_t>(col) / 64] >> (col % 64)) & 1) {
                    rows[k].p->add(*rows[done].p);
                    for (size_t m = 0; m < rows[k].v.size(); m++) rows[k].v[m] ^= rows[done].v[m];
                }
            done++;
            rank++;
        }
        c.check(rank <= n, "dimension-above-announced", d + " rank " + S(rank) + " announced " + S(n));
        if (irr) c.check(rank == n, "dimension-below-announced", d + " rank " + S(rank) + " announced " + S(n));
        // reduced rows: states whose first outputs vanish (ever longer), finally the zero state
        for (size_t i = 0; i < rows.size(); i++) {
            bool z = true;
            for (size_t m = 0; m < rows[i].v.size(); m++) if (rows[i].v[m]) { z = false; break; }
            bool say = rows[i].p->isZero();
            if (!z) c.check(!say, "zero-test-on-nonzero", d + " row " + S(i));
            else if (irr) c.check(say, "zero-test-misses-zero", d + " row " + S(i));
        }
        c.eval(d, true);
        c.count(std::string("dimension_") + A::name());
        c.count(irr ? "irreducible" : "reducible");
    }

    // single-bit states: not zero, pairwise different, independent of history, and every state lies in their span
    static void oneBits(Case& c) {
        bool irr = false;
        P g = A::make(c.rng, irr);
        std::string d = std::string(A::name()) + " " + g->getParamString();
        A::seed(*g, c.rng.next());
        int n = g->bitSize();
        int L = A::spanOutputs(n);
        orc::Elim el(L * w::bits);
        std::set<std::string> seen;
        P other = clone(*g);
        for (int i = 0; i < n; i++) {
            A::oneBit(*g, i);
            steps(*g, 0);
            bool ok = c.check(!g->isZero(), "one-bit-state-zero", d + " bit " + S(i));
            if (c.rng.chance(1, 8)) {
                mess(*other, c.rng);
                A::oneBit(*other, i);
                ok = c.check(same(run(*other, L), run(*g, L)), "one-bit-depends-on-history", d + " bit " + S(i)) && ok;
                other->add(*g);
                ok = c.check(other->isZero(), "one-bit-depends-on-history", d + " sum not zero, bit " + S(i)) && ok;
            }
            if (i) {
                A::oneBit(*other, static_cast<int>(c.rng.below(static_cast<uint64_t>(i))));
                other->add(*g);
                ok = c.check(!other->isZero(), "one-bit-states-equal", d + " bit " + S(i)) && ok;
                if (i >= 32) { A::oneBit(*other, i - 32); other->add(*g); ok = c.check(!other->isZero(), "one-bit-states-equal", d + " bits " + S(i) + ", " + S(i - 32)) && ok; }
            }
            el.insert(vec(run(*g, L)));
            if (!ok) break;
        }
        for (int i = 0; i < 12; i++) {
            P r = clone(*g);
            A::seed(*r, c.rng.next());
            steps(*r, c.rng.range(0, L));
            if (!c.check(el.contains(vec(run(*r, L))), "state-outside-span", d)) break;
        }
        if (irr) c.check(el.rank() == n, "one-bit-states-span", d + " rank " + S(el.rank()));
        c.eval(d, true);
        c.count("one_bit_states", n);
        c.count("one_bit_rank_deficit", n - el.rank());
        c.count(std::string("onebits_") + A::name());
    }
};
#endif
