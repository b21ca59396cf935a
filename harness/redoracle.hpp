// Oracle for period certification vectors of the harness generators.
#ifndef VERIF_REDORACLE_HPP
#define VERIF_REDORACLE_HPP
#include "gens.hpp"
// "" if every state whose certification word has odd inner product with p lies outside the kernel of the
// cofactor, i.e. p is orthogonal to the certification words of all of Im f(T)  (f simple factor)
template<class U> std::string certify(const LfsrGen<U>& g, const Poly& f, U p) {
    if (p == 0) return "vector is zero";
    const Model<U>& m = g.m();
    for (int i = 0; i < m.n; i++) {
        Words e(static_cast<size_t>(m.nw), 0);
        e[static_cast<size_t>(i) / 64] |= UINT64_C(1) << (i % 64);
        Words v = applyPoly(m.rec, f, e.data());
        U w = Model<U>::lookup(m.ptbl, v.data());
        if (__builtin_parityll(static_cast<uint64_t>(w & p)))
            return "state f(T)e_" + S(i) + " has no component in the large factor, yet its word " + hex(static_cast<uint64_t>(w)) +
                " has odd inner product with " + hex(static_cast<uint64_t>(p));
    }
    return "";
}
#endif
