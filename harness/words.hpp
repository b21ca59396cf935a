// Plain words as seen by contract.hpp
#ifndef VERIF_WORDS_HPP
#define VERIF_WORDS_HPP
#include "common.hpp"
template<class U> struct W {       // plain words
    static const int bits = static_cast<int>(sizeof(U)) * 8;
    static U x(U a, U b) { return a ^ b; }
    static bool z(U a) { return a == 0; }
    static bool eq(U a, U b) { return a == b; }
    static bool bit(U a, int b) { return (a >> (bits - 1 - b)) & 1; }       // 0 = top
    static U top(U a, int n) { U r = 0; for (int i = 0; i < n; i++) if (bit(a, i)) r = static_cast<U>(r | (static_cast<U>(1) << (bits - 1 - i))); return r; }
    static U revd(U a) { U r = 0; for (int i = 0; i < bits; i++) if (bit(a, i)) r = static_cast<U>(r | (static_cast<U>(1) << i)); return r; }
    static U rnd(Rng& r) { return static_cast<U>(r.next()); }
    static std::string s(U a) { return hex(static_cast<uint64_t>(a)); }
};

#endif
