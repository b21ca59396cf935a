#ifndef VERIF_NTLCONV_HPP
#define VERIF_NTLCONV_HPP
#include <NTL/GF2X.h>
#include <NTL/GF2XFactoring.h>
#include <NTL/ZZ.h>
#include "gf2.hpp"
inline orc::Poly fromNTL(const NTL::GF2X& p) {
    orc::Poly r;
    long d = NTL::deg(p);
    r.w.assign(static_cast<size_t>(d < 0 ? 0 : d / 64 + 1), 0);
    if (d >= 0) {
        long nb = (d + 8) / 8;
        std::vector<unsigned char> b(static_cast<size_t>(nb));
        NTL::BytesFromGF2X(b.data(), p, nb);
        for (long i = 0; i < nb; i++) r.w[static_cast<size_t>(i / 8)] |= static_cast<uint64_t>(b[static_cast<size_t>(i)]) << (8 * (i % 8));
    }
    r.trim();
    return r;
}
inline NTL::GF2X toNTL(const orc::Poly& p) {
    std::vector<unsigned char> b(p.w.size() * 8 + 1);
    for (size_t i = 0; i < p.w.size() * 8; i++) b[i] = static_cast<unsigned char>(p.w[i / 8] >> (8 * (i % 8)));
    NTL::GF2X r;
    NTL::GF2XFromBytes(r, b.data(), static_cast<long>(b.size()));
    return r;
}
#endif
