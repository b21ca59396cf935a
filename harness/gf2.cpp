#include "gf2.hpp"
#include <algorithm>
#include <stdio.h>
namespace orc {
int Poly::deg() const {
    if (w.empty()) return -1;
    return static_cast<int>(w.size() - 1) * 64 + 63 - __builtin_clzll(w.back());
}
int Poly::weight() const {
    int c = 0;
    for (size_t i = 0; i < w.size(); i++) c += __builtin_popcountll(w[i]);
    return c;
}
std::string Poly::str() const {
    char b[32];
    std::string s = "deg=" + std::to_string(deg()) + ":";
    if (w.empty()) return s + "0";
    for (size_t i = w.size(); i-- > 0;) {
        snprintf(b, sizeof b, i + 1 == w.size() ? "%llx" : "%016llx", (unsigned long long)w[i]);
        s += b;
    }
    return s;
}
void Poly::addShift(const Poly& b, int s) {
    if (b.w.empty()) return;
    size_t k = static_cast<size_t>(s) / 64;
    int r = s % 64;
    if (w.size() < b.w.size() + k + 1) w.resize(b.w.size() + k + 1, 0);
    for (size_t i = 0; i < b.w.size(); i++) {
        w[i + k] ^= b.w[i] << r;
        if (r) w[i + k + 1] ^= b.w[i] >> (64 - r);
    }
    trim();
}
Poly operator+(const Poly& a, const Poly& b) {
    Poly r = a;
    if (r.w.size() < b.w.size()) r.w.resize(b.w.size(), 0);
    for (size_t i = 0; i < b.w.size(); i++) r.w[i] ^= b.w[i];
    r.trim();
    return r;
}
Poly operator*(const Poly& a, const Poly& b) {
    Poly r;
    if (a.isZero() || b.isZero()) return r;
    r.w.assign(a.w.size() + b.w.size() + 1, 0);
    for (int s = 0; s < 64; s++) {
        // b << s
        Words sh(b.w.size() + 1, 0);
        for (size_t i = 0; i < b.w.size(); i++) {
            sh[i] ^= b.w[i] << s;
            if (s) sh[i + 1] ^= b.w[i] >> (64 - s);
        }
        for (size_t i = 0; i < a.w.size(); i++)
            if ((a.w[i] >> s) & 1)
                for (size_t j = 0; j < sh.size(); j++) r.w[i + j] ^= sh[j];
    }
    r.trim();
    return r;
}
static void reduceInPlace(Poly& r, const Poly& b, Poly* q) {
    int db = b.deg();
    // work without trim at each step
    Words& x = r.w;
    int d = r.deg();
    for (; d >= db; d--) {
        if (!((x[static_cast<size_t>(d) / 64] >> (d % 64)) & 1)) continue;
        int s = d - db;
        if (q) q->flip(s);
        size_t k = static_cast<size_t>(s) / 64;
        int rr = s % 64;
        for (size_t i = 0; i < b.w.size(); i++) {
            if (i + k < x.size()) x[i + k] ^= b.w[i] << rr;
            if (rr && i + k + 1 < x.size()) x[i + k + 1] ^= b.w[i] >> (64 - rr);
        }
    }
    r.trim();
}
void divrem(const Poly& a, const Poly& b, Poly& q, Poly& r) {
    Poly rr = a, qq;
    reduceInPlace(rr, b, &qq);
    q = qq; r = rr;
}
Poly operator/(const Poly& a, const Poly& b) { Poly q, r; divrem(a, b, q, r); return q; }
Poly operator%(const Poly& a, const Poly& b) { Poly r = a; reduceInPlace(r, b, 0); return r; }
Poly gcd(Poly a, Poly b) {
    while (!b.isZero()) { Poly r = a % b; a = b; b = r; }
    return a;
}
Poly lcm(const Poly& a, const Poly& b) { return (a * b) / gcd(a, b); }
static uint64_t spread(uint32_t x) {
    uint64_t v = x;
    v = (v | (v << 16)) & UINT64_C(0x0000ffff0000ffff);
    v = (v | (v << 8)) & UINT64_C(0x00ff00ff00ff00ff);
    v = (v | (v << 4)) & UINT64_C(0x0f0f0f0f0f0f0f0f);
    v = (v | (v << 2)) & UINT64_C(0x3333333333333333);
    v = (v | (v << 1)) & UINT64_C(0x5555555555555555);
    return v;
}
Poly sqrmod(const Poly& a, const Poly& m) {
    Poly r;
    r.w.resize(a.w.size() * 2);
    for (size_t i = 0; i < a.w.size(); i++) {
        r.w[2 * i] = spread(static_cast<uint32_t>(a.w[i]));
        r.w[2 * i + 1] = spread(static_cast<uint32_t>(a.w[i] >> 32));
    }
    r.trim();
    reduceInPlace(r, m, 0);
    return r;
}
Poly mulmod(const Poly& a, const Poly& b, const Poly& m) { return (a * b) % m; }
Poly powx(const std::string& e, const Poly& m) {
    Poly r = Poly(1) % m;
    for (size_t i = 0; i < e.size(); i++) {
        r = sqrmod(r, m);
        if (e[i] == '1') { Poly t; t.addShift(r, 1); r = t % m; }
    }
    return r;
}
bool irreducible(const Poly& p) {
    int n = p.deg();
    if (n <= 0) return false;
    if (n == 1) return true;
    Poly x = Poly(2);
    Poly t = x % p;
    for (int i = 1; i <= n / 2; i++) {
        t = sqrmod(t, p);
        if (!gcd(p, t + x).isOne()) return false;
    }
    return true;
}
uint64_t orderOfX(const Poly& p, uint64_t limit) {
    int n = p.deg();
    if (n < 1 || n > 63 || !p.bit(0)) return 0;
    uint64_t m = p.w[0], top = UINT64_C(1) << n, s = 1;
    if (n == 1) return 1;
    for (uint64_t e = 1; e <= limit; e++) {
        s <<= 1;
        if (s & top) s ^= m;
        if (s == 1) return e;
    }
    return 0;
}
Poly minPolySeq(const std::vector<uint8_t>& a) {
    // Berlekamp-Massey, connection polynomial C with L
    Poly C(1), B(1);
    int L = 0, m = 1;
    int N = static_cast<int>(a.size());
    // the sequence backwards: the window of past bits, bit i = a[n-i], starts at position N-1-n
    Words rev(static_cast<size_t>(N) / 64 + 2, 0);
    for (int i = 0; i < N; i++) if (a[static_cast<size_t>(i)] & 1) rev[static_cast<size_t>(N - 1 - i) / 64] |= UINT64_C(1) << ((N - 1 - i) % 64);
    for (int n = 0; n < N; n++) {
        size_t at = static_cast<size_t>(N - 1 - n) / 64;
        int sh = (N - 1 - n) % 64;
        uint64_t d = 0;
        for (size_t i = 0; i < C.w.size() && at + i < rev.size(); i++) {
            uint64_t w = rev[at + i] >> sh;
            if (sh && at + i + 1 < rev.size()) w |= rev[at + i + 1] << (64 - sh);
            d ^= C.w[i] & w;
        }
        if (__builtin_popcountll(d) & 1) {
            if (2 * L <= n) {
                Poly T = C;
                C.addShift(B, m);
                L = n + 1 - L;
                B = T;
                m = 1;
            } else {
                C.addShift(B, m);
                m++;
            }
        } else {
            m++;
        }
    }
    // h(x) = x^L C(1/x)
    Poly h;
    for (int i = 0; i <= C.deg(); i++) if (C.bit(i)) h.flip(L - i);
    return h;
}
bool annihilates(const Poly& h, const std::vector<uint8_t>& a) {
    int d = h.deg();
    if (d < 0) return false;
    Words v(a.size() / 64 + 2, 0);
    for (size_t i = 0; i < a.size(); i++) if (a[i] & 1) v[i / 64] |= UINT64_C(1) << (i % 64);
    for (size_t i = 0; i + static_cast<size_t>(d) < a.size(); i++) {
        uint64_t s = 0;
        size_t at = i / 64, sh = i % 64;
        for (size_t k = 0; k < h.w.size() && at + k < v.size(); k++) {
            uint64_t w = v[at + k] >> sh;
            if (sh && at + k + 1 < v.size()) w |= v[at + k + 1] << (64 - sh);
            s ^= h.w[k] & w;
        }
        if (__builtin_popcountll(s) & 1) return false;
    }
    return true;
}
static int lowbit(const Words& v) {
    for (size_t i = 0; i < v.size(); i++)
        if (v[i]) return static_cast<int>(i) * 64 + __builtin_ctzll(v[i]);
    return -1;
}
bool Elim::insert(Words v) {
    for (;;) {
        int p = lowbit(v);
        if (p < 0) return false;
        Words& q = piv[static_cast<size_t>(p)];
        if (q.empty()) { q = v; r++; return true; }
        for (size_t i = static_cast<size_t>(p) / 64; i < v.size(); i++) v[i] ^= q[i];
    }
}
bool Elim::contains(Words v) const {
    for (;;) {
        int p = lowbit(v);
        if (p < 0) return true;
        const Words& q = piv[static_cast<size_t>(p)];
        if (q.empty()) return false;
        for (size_t i = static_cast<size_t>(p) / 64; i < v.size(); i++) v[i] ^= q[i];
    }
}
std::vector<int> equidist(int n, int vmax, const BitAt& getbit) {
    size_t W = (static_cast<size_t>(n) + 63) / 64;
    std::vector<int> k(static_cast<size_t>(vmax), 0);
    // streams of bits per position
    std::vector<std::vector<uint8_t> > s(static_cast<size_t>(vmax), std::vector<uint8_t>(static_cast<size_t>(2 * n)));
    for (int b = 0; b < vmax; b++)
        for (int t = 0; t < 2 * n; t++) s[static_cast<size_t>(b)][static_cast<size_t>(t)] = getbit(t, b);
    for (int v = 1; v <= vmax; v++) {
        Elim e(n);
        int t = 0;
        for (; t < n / v; t++) {
            bool ok = true;
            for (int b = 0; b < v && ok; b++) {
                Words row(W, 0);
                const uint8_t* p = &s[static_cast<size_t>(b)][static_cast<size_t>(t)];
                for (int j = 0; j < n; j++) row[static_cast<size_t>(j) / 64] |= static_cast<uint64_t>(p[j]) << (j % 64);
                ok = e.insert(row);
            }
            if (!ok) break;
        }
        k[static_cast<size_t>(v) - 1] = t;
    }
    return k;
}
std::string sha1hex(const std::string& msg) {
    uint32_t h[5] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u, 0xc3d2e1f0u};
    std::string m = msg;
    m += static_cast<char>(0x80);
    while (m.size() % 64 != 56) m += static_cast<char>(0);
    uint64_t bits = static_cast<uint64_t>(msg.size()) * 8;
    for (int i = 7; i >= 0; i--) m += static_cast<char>((bits >> (8 * i)) & 255);
    auto rol = [](uint32_t x, int k) { return (x << k) | (x >> (32 - k)); };
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[80];
        for (size_t i = 0; i < 80; i++) {
            if (i < 16) {
                w[i] = 0;
                for (size_t k = 0; k < 4; k++) w[i] = (w[i] << 8) | static_cast<unsigned char>(m[o + 4 * i + k]);
            } else w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        }
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 80; i++) {
            uint32_t f = i < 20 ? (b & c) | (~b & d) : i < 40 ? b ^ c ^ d : i < 60 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d;
            uint32_t k = i < 20 ? 0x5a827999u : i < 40 ? 0x6ed9eba1u : i < 60 ? 0x8f1bbcdcu : 0xca62c1d6u;
            uint32_t t = rol(a, 5) + f + e + k + w[i];
            e = d; d = c; c = rol(b, 30); b = a; a = t;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    char b[48];
    snprintf(b, sizeof b, "%08x%08x%08x%08x%08x", h[0], h[1], h[2], h[3], h[4]);
    return b;
}
std::string coefText(const Poly& p) {
    if (p.isZero()) return "-1";
    std::string s;
    for (int i = 0; i <= p.deg(); i++) s += p.bit(i) ? '1' : '0';
    return s;
}
}
