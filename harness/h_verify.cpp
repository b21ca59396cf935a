// P24: what the dynamic creators and analysis programs print is true. Programs are run as processes; everything they print
// is recomputed here from the printed parameters alone (no code of the repository is linked).
#define VERIF_MAIN
#include "common.hpp"
#include "gf2.hpp"
#include "progs.hpp"
#include <array>
#include <random>
#include <algorithm>

static std::string gBin;
static std::string bin(const std::string& p) { return gBin + "/" + p; }

// ------------------------------------------------------------------ reference recurrences
struct Row { uint64_t w[4]; };          // output word: bit 0 (top) .. 127 in w[0], w[1]; w[2], w[3]: the carried word of dSFMT
static Row operator^(Row a, const Row& b) { for (int i = 0; i < 4; i++) a.w[i] ^= b.w[i]; return a; }
static bool rbit(const Row& r, int b) { return (r.w[b / 64] >> (63 - b % 64)) & 1; }
typedef std::vector<Row> Rows;
static Row row32(uint32_t x) { Row r = {{static_cast<uint64_t>(x) << 32, 0, 0, 0}}; return r; }
static Row row64(uint64_t x) { Row r = {{x, 0, 0, 0}}; return r; }
struct Params {
    std::string kind, line;
    std::vector<uint64_t> v;
    int mexp, n;            // exponent, dimension of the state
    int width;              // bits of an output word
};
static Rows record(const Params& p, Rng& rng, int len, const std::vector<uint64_t> * affine = 0) {
    Rows o;
    const std::vector<uint64_t>& v = p.v;
    size_t L = static_cast<size_t>(len);
    (void)affine;
    if (p.kind == "mt2") {          // mexp id pos mata maskb maskc
        size_t N = static_cast<size_t>(p.mexp / 32 + 1), pos = v[2];
        uint32_t a = static_cast<uint32_t>(v[3]), b = static_cast<uint32_t>(v[4]), c = static_cast<uint32_t>(v[5]);
        uint32_t up = 0xffffffffu << (32 * N - static_cast<size_t>(p.mexp));
        std::vector<uint32_t> x;
        for (size_t i = 0; i < N; i++) x.push_back(static_cast<uint32_t>(rng.next()));
        for (size_t i = N; i < N + L; i++) {
            uint32_t y = (x[i - N] & up) | (x[i - N + 1] & ~up);
            y = x[i - N + pos] ^ (y >> 1) ^ ((y & 1) ? a : 0);
            x.push_back(y);
            y ^= y >> 12;
            y ^= (y << 7) & b;
            y ^= (y << 15) & c;
            y ^= y >> 18;
            o.push_back(row32(y));
        }
    } else if (p.kind == "mtgp") {      // mexp id pos sh1 sh2 tbl*4 tmp*4 mask
        size_t N = static_cast<size_t>(p.mexp / 32 + 1), pos = v[2];
        uint32_t tb[16], tp[16], mask = static_cast<uint32_t>(v[13]);
        for (size_t i = 0; i < 16; i++) {
            tb[i] = tp[i] = 0;
            for (size_t j = 0; j < 4; j++) if ((i >> j) & 1) tb[i] ^= static_cast<uint32_t>(v[5 + j]), tp[i] ^= static_cast<uint32_t>(v[9 + j]);
        }
        std::vector<uint32_t> x;
        for (size_t i = 0; i < N; i++) x.push_back(static_cast<uint32_t>(rng.next()));
        for (size_t i = N; i < N + L; i++) {
            uint32_t y = (x[i - N] & mask) ^ x[i - N + 1];
            y ^= y << v[3];
            y ^= x[i - N + pos] >> v[4];
            y ^= tb[y & 15];
            x.push_back(y);
            uint32_t t = x[i - N + pos - 1];
            t ^= t >> 16;
            t ^= t >> 8;
            o.push_back(row32(y ^ tp[t & 15]));
        }
    } else if (p.kind == "tiny") {      // id mat1 mat2 tmat
        uint32_t s[4], m1 = static_cast<uint32_t>(v[1]), m2 = static_cast<uint32_t>(v[2]), tm = static_cast<uint32_t>(v[3]);
        for (int i = 0; i < 4; i++) s[i] = static_cast<uint32_t>(rng.next());
        for (size_t i = 0; i < L; i++) {
            uint32_t y = s[3], x = (s[0] & 0x7fffffffu) ^ s[1] ^ s[2];
            x ^= x << 1;
            y ^= (y >> 1) ^ x;
            s[0] = s[1];
            s[1] = s[2] ^ ((y & 1) ? m1 : 0);
            s[2] = x ^ (y << 10) ^ ((y & 1) ? m2 : 0);
            s[3] = y;
            uint32_t t1 = s[0] ^ (s[2] >> 8);
            o.push_back(row32(s[3] ^ t1 ^ ((t1 & 1) ? tm : 0)));
        }
    } else if (p.kind == "rmt") {       // mexp pos mata parity maskb maskc; w[2]: the newest state word
        size_t N = static_cast<size_t>(p.mexp / 64 + 1), pos = v[1];
        std::vector<uint64_t> x;
        for (size_t i = 0; i < N; i++) x.push_back(rng.next());
        for (size_t i = N; i < N + L; i++) {
            uint64_t y = x[i - N + pos];
            y ^= y << 17;
            x.push_back(y ^ (x[i - N] >> 1) ^ ((x[i - N] & 1) ? v[2] : 0));
            uint64_t z = x.back();
            z ^= (z >> 29) & UINT64_C(0x5555555555555555);
            z ^= (z << 17) & v[4];
            z ^= (z << 37) & v[5];
            z ^= z >> 43;
            Row r = row64(z);
            r.w[2] = x.back();
            o.push_back(r);
        }
    } else if (p.kind == "sfmt") {      // mexp pos1 sl1 sl2 sr1 sr2 msk*4 parity*4
        typedef unsigned __int128 u128;
        size_t N = static_cast<size_t>(p.mexp / 128 + 1), pos = v[1];
        std::vector<u128> x;
        for (size_t i = 0; i < N; i++) { u128 h = rng.next(); x.push_back(h << 64 | rng.next()); }
        for (size_t i = N; i < N + L; i++) {
            u128 a = x[i - N], b = x[i - N + pos], c = x[i - 2], d = x[i - 1], r = a ^ (a << (8 * v[3])) ^ (c >> (8 * v[5]));
            for (int k = 0; k < 4; k++) {
                uint32_t bw = static_cast<uint32_t>(b >> (32 * k)), dw = static_cast<uint32_t>(d >> (32 * k));
                r ^= static_cast<u128>(((bw >> v[4]) & static_cast<uint32_t>(v[6 + static_cast<size_t>(k)])) ^ static_cast<uint32_t>(dw << v[2])) << (32 * k);
            }
            x.push_back(r);
            Row q = {{static_cast<uint64_t>(r >> 64), static_cast<uint64_t>(r), static_cast<uint64_t>(r >> 64), static_cast<uint64_t>(r)}};
            o.push_back(q);
        }
    } else {                            // dsfmt: mexp pos1 sl1 msk1 msk2 ...; w[2], w[3]: the carried word (lane 1, lane 0)
        size_t N = static_cast<size_t>((p.mexp - 128) / 104 + 1), pos = v[1];
        const uint64_t low = UINT64_C(0x000fffffffffffff);
        std::vector<std::array<uint64_t, 2> > x;
        uint64_t l[2] = {rng.next(), rng.next()};
        for (size_t i = 0; i < N; i++) x.push_back({{rng.next() & low, rng.next() & low}});
        if (affine) {       // given state: N words, then the carried word
            for (size_t i = 0; i < N; i++) x[i] = {{(*affine)[2 * i], (*affine)[2 * i + 1]}};
            l[0] = (*affine)[2 * N];
            l[1] = (*affine)[2 * N + 1];
        }
        for (size_t i = N; i < N + L; i++) {
            if (affine) {   // row t: T^t of the given state
                Row q = {{x[i - 1][1], x[i - 1][0], l[1], l[0]}};
                o.push_back(q);
            }
            uint64_t m[2];
            std::array<uint64_t, 2> r;
            for (size_t k = 0; k < 2; k++) {
                m[k] = (x[i - N][k] << v[2]) ^ (l[1 - k] >> 32) ^ (l[1 - k] << 32) ^ x[i - N + pos][k];
                r[k] = (m[k] >> 12) ^ (m[k] & v[3 + k]) ^ x[i - N][k];
            }
            l[0] = m[0];
            l[1] = m[1];
            x.push_back(r);
            if (!affine) {
                Row q = {{r[1], r[0], l[1], l[0]}};
                o.push_back(q);
            }
        }
    }
    return o;
}
static std::vector<uint8_t> bitSeq(const Rows& r, int b, int len) {
    std::vector<uint8_t> s;
    for (int i = 0; i < len; i++) s.push_back(rbit(r[static_cast<size_t>(i)], b));
    return s;
}
static Rows combine(const Rows& r, const orc::Poly& q, int len) {
    Rows o;
    Row z = {{0, 0, 0, 0}};
    std::vector<size_t> on;
    for (int j = 0; j <= q.deg(); j++) if (q.bit(j)) on.push_back(static_cast<size_t>(j));
    for (size_t i = 0; i < static_cast<size_t>(len); i++) {
        Row a = z;
        for (size_t j = 0; j < on.size(); j++) a = a ^ r.at(i + on[j]);
        o.push_back(a);
    }
    return o;
}
// irreducible, for a prime degree: x^(2^p) = x, and no root
static bool irreducibleP(const orc::Poly& f) {
    int p = f.deg();
    if (p < 2 || !f.bit(0) || f.weight() % 2 == 0) return false;
    orc::Poly x = orc::Poly::mono(1);
    for (int i = 0; i < p; i++) x = orc::sqrmod(x, f);
    return x == orc::Poly::mono(1);
}
// f: factor of degree mexp of the recurrence, q: the rest; false: there is none
static bool component(const Params& p, Rng& rng, orc::Poly& f, orc::Poly& q) {
    int len = 2 * p.n + 80;
    orc::Poly h(1);
    for (int rep = 0; rep < 40; rep++) {
        if (rep >= 2) {         // later states only look for factors whose part was zero so far
            Rows z = combine(record(p, rng, h.deg() + 8), h, 4);
            bool zero = true;
            for (size_t i = 0; i < z.size(); i++) zero = zero && !(z[i].w[0] | z[i].w[1] | z[i].w[2] | z[i].w[3]);
            if (zero) continue;
        }
        Rows r = record(p, rng, len);
        for (int b = 0; b < p.width; b++) {
            std::vector<uint8_t> s = bitSeq(r, b, len);
            if (h.deg() > 0 && orc::annihilates(h, s)) continue;
            h = orc::lcm(h, orc::minPolySeq(s));
        }
        if (p.kind == "dsfmt" || p.kind == "rmt")
            for (int b = 128; b < 256; b++) {
                std::vector<uint8_t> s = bitSeq(r, b, len);
                if (!orc::annihilates(h, s)) h = orc::lcm(h, orc::minPolySeq(s));
            }
    }
    orc::Poly rest = h;
    for (int d = 1; d <= p.n - p.mexp + 1 && rest.deg() > p.mexp; d++)
        for (;;) {
            orc::Poly x = orc::Poly::mono(1);
            for (int i = 0; i < d; i++) x = orc::sqrmod(x, rest);
            orc::Poly g = orc::gcd(x + orc::Poly::mono(1), rest);
            if (g.deg() <= 0 || g.deg() >= p.mexp) break;
            rest = rest / g;
        }
    while (rest.deg() > 0 && !rest.bit(0)) rest = rest / orc::Poly::mono(1);
    if (rest.deg() != p.mexp || !irreducibleP(rest)) return false;
    f = rest;
    q = h / rest;
    return true;
}
// exact k(v) of the stream of `width`-bit words over the component, minimum over the start positions
static std::vector<int> exactK(const Params& p, const Rows& y, int width, bool lsb) {
    int per = p.width == 128 ? 128 / (width == 52 ? 64 : width) : 1;
    struct S { std::vector<std::vector<uint8_t> > b; };
    std::vector<S> lane(static_cast<size_t>(per));
    for (int l = 0; l < per; l++) {
        lane[static_cast<size_t>(l)].b.resize(static_cast<size_t>(width));
        for (int v = 0; v < width; v++)
            for (size_t i = 0; i < y.size(); i++) {
                int w = width == 52 ? 64 : width, at;       // position (0 = top) in the 128-bit word; lane 0 is the low end
                if (p.width != 128) at = lsb ? p.width - 1 - v : v;
                else {
                    int topOfLane = 128 - (l + 1) * w;
                    if (width == 52) at = topOfLane + 12 + (lsb ? 51 - v : v);
                    else at = topOfLane + (lsb ? w - 1 - v : v);
                }
                lane[static_cast<size_t>(l)].b[static_cast<size_t>(v)].push_back(rbit(y[i], at));
            }
    }
    int n = p.mexp;
    size_t W = static_cast<size_t>(n + 63) / 64;
    std::vector<int> k(static_cast<size_t>(width), n);
    for (int st = 0; st < per; st++)
        for (int v = 1; v <= width; v++) {
            orc::Elim e(n);
            int t = 0;
            for (; t < n / v; t++) {
                bool ok = true;
                int q = st + t;
                for (int b = 0; b < v && ok; b++) {
                    orc::Words c(W, 0);
                    const std::vector<uint8_t>& s = lane[static_cast<size_t>(q % per)].b[static_cast<size_t>(b)];
                    for (int i = 0; i < n; i++) if (s[static_cast<size_t>(i + q / per)]) c[static_cast<size_t>(i) / 64] |= UINT64_C(1) << (i % 64);
                    ok = e.insert(c);
                }
                if (!ok) break;
            }
            k[static_cast<size_t>(v) - 1] = std::min(k[static_cast<size_t>(v) - 1], t);
        }
    return k;
}
static long deltaOf(const std::vector<int>& k, int n) { long d = 0; for (size_t i = 0; i < k.size(); i++) d += n / static_cast<int>(i + 1) - k[i]; return d; }

// ------------------------------------------------------------------ printed lines
static bool parseLine(const std::string& kind, const std::string& l, Params& p, std::vector<long>& claims, std::string& text) {
    // kind -> fields: d decimal, x hexadecimal, s text, c claimed decimal
    std::string spec = kind == "mt2" ? "dddxxxc" : kind == "mtgp" ? "sdsdddd" "xxxx" "xxxx" "xcc" : kind == "tiny" ? "sdxxxcc" :
        kind == "rmt" ? "ddxxxxc" : kind == "sfmt" ? "ddddddxxxxxxxxccc" : "ddd" "xxxxxx" "c";
    std::vector<std::string> f = fields(l);
    if (f.size() != spec.size()) return false;
    p = Params();
    p.kind = kind;
    p.line = l;
    claims.clear();
    text = "";
    for (size_t i = 0; i < spec.size(); i++) {
        uint64_t v;
        if (spec[i] == 's') { text += (text.empty() ? "" : " ") + f[i]; continue; }
        if (!number(f[i], spec[i] == 'x' ? 16 : 10, v)) return false;
        if (spec[i] == 'c') claims.push_back(static_cast<long>(v)); else p.v.push_back(v);
    }
    p.mexp = kind == "tiny" ? 127 : static_cast<int>(p.v[0]);
    if (p.mexp < 64 || p.mexp > 300000) return false;
    if (kind == "mt2" || kind == "mtgp" || kind == "tiny") p.width = 32, p.n = p.mexp;
    else if (kind == "rmt") p.width = 64, p.n = (p.mexp / 64 + 1) * 64;
    else if (kind == "sfmt") p.width = 128, p.n = (p.mexp / 128 + 1) * 128;
    else p.width = 128, p.n = ((p.mexp - 128) / 104 + 1) * 104 + 128;
    // what the recurrence is defined for
    int words = kind == "mt2" || kind == "mtgp" ? p.mexp / 32 + 1 : kind == "rmt" ? p.mexp / 64 + 1 : kind == "sfmt" ? p.mexp / 128 + 1 : (p.mexp - 128) / 104 + 1;
    if (kind != "tiny") {
        uint64_t pos = p.v[kind == "mt2" || kind == "mtgp" ? 2 : 1];
        if (pos >= static_cast<uint64_t>(words)) return false;
        if (kind == "mtgp" && (pos < 1 || p.v[3] > 31 || p.v[4] > 31)) return false;
        if (kind == "sfmt" && (p.v[2] > 31 || p.v[3] > 15 || p.v[4] > 31 || p.v[5] > 15)) return false;
        if (kind == "dsfmt" && p.v[2] > 63) return false;
    }
    return true;
}
static std::vector<std::string> paramLines(const std::string& kind, const std::string& out) {
    std::vector<std::string> r, l = lines(out);
    Params p;
    std::vector<long> c;
    std::string t;
    for (size_t i = 0; i < l.size(); i++) if (parseLine(kind, l[i], p, c, t)) r.push_back(l[i]);
    return r;
}
static int parity128(uint64_t a, uint64_t b, uint64_t c, uint64_t d) { return __builtin_parityll((a & c) ^ (b & d)); }
// the certification vector: orthogonal to the words of all states without part in the large component
static bool certifies(const Params& p, Rng& rng, const orc::Poly& f, uint64_t hi, uint64_t lo, std::string& why) {
    if (hi == 0 && lo == 0) { why = "zero vector"; return false; }
    int extra = p.n - p.mexp + 8;
    for (int rep = 0; rep < 6; rep++) {
        Rows z = combine(record(p, rng, p.mexp + extra + 4), f, extra);
        for (size_t i = 0; i < z.size(); i++)
            if (parity128(z[i].w[2], z[i].w[3], hi, lo)) { why = "not orthogonal to a state outside of the large component"; return false; }
    }
    return true;
}
// the carried word of the fixed point of the affine map on the large component
static void fixPoint(const Params& p, Rng& rng, const orc::Poly& f, const orc::Poly& q, uint64_t& hi, uint64_t& lo) {
    size_t N = static_cast<size_t>((p.mexp - 128) / 104 + 1);
    const uint64_t P = UINT64_C(0x3ff) << 52;
    uint64_t C = (P << p.v[2]) ^ P;
    std::vector<uint64_t> st(2 * N + 2, 0);
    for (size_t k = 0; k < 2; k++) {
        st[2 * (N - 1) + k] = ((C >> 12) ^ (C & p.v[3 + k])) & UINT64_C(0x000fffffffffffff);
        st[2 * N + k] = C;
    }
    orc::Poly m = f * q;
    // u = (x+1)^-1 mod f by x^(2^p - 2) ... : inverse through the order of the field, (x+1)^(2^p-2)
    orc::Poly x1 = orc::Poly::mono(1);
    x1.flip(0);
    auto inv = [&](const orc::Poly& a) {
        orc::Poly r(1), s = a % f;
        for (int i = 1; i < f.deg(); i++) { s = orc::sqrmod(s, f); r = orc::mulmod(r, s, f); }     // a^(2 + 4 + .. + 2^(p-1))
        return r;
    };
    orc::Poly b = inv(q % f), u = inv(x1);
    // e = b q is 1 on the large component and 0 on the other: (u b mod f) q
    orc::Poly w = orc::mulmod(u, b, f) * q;
    w = w % m;
    Rows r = record(p, rng, w.deg() + 2, &st);
    hi = lo = 0;
    for (int j = 0; j <= w.deg(); j++) if (w.bit(j)) hi ^= r[static_cast<size_t>(j)].w[2], lo ^= r[static_cast<size_t>(j)].w[3];
}
// the printed fixed point may differ from the exact one by the word of a state outside of the large component
// (the certification does not see it); `found`: printed, hi/lo: exact
static bool sameFix(const Params& p, Rng& rng, const orc::Poly& f, uint64_t hi, uint64_t lo, uint64_t phi, uint64_t plo) {
    orc::Elim e(128);
    for (int rep = 0; rep < 40; rep++) {
        Rows z = combine(record(p, rng, p.mexp + 12), f, 8);
        for (size_t i = 0; i < z.size(); i++) { orc::Words w = {z[i].w[2], z[i].w[3]}; e.insert(w); }
    }
    orc::Words d = {hi ^ phi, lo ^ plo};
    return !e.insert(d);
}
static std::string kstr(const std::vector<int>& k) { std::string s; for (size_t i = 0; i < k.size(); i++) s += (i ? " " : "") + S(k[i]); return s; }
struct Known {      // what is true of one parameter set
    bool ok;
    orc::Poly f, q;
    Rows y;         // a sequence inside the component
};
static Known study(Case& c, const Params& p, Rng& rng) {
    Known k;
    k.ok = false;
    if (p.kind == "mt2" || p.kind == "mtgp" || p.kind == "tiny") {
        Rows r = record(p, rng, 2 * p.n + 80);
        for (int b = 0; b < 32 && k.f.deg() <= 0; b++) k.f = orc::minPolySeq(bitSeq(r, b, 2 * p.n + 80));
        k.q = orc::Poly(1);
        if (k.f.deg() != p.mexp || !irreducibleP(k.f)) return k;
        k.y = r;
    } else {
        if (!component(p, rng, k.f, k.q)) return k;
        k.y = combine(record(p, rng, 2 * p.mexp + 8 + k.q.deg() + 4), k.q, 2 * p.mexp + 8);
    }
    k.ok = true;
    (void)c;
    return k;
}
// one printed parameter line against the truth
static void verifyLine(Case& c, const std::string& kind, const std::string& l, const std::string& cmd) {
    Params p;
    std::vector<long> claims;
    std::string text;
    if (!c.check(parseLine(kind, l, p, claims, text), "print-unreadable", cmd + " printed " + l)) return;
    Rng rng(hashStr(l));
    Known k = study(c, p, rng);
    std::string d = cmd + ": " + l;
    if (!c.check(k.ok, "period", d + " does not have a factor of maximal period (degree seen " + S(k.f.deg()) + ")")) return;
    c.count("parameters_verified_" + kind);
    uint64_t id;
    if (kind == "mt2") {
        c.check((p.v[3] & 0xffff) == p.v[1], "id-embedding", d);
        std::vector<int> e = exactK(p, k.y, 32, false);
        c.check(deltaOf(e, p.mexp) == claims[0], "delta", d + " exact delta " + S(deltaOf(e, p.mexp)) + " k " + kstr(e));
    } else if (kind == "mtgp") {
        id = p.v[1];
        c.check(((p.v[7] >> 4) & 0xffff) == (id & 0xffff) && (p.v[8] >> 16) == (id >> 16), "id-embedding", d);
        uint32_t mask = 0xffffffffu << (32 * (p.mexp / 32 + 1) - p.mexp);
        c.check(p.v[13] == mask, "mask", d);
        std::string first = text.substr(0, text.find(' '));
        if (c.check(first.size() >= 2 && first[0] == '"' && first[first.size() - 1] == '"', "sha1", d + " first column " + first) && first != "\"\"") {
            std::string want = orc::sha1hex(orc::coefText(k.f));
            c.check(first == '"' + want + '"', "sha1", d + " SHA-1 of the characteristic polynomial " + want);
            c.count("digests_verified");
        }
        c.check(k.f.weight() == claims[0], "weight", d + " weight of the characteristic polynomial " + S(k.f.weight()));
        std::vector<int> e = exactK(p, k.y, 32, false);
        c.check(deltaOf(e, p.mexp) == claims[1], "delta", d + " exact delta " + S(deltaOf(e, p.mexp)) + " k " + kstr(e));
    } else if (kind == "tiny") {
        uint32_t m1 = static_cast<uint32_t>(p.v[1]), m2 = static_cast<uint32_t>(p.v[2]);
        m2 ^= 1;
        m2 ^= m2 << 18;         // undo, both shifts exceed half the word
        m1 ^= m1 >> 19;
        c.check((m1 & 0xffff) == (p.v[0] & 0xffff) && (m2 >> 16) == (p.v[0] >> 16), "id-embedding", d);
        char b[40];
        uint64_t w0 = k.f.w.size() > 0 ? k.f.w[0] : 0, w1 = k.f.w.size() > 1 ? k.f.w[1] : 0;
        snprintf(b, sizeof b, "%016llx%016llx", (unsigned long long)w1, (unsigned long long)w0);
        c.check(text == b, "characteristic", d + " characteristic polynomial " + b);
        c.check(k.f.weight() == claims[0], "weight", d + " weight " + S(k.f.weight()));
        std::vector<int> e = exactK(p, k.y, 32, false);
        c.check(deltaOf(e, 127) == claims[1], "delta", d + " exact delta " + S(deltaOf(e, 127)) + " k " + kstr(e));
    } else if (kind == "rmt") {
        std::vector<int> e = exactK(p, k.y, 64, false);
        // the creator counts the defect from the size of the state
        c.check(deltaOf(e, p.n) == claims[0], "delta", d + " exact delta " + S(deltaOf(e, p.n)) + " k " + kstr(e));
        std::string why;
        c.check(certifies(p, rng, k.f, p.v[3], 0, why), "parity", d + " " + why);
    } else if (kind == "sfmt") {
        const int width[3] = {32, 64, 128};
        for (int i = 0; i < 3; i++) {
            std::vector<int> e = exactK(p, k.y, width[i], false);
            c.check(deltaOf(e, p.mexp) == claims[static_cast<size_t>(i)], "delta", d + " exact delta" + S(width[i]) + " " + S(deltaOf(e, p.mexp)) + " k " + kstr(e));
        }
        std::string why;
        c.check(certifies(p, rng, k.f, p.v[13] << 32 | p.v[12], p.v[11] << 32 | p.v[10], why), "parity", d + " " + why);
    } else {
        std::vector<int> e = exactK(p, k.y, 52, false);
        c.check(deltaOf(e, p.mexp) == claims[0], "delta", d + " exact delta52 " + S(deltaOf(e, p.mexp)) + " k " + kstr(e));
        std::string why;
        c.check(certifies(p, rng, k.f, p.v[8], p.v[7], why), "parity", d + " " + why);
        uint64_t hi, lo;
        fixPoint(p, rng, k.f, k.q, hi, lo);
        if (p.v[5] != lo || p.v[6] != hi) c.count("fixpoints_up_to_the_small_component");
        c.check(sameFix(p, rng, k.f, hi, lo, p.v[6], p.v[5]), "fixpoint", d + " exact " + hex(lo) + "," + hex(hi));
    }
    c.eval(l, true);
}

// ------------------------------------------------------------------ programs
static long gSlow = 0;
static bool finished(Case& c, const Out& o) {
    c.count("program_runs");
    c.count("runs_" + o.cmd.substr(0, o.cmd.find(' ')));
    if (o.cut || o.status == 1000 + SIGXCPU) { c.count("runs_cut_at_cpu_limit"); gSlow++; return false; }
    return c.check(o.status == 0, "status", o.cmd + " ended with status " + S(o.status) + ", stderr: " + o.err.substr(0, 400));
}
struct Creator {
    std::string prog, kind;
    Args opts;              // fixed options and operands
    std::string header;
    long cpu;
};
static bool hasHeader(const std::string& out, const std::string& h) {
    std::vector<std::string> l = lines(out);
    std::string want;
    for (size_t i = 0; i < h.size(); i++) if (h[i] != ' ' && h[i] != '#') want += h[i];
    for (size_t j = 0; j < l.size(); j++) {
        std::string s;
        for (size_t i = 0; i < l[j].size(); i++) if (l[j][i] != ' ' && l[j][i] != '#') s += l[j][i];
        if (s == want) return true;
    }
    return false;
}
static Args operator+(Args a, const Args& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
// runs the creator for `count` sets: all lines true; again in another form: the same lines
static std::vector<std::string> creator(Case& c, const Creator& k, int count, int form) {
    std::vector<std::string> none;
    Args cnt;
    cnt.push_back("-c");
    cnt.push_back(S(count));
    Out o = run(bin(k.prog), cnt + k.opts, k.cpu);
    if (!finished(c, o)) return none;
    std::vector<std::string> l = paramLines(k.kind, o.out);
    bool failed = o.out.find("search failed") != std::string::npos;      // the budget of a search is finite
    if (failed) c.count("searches_without_result");
    c.check(failed ? static_cast<int>(l.size()) < count : static_cast<int>(l.size()) == count, "count", o.cmd + " printed " + S(l.size()) + " parameter sets, " + S(count) + " requested: " + o.out.substr(0, 500));
    c.check(hasHeader(o.out, k.header), "header", o.cmd + " printed no header " + k.header + ": " + o.out.substr(0, 300));
    for (size_t i = 0; i < l.size(); i++) verifyLine(c, k.kind, l[i], o.cmd);
    Args a = cnt;
    std::vector<std::string> want = l;
    std::string file = scratch() + "/out.txt";
    if (form == 0) {}                               // the very same run
    else if (form == 1) a.push_back("-v");
    else if (form == 2) { a[1] = S(1); if (want.size() > 1) want.resize(1); }
    else if (form == 3) { unlink(file.c_str()); a.push_back("-f"); a.push_back(file); }
    else return l;
    Out p = run(bin(k.prog), a + k.opts, k.cpu * 2);
    if (!finished(c, p)) return l;
    std::string got = p.out;
    if (form == 3) {
        c.check(paramLines(k.kind, p.out).empty(), "file-option", p.cmd + " wrote parameters to standard output");
        got = slurp(file);
        c.check(hasHeader(got, k.header), "header", p.cmd + " wrote no header " + k.header + ": " + got.substr(0, 300));
        unlink(file.c_str());
    }
    std::vector<std::string> m = paramLines(k.kind, got);
    if (form == 1 && m.size() > want.size()) {      // intermediate reports of the verbose mode may look like parameters: the results have to be there, in order
        size_t at = 0;
        for (size_t i = 0; i < m.size() && at < want.size(); i++) if (m[i] == want[at]) at++;
        if (at == want.size()) m = want;
    }
    c.check(m == want, form == 3 ? "file-option" : "reproducible", p.cmd + " gave " + (m.empty() ? "nothing" : m[0]) + " (" + S(m.size()) + "), " + o.cmd + " gave " + (want.empty() ? "nothing" : want[0]) + " (" + S(want.size()) + ")");
    c.count("forms_compared");
    return l;
}
static Args args(const std::string& s);
static std::string seedOf(Case& c) { return S(c.rng.next() >> c.rng.range(0, 60)); }
static bool lastClaims(const std::string& line, size_t n, std::vector<long>& v);
// the limit on delta: exactly the parameters at or below it, in the same order, as many as requested
static void filtered(Case& c, const Creator& k, int total) {
    Args cnt;
    cnt.push_back("-c");
    cnt.push_back(S(total));
    Out o = run(bin(k.prog), cnt + k.opts, k.cpu);
    if (!finished(c, o)) return;
    std::vector<std::string> l = paramLines(k.kind, o.out);
    std::vector<long> ds, v;
    for (size_t i = 0; i < l.size(); i++) { if (!lastClaims(l[i], 1, v)) return; ds.push_back(v[0]); }
    if (ds.empty()) return;
    std::vector<long> sorted = ds;
    std::sort(sorted.begin(), sorted.end());
    for (int t = 0; t < 2; t++) {
        long limit = t ? sorted[sorted.size() / 2] : sorted[c.rng.below(sorted.size())];
        std::vector<std::string> want;
        for (size_t i = 0; i < l.size(); i++) if (ds[i] <= limit) want.push_back(l[i]);
        Args a;
        a.push_back("-m");
        a.push_back(S(limit));
        cnt[1] = S(want.size());
        Out p = run(bin(k.prog), (t ? cnt + a : a + cnt) + k.opts, k.cpu);
        if (!finished(c, p)) return;
        std::vector<std::string> got = paramLines(k.kind, p.out);
        c.check(hasHeader(p.out, k.header), "header", p.cmd + " printed no header " + k.header + ": " + p.out.substr(0, 300));
        c.check(got == want, "max-delta", p.cmd + " printed " + S(got.size()) + " sets, the unrestricted run has " + S(want.size()) + " at or below " + S(limit) + ": " + p.out.substr(0, 300));
        c.count("filters_compared");
    }
}
static Args args(const std::string& s) {
    Args a;
    std::istringstream i(s);
    std::string w;
    while (i >> w) a.push_back(w);
    return a;
}
static std::string joined(const std::vector<std::string>& f, size_t n) {
    std::string s;
    for (size_t i = 0; i < n && i < f.size(); i++) s += (i ? "," : "") + f[i];
    return s;
}
// "k(1) = 521\td(1) = 0" or "k( 1):128  d( 1):  0"
static bool kTable(const std::vector<std::string>& l, size_t& at, int width, std::vector<int>& k, std::vector<int>& d) {
    k.clear();
    d.clear();
    for (; at < l.size() && static_cast<int>(k.size()) < width; at++) {
        std::string s;
        for (size_t i = 0; i < l[at].size(); i++) if (!isspace(static_cast<unsigned char>(l[at][i]))) s += l[at][i] == ':' ? '=' : l[at][i];
        int v, kv, v2, dv, used = 0;
        if (sscanf(s.c_str(), "k(%d)=%dd(%d)=%d%n", &v, &kv, &v2, &dv, &used) != 4 || used != static_cast<int>(s.size())) { if (k.empty()) continue; return false; }
        if (v != static_cast<int>(k.size()) + 1 || v2 != v) return false;
        k.push_back(kv);
        d.push_back(dv);
    }
    return static_cast<int>(k.size()) == width;
}
static void tableIs(Case& c, const std::string& cmd, const std::vector<int>& k, const std::vector<int>& d, const std::vector<int>& want, int n) {
    std::vector<int> wd;
    for (size_t i = 0; i < want.size(); i++) wd.push_back(n / static_cast<int>(i + 1) - want[i]);
    c.check(k == want, "equidistribution", cmd + " printed k " + kstr(k) + ", exact " + kstr(want));
    c.check(d == wd, "equidistribution", cmd + " printed d " + kstr(d) + ", exact " + kstr(wd));
    c.count("k_tables_verified");
}
static bool lastClaims(const std::string& line, size_t n, std::vector<long>& v) {
    std::vector<std::string> f = fields(line);
    v.clear();
    if (f.size() < n) return false;
    for (size_t i = f.size() - n; i < f.size(); i++) { uint64_t x; if (!number(f[i], 10, x)) return false; v.push_back(static_cast<long>(x)); }
    return true;
}
// a random parameter set of the kind that may well be reducible everywhere
static void analyses(Case& c, const std::string& kind, const std::string& line) {
    Params p;
    std::vector<long> claims;
    std::string text;
    if (!parseLine(kind, line, p, claims, text)) return;
    Rng rng(hashStr(line));
    Known k = study(c, p, rng);
    if (!k.ok) return;
    std::vector<std::string> f = fields(line);
    const long cpu = 60;
    if (kind == "rmt") {
        Args a(1, joined(f, 6));
        Out o = run(bin("rmteq"), a, cpu);
        if (finished(c, o)) {
            std::vector<std::string> l = lines(o.out);
            size_t at = 0;
            std::vector<int> kk, dd, e = exactK(p, k.y, 64, false);
            if (c.check(kTable(l, at, 64, kk, dd), "print-unreadable", o.cmd + " printed " + o.out.substr(0, 400))) tableIs(c, o.cmd, kk, dd, e, p.mexp);
            std::vector<long> v;
            c.check(!l.empty() && lastClaims(l[0], 1, v) && v[0] == deltaOf(e, p.mexp), "delta", o.cmd + " printed " + (l.empty() ? "" : l[0]) + ", exact delta " + S(deltaOf(e, p.mexp)));
        }
        o = run(bin("rmtper"), a, cpu);
        if (finished(c, o)) {
            c.check(o.out.find("period >= 2^" + S(p.mexp) + "-1") != std::string::npos && o.out.find("deg irreducible = " + S(p.mexp)) != std::string::npos, "period-report", o.cmd + " printed " + o.out.substr(0, 400));
        }
        c.eval("analyses " + line, true);
        return;
    }
    bool sf = kind == "sfmt";
    size_t np = sf ? 14 : 9;
    std::string full = joined(f, np);
    std::vector<int> widths;
    if (sf) widths.push_back(32), widths.push_back(64), widths.push_back(128); else widths.push_back(52);
    for (int rev = 0; rev < (sf ? 2 : 1); rev++) {
        Args a = args(rev ? "-v -r" : "-v");
        a.push_back(full);
        Out o = run(bin(sf ? "sfmteq" : "dsfmteq"), a, cpu);
        if (!finished(c, o)) continue;
        std::vector<std::string> l = lines(o.out);
        std::vector<long> v, want;
        size_t at = 0;
        while (at < l.size() && l[at].compare(0, full.size(), full) != 0) at++;
        std::string first = at < l.size() ? l[at] : "";
        for (size_t i = 0; i < widths.size(); i++) {
            std::vector<int> kk, dd, e = exactK(p, k.y, widths[i], rev != 0);
            want.push_back(deltaOf(e, p.mexp));
            if (c.check(kTable(l, at, widths[i], kk, dd), "print-unreadable", o.cmd + " printed " + o.out.substr(0, 400))) tableIs(c, o.cmd + " (" + S(widths[i]) + " bits)", kk, dd, e, p.mexp);
        }
        std::string wants;
        for (size_t i = 0; i < want.size(); i++) wants += " " + S(want[i]);
        c.check(lastClaims(first, widths.size(), v) && v == want, "delta", o.cmd + " printed " + first + ", exact" + wants);
    }
    Args a(1, full);
    Out o = run(bin(sf ? "sfmtlin" : "dsfmtlin"), a, cpu);
    if (finished(c, o)) c.check(o.out.find("Linearity Test OK") != std::string::npos, "linearity-report", o.cmd + " printed " + o.out.substr(0, 400));
    o = run(bin(sf ? "sfmtper" : "dsfmtper"), a, cpu);
    if (finished(c, o)) {
        std::vector<std::string> l = lines(o.out);
        int modes = 0;
        for (size_t i = 0; i < l.size(); i++) {
            int s, w, mi, ma;
            if (sscanf(l[i].c_str(), "start_mode = %d weight_mode = %d min = %d max = %d", &s, &w, &mi, &ma) != 4) continue;
            modes++;
            c.check(mi == p.mexp && ma == p.mexp, "period-report", o.cmd + " printed " + l[i]);
        }
        c.check(modes == (sf ? 16 : 4), "period-report", o.cmd + " printed " + S(modes) + " modes: " + o.out.substr(0, 600));
    }
    // the certification vector, from the recurrence alone
    for (int check = 0; check < 2; check++) {
        Args b = check ? args("-c") : Args();
        b.push_back(joined(f, sf ? 10 : 7));
        o = run(bin(sf ? "sfmtpar" : "dsfmtpar"), b, cpu);
        if (!finished(c, o)) continue;
        std::vector<std::string> l = lines(o.out);
        bool seen = false;
        for (size_t i = 0; i < l.size(); i++) {
            std::vector<std::string> g = fields(l[i]);
            while (!g.empty() && g.back().empty()) g.pop_back();
            if (g.size() != np || joined(g, sf ? 10 : 7) != joined(f, sf ? 10 : 7)) continue;
            seen = true;
            uint64_t x[4] = {0, 0, 0, 0};
            bool ok = true;
            for (size_t j = 0; j < (sf ? 4u : 2u); j++) ok = ok && number(g[(sf ? 10 : 7) + j], 16, x[j]);
            std::string why = "unreadable";
            ok = ok && (sf ? certifies(p, rng, k.f, x[3] << 32 | x[2], x[1] << 32 | x[0], why) : certifies(p, rng, k.f, x[1], x[0], why));
            c.check(ok, "parity", o.cmd + " printed " + l[i] + ": " + why);
        }
        c.check(seen, "print-unreadable", o.cmd + " printed " + o.out.substr(0, 400));
        if (check) c.check(o.out.find("test successed 100 / 100") != std::string::npos, "parity-report", o.cmd + " printed " + o.out.substr(0, 600));
    }
    if (!sf) {
        uint64_t hi, lo;
        fixPoint(p, rng, k.f, k.q, hi, lo);
        o = run(bin("dsfmtfixp"), Args(1, joined(f, 5)), cpu);
        if (finished(c, o)) {
            std::vector<std::string> l = lines(o.out);
            bool seen = false;
            for (size_t i = 0; i < l.size(); i++) {
                std::vector<std::string> g = fields(l[i]);
                uint64_t a1 = 0, a2 = 0;
                if (g.size() < 7 || joined(g, 5) != joined(f, 5)) continue;
                seen = true;
                c.check(number(g[5], 16, a1) && number(g[6], 16, a2) && sameFix(p, rng, k.f, hi, lo, a2, a1), "fixpoint", o.cmd + " printed " + l[i] + ", exact " + hex(lo) + "," + hex(hi));
            }
            c.check(seen, "print-unreadable", o.cmd + " printed " + o.out.substr(0, 400));
        }
        o = run(bin("dsfmtold"), a, cpu);
        if (finished(c, o)) {
            // the two polynomials, lowest coefficient first
            std::string bits;
            std::vector<std::string> l = lines(o.out), polys;
            for (size_t i = 0; i < l.size(); i++) {
                size_t z = l[i].find_first_not_of("01");
                if (l[i].empty() || (z == 0 && l[i].compare(0, 4, "deg=") != 0)) continue;
                bits += l[i].substr(0, z);
                if (z != std::string::npos) { if (l[i].compare(z, 4, "deg=") == 0) polys.push_back(bits); bits = ""; }
            }
            // the primitive factor, and an annihilator of the output
            orc::Poly got[2];
            for (size_t j = 0; j < 2 && polys.size() == 2; j++)
                for (size_t i = 0; i < polys[j].size(); i++) if (polys[j][i] == '1') got[j].flip(static_cast<int>(i));
            orc::Poly full_ = k.f * k.q;
            c.check(polys.size() == 2 && got[0] == k.f && (got[1] % k.f).deg() < 0 && (full_ % got[1]).deg() < 0, "old-format",
                    o.cmd + " printed " + (polys.size() == 2 ? polys[0] + " and " + polys[1] : o.out.substr(0, 300)));
        }
    }
    c.eval("analyses " + line, true);
}
// xorshift on four 32-bit words: x = T x; T given as function
typedef std::function<uint32_t(uint32_t, uint32_t)> Step;      // oldest, newest -> new
static Rows xsRows(const Step& s, Rng& rng, int len) {
    uint32_t x[4];
    for (int i = 0; i < 4; i++) x[i] = static_cast<uint32_t>(rng.next());
    Rows r;
    for (int i = 0; i < len; i++) {
        uint32_t y = s(x[0], x[3]);
        x[0] = x[1], x[1] = x[2], x[2] = x[3], x[3] = y;
        r.push_back(row32(y));
    }
    return r;
}
static bool primitive128(const orc::Poly& f) {
    if (f.deg() != 128 || !f.bit(0)) return false;
    // irreducible: x^(2^128) = x and gcd(x^(2^64) - x, f) = 1; then the order by the primes of 2^128 - 1
    orc::Poly x = orc::Poly::mono(1), y = x;
    for (int i = 0; i < 64; i++) y = orc::sqrmod(y, f);
    if (orc::gcd(y + x, f).deg() > 0) return false;
    orc::Poly z = y;
    for (int i = 0; i < 64; i++) z = orc::sqrmod(z, f);
    if (!(z == x)) return false;
    const char * pr[] = {"3", "5", "17", "257", "641", "65537", "274177", "6700417", "67280421310721"};
    for (size_t i = 0; i < 9; i++) {
        unsigned __int128 e = ~static_cast<unsigned __int128>(0) / strtoull(pr[i], 0, 10);
        orc::Poly r(1), b = x;
        for (; e; e >>= 1) { if (e & 1) r = orc::mulmod(r, b, f); b = orc::sqrmod(b, f); }
        if (r == orc::Poly(1)) return false;
    }
    return true;
}
static orc::Poly xsChar(const Step& s, Rng& rng) {
    orc::Poly f(1);
    for (int rep = 0; rep < 3 && f.deg() < 128; rep++) {
        Rows r = xsRows(s, rng, 336);
        for (int b = 0; b < 32 && f.deg() < 128; b += 5) f = orc::lcm(f, orc::minPolySeq(bitSeq(r, b, 336)));
    }
    return f;
}
static std::vector<int> xsK(const Step& s, Rng& rng) {
    Params p;
    p.kind = "xorshift";
    p.mexp = p.n = 128;
    p.width = 32;
    return exactK(p, xsRows(s, rng, 300), 32, false);
}
static Step xsPat(unsigned pat, unsigned a, unsigned b, unsigned cc) {
    return [=](uint32_t x, uint32_t w) {
        uint32_t g = w, h = x;
        switch (pat) {
        case 0: case 1: g ^= g >> a; g ^= g << b; break;
        case 2: case 3: g ^= g << a; g ^= g >> b; break;
        case 4: case 5: g ^= g >> a; break;
        default: g ^= g << a; break;
        }
        switch (pat) {
        case 0: case 2: h ^= h << cc; break;
        case 1: case 3: h ^= h >> cc; break;
        case 4: case 6: h ^= h >> b; h ^= h << cc; break;
        default: h ^= h << b; h ^= h >> cc; break;
        }
        return g ^ h;
    };
}
static void xorshifts(Case& c) {
    Rng rng(99);
    Step s1 = [](uint32_t x, uint32_t w) { uint32_t t = x ^ (x << 5); return (w ^ (w >> 1)) ^ (t ^ (t >> 14)); };
    Step s5 = [](uint32_t x, uint32_t w) { uint32_t t = x ^ (x << 11); t ^= t >> 7; return (w ^ (w << 20)) ^ t; };
    if (c.index == 0) {
        Out o = run(bin("x1"), Args(), 60);
        orc::Poly f = xsChar(s1, rng);
        if (finished(c, o)) c.check(o.out == "degree = " + S(f.deg()) + "\n" + (primitive128(f) ? "period is 2^128 -1.\n" : "period is unknown.\n"), "xorshift", o.cmd + " printed " + o.out);
        c.eval("x1", true);
    } else if (c.index <= 2) {
        Out o = run(bin(c.index == 1 ? "x2" : "x5"), Args(), 60);
        std::vector<int> e = xsK(c.index == 1 ? s1 : s5, rng), k, d;
        if (!finished(c, o)) return;
        std::vector<std::string> l = lines(o.out);
        size_t at = 0;
        if (c.check(kTable(l, at, 32, k, d), "print-unreadable", o.out)) tableIs(c, o.cmd, k, d, e, 128);
        c.check(!l.empty() && l.back() == "delta:" + S(deltaOf(e, 128)), "delta", o.cmd + " printed " + (l.empty() ? "" : l.back()) + " exact " + S(deltaOf(e, 128)));
        c.eval(o.cmd, true);
    } else if (c.index <= 4) {      // the enumerations
        bool p4 = c.index == 4;
        Out o = run(bin(p4 ? "x4" : "x3"), Args(), 120);
        if (!finished(c, o)) return;
        std::vector<std::string> l = lines(o.out), want(1, p4 ? "delta:pat, a, b, c" : "delta:a, b, c");
        for (long r = p4 ? 0x3ffff : 0x7fff; r >= 0; r--) {
            unsigned f[4];
            for (int i = 0; i < 4; i++) f[i] = static_cast<unsigned>(r >> (5 * i)) & 31;
            Step s = p4 ? xsPat(f[3] & 7, f[2], f[1], f[0]) : Step([=](uint32_t x, uint32_t w) { uint32_t t = x ^ (x << f[0]); return (w ^ (w >> f[2])) ^ (t ^ (t >> f[1])); });
            // full period only from an invertible map without zero shifts of a whole word: left to the polynomial
            Rows q = xsRows(s, rng, 272);
            orc::Poly m = orc::minPolySeq(bitSeq(q, 0, 272));
            if (m.deg() != 128) { c.count("xorshift_candidates_not_full"); if (m.deg() > 100) m = xsChar(s, rng); else continue; }
            if (m.deg() != 128 || !primitive128(m)) continue;
            std::vector<int> e = xsK(s, rng);
            want.push_back(S(deltaOf(e, 128)) + ":" + (p4 ? S(f[3] & 7) + "," + S(f[2]) + "," + S(f[1]) + "," + S(f[0]) : S(f[0]) + "," + S(f[1]) + "," + S(f[2])));
            c.eval(o.cmd + want.back(), true);
        }
        for (size_t i = 0; i < std::max(l.size(), want.size()); i++)
            if (!c.check(i < l.size() && i < want.size() && l[i] == want[i], "enumeration", o.cmd + " line " + S(i) + ": printed " + (i < l.size() ? l[i] : "nothing") + ", exact " + (i < want.size() ? want[i] : "nothing"))) break;
        c.count("xorshift_full_period_triples", static_cast<long>(want.size()) - 1);
    } else {
        Out o = run(bin("x128"), Args(), 60);
        if (!finished(c, o)) return;
        std::istringstream in(o.out);
        uint32_t s[4] = {1, 0, 0, 0}, v;
        std::vector<uint32_t> got;
        while (in >> std::hex >> v) got.push_back(v);
        if (!c.check(got.size() == 40, "xorshift", "x128 printed " + S(got.size()) + " numbers")) return;
        for (uint32_t i = 1; i < 8; i++) s[i % 4] = UINT32_C(1812433253) * (s[(i - 1) % 4] ^ (s[(i - 1) % 4] >> 30)) + i;
        for (size_t i = 0; i < got.size(); i++) {
            uint32_t y = s5(s[0], s[3]);
            s[0] = s[1], s[1] = s[2], s[2] = s[3], s[3] = y;
            c.check(got[i] == y, "xorshift", "x128 output " + S(i) + " is " + hex(got[i]) + ", exact " + hex(y));
        }
        c.eval("x128", true);
    }
}
static const char * MT_HEADER = "mexp, id, pos, mata, maskb, maskc, delta";
static const char * TINY_HEADER = "characteristic, id, mat1, mat2, tmat, weight, delta";
static const char * RMT_HEADER = "mexp, pos, mata, parity, maskb, maskc, delta";
static const char * SFMT_HEADER = "mexp, pos1, sl1, sl2, sr1, sr2, msk1, msk2, msk3, msk4, parity1, parity2, parity3, parity4, delta32, delta64, delta128";
static const char * DSFMT_HEADER = "mexp, pos1, sl1, msk1, msk2, fix1, fix2, parity1, parity2, delta52";
static const char * MTGP_HEADER = "sha1, mexp, type, id, pos, sh1, sh2, tbl_0, tbl_1, tbl_2, tbl_3, tmp_0, tmp_1, tmp_2, tmp_3, mask";        // the last two columns are not named

static void argIs(Case& c, const std::string& kind, const std::string& line, size_t at, const std::string& want, const std::string& what) {
    std::vector<std::string> f = fields(line);
    c.check(f.size() > at && f[at] == want, what, kind + " printed " + line + " for " + want);
}
// the parameters tinymt32dc finds for a random id counting down from `start` (-1: not given), all (want 0) or the first ones
static void tinyEnum(Case& c, long start, int want) {
    uint32_t id = static_cast<uint32_t>(c.rng.next() >> c.rng.range(32, 60));
    Args a = args((want ? "-c " + S(want) : std::string("-a")) + " -m 100000 " + (start >= 0 ? "-s " + S(start) + " " : "") + S(id));
    if (start < 0) start = 0x7fffffff;
    Out o = run(bin("tiny"), a, 100);
    if (!finished(c, o)) return;
    std::vector<std::string> l = paramLines("tiny", o.out), ex;
    for (long num = start; num >= 0 && (!want || static_cast<int>(ex.size()) < want); num--) {
        uint32_t n = static_cast<uint32_t>(num), work = n ^ (n << 15) ^ (n << 23);
        work <<= 1;
        uint32_t m1 = (work & 0xffff0000u) | (id & 0xffff), m2 = (work & 0xffff) | (id & 0xffff0000u);
        m1 ^= m1 >> 19;
        m2 ^= m2 << 18;
        m2 ^= 1;
        Params p;
        p.kind = "tiny";
        p.mexp = 127;
        p.v = {id, m1, m2, 0};
        Rows r = record(p, c.rng, 280);
        orc::Poly f = orc::minPolySeq(bitSeq(r, 0, 280));
        c.count("tiny_candidates_replayed");
        if (f.deg() != 127 || !irreducibleP(f)) continue;
        char b[64];
        snprintf(b, sizeof b, "%016llx%016llx,%u,%08x,%08x", (unsigned long long)(f.w.size() > 1 ? f.w[1] : 0), (unsigned long long)f.w[0], id, m1, m2);
        ex.push_back(b);
    }
    std::vector<std::string> got;
    for (size_t i = 0; i < l.size(); i++) { verifyLine(c, "tiny", l[i], o.cmd); got.push_back(joined(fields(l[i]), 4)); }
    for (size_t i = 0; i < std::max(got.size(), ex.size()); i++)
        if (!c.check(i < got.size() && i < ex.size() && got[i] == ex[i], "enumeration", o.cmd + " set " + S(i) + ": printed " + (i < got.size() ? got[i] : "nothing") + ", exact " + (i < ex.size() ? ex[i] : "nothing"))) break;
    c.count("tiny_enumerations");
    c.eval(o.cmd, !ex.empty());
}
void runProperty(Harness& h) {
    gBin = h.bin;
    h.group("xorshift", 6, xorshifts);
    h.group("mtgp", h.n(2, 12), [](Case& c) {
        std::string id = c.index == 0 ? "4294967294" : S(c.rng.chance(1, 2) ? c.rng.below(UINT64_C(0xfffffffe)) : c.rng.below(70000));
        std::string mexp = c.index % 4 == 3 ? "4423" : "3217";
        const char *prog = c.index % 2 == 0 && access(bin("mtgpsha").c_str(), X_OK) == 0 ? "mtgpsha" : "mtgp";     // with and without the digest
        Creator k = {prog, "mtgp", args("-s seed" + S(c.rng.below(1000)) + " " + mexp + " " + id), MTGP_HEADER, 300};
        bool more = c.h.thorough() && c.index % 3 == 0;
        std::vector<std::string> l = creator(c, k, more ? 2 : 1, c.h.thorough() ? static_cast<int>(c.index % 4) : 9);
        uint64_t i;
        number(id, 10, i);
        for (size_t j = 0; j < l.size(); j++) {
            argIs(c, "mtgp", l[j], 3, S(i + j), "id"), argIs(c, "mtgp", l[j], 1, mexp, "mexp");
            if (k.prog == std::string("mtgpsha")) c.check(l[j].compare(0, 2, "\"\"") != 0, "sha1", "no digest: " + l[j]);
        }
    });
    h.group("rmt", h.n(4, 40), [](Case& c) {
        Creator k = {"rmt", "rmt", args("-s " + seedOf(c) + " " + (c.index % 3 == 2 ? "607" : "521")), RMT_HEADER, 150};
        std::vector<std::string> l = creator(c, k, 1, c.index % 2 || c.h.thorough() ? static_cast<int>(c.index / 2 % 2 ? 3 : 1) : 9);
        for (size_t j = 0; j < l.size(); j++) argIs(c, "rmt", l[j], 0, k.opts.back(), "mexp"), analyses(c, "rmt", l[j]);
    });
    h.group("mt2", h.n(10, 100), [](Case& c) {
        static const unsigned ids[] = {0, 0xffff, 0x8000, 1};
        std::string id = S(c.index < 4 ? ids[c.index] : c.rng.below(65536)), mexp = c.rng.chance(2, 3) ? "521" : "607";
        std::string extra = c.index % 3 == 1 ? "-m " + S(c.rng.range(115, 140)) + " " : "";
        Creator k = {"mt2", "mt2", args(extra + "-s " + S(c.rng.chance(1, 2) ? c.rng.below(1000000) : c.rng.next() >> 32) + " " + mexp + " " + id), MT_HEADER, 120};
        int form = static_cast<int>(c.index % 3);
        std::vector<std::string> l = creator(c, k, form == 2 ? 2 : 1, form);
        for (size_t j = 0; j < l.size(); j++) {
            argIs(c, "mt2", l[j], 0, mexp, "mexp");
            argIs(c, "mt2", l[j], 1, id, "id");
            std::vector<long> v;
            if (!extra.empty()) c.check(lastClaims(l[j], 1, v) && v[0] <= atol(k.opts[1].c_str()), "max-delta", l[j] + " with " + extra);
        }
    });
    h.group("mt2-filter", h.n(4, 40), [](Case& c) {
        Creator k = {"mt2", "mt2", args("-s " + S(c.rng.below(1000000)) + " 521 " + S(c.rng.below(65536))), MT_HEADER, 120};
        filtered(c, k, 5);
    });
    h.group("tiny-filter", h.n(20, 200), [](Case& c) {
        Creator k = {"tiny", "tiny", args("-s " + S(c.rng.range(1000, 0x7ffffffe)) + " " + S(c.rng.next() >> 32)), TINY_HEADER, 60};
        filtered(c, k, c.rng.range(4, 9));
    });
    h.group("sfmt", h.n(8, 60), [](Case& c) {
        bool fx = c.index % 4 == 3;
        std::string mexp = c.h.thorough() && c.index % 7 == 6 ? "1279" : "607";
        Creator k = {fx ? "sfmtfix" : "sfmtdc", "sfmt", args("-s " + seedOf(c) + " " + mexp), SFMT_HEADER, 150};
        std::vector<std::string> l = creator(c, k, c.index % 4 == 2 ? 2 : 1, static_cast<int>(c.index % 4));
        for (size_t j = 0; j < l.size(); j++) {
            argIs(c, "sfmt", l[j], 0, mexp, "mexp");
            if (fx) argIs(c, "sfmtdcfixed", l[j], 2, "19", "fixed"), argIs(c, "sfmtdcfixed", l[j], 3, "1", "fixed"), argIs(c, "sfmtdcfixed", l[j], 4, "7", "fixed"), argIs(c, "sfmtdcfixed", l[j], 5, "1", "fixed");
            analyses(c, "sfmt", l[j]);
        }
    });
    h.group("dsfmt", h.n(16, 160), [](Case& c) {
        std::string x = c.index % 3 == 1 ? "19" : c.index % 3 == 2 ? S(c.rng.range(4, 40)) : "";
        std::string mexp = c.index % 8 == 7 ? "1279" : "521";
        Creator k = {"dsfmtdc", "dsfmt", args((x.empty() ? "" : "-x" + (x == "19" && c.index % 2 ? "" : x) + " ") + "-s " + seedOf(c) + " " + mexp), DSFMT_HEADER, 150};
        std::vector<std::string> l = creator(c, k, c.index % 4 == 2 ? 2 : 1, static_cast<int>(c.index % 4));
        for (size_t j = 0; j < l.size(); j++) {
            argIs(c, "dsfmt", l[j], 0, mexp, "mexp");
            if (!x.empty()) argIs(c, "dsfmt", l[j], 2, x, "fixed");
            analyses(c, "dsfmt", l[j]);
        }
    });
    // exponents beyond the smallest ones, one set each
    h.group("larger", h.n(5, 60), [](Case& c) {
        static const struct { const char * prog; const char * kind; const char * mexp; const char * header; } L[] = {
            {"mt2", "mt2", "1279", MT_HEADER}, {"rmt", "rmt", "1279", RMT_HEADER}, {"sfmtdc", "sfmt", "1279", SFMT_HEADER}, {"dsfmtdc", "dsfmt", "2203", DSFMT_HEADER},
            {"mt2", "mt2", "2203", MT_HEADER}, {"mtgp", "mtgp", "4423", MTGP_HEADER}, {"sfmtdc", "sfmt", "2281", SFMT_HEADER}, {"rmt", "rmt", "2203", RMT_HEADER},
            {"sfmtfix", "sfmt", "1279", SFMT_HEADER}, {"mt2", "mt2", "2281", MT_HEADER}, {"rmt", "rmt", "2281", RMT_HEADER}, {"mt2", "mt2", "3217", MT_HEADER},
        };
        size_t at = static_cast<size_t>(c.index) % (c.h.thorough() ? sizeof L / sizeof *L : 5);
        std::string id = S(c.rng.below(65536));
        Args a = args("-s " + seedOf(c) + " " + L[at].mexp);
        bool ids = std::string(L[at].kind) == "mt2" || std::string(L[at].kind) == "mtgp";
        if (ids) a.push_back(id);
        Creator k = {L[at].prog, L[at].kind, a, L[at].header, c.h.thorough() ? 600 : 200};
        std::vector<std::string> l = creator(c, k, 1, 9);
        for (size_t j = 0; j < l.size(); j++) {
            argIs(c, L[at].prog, l[j], std::string(L[at].kind) == "mtgp" ? 1 : 0, L[at].mexp, "mexp");
            if (ids) argIs(c, L[at].prog, l[j], std::string(L[at].kind) == "mtgp" ? 3 : 1, id, "id");
        }
    });
    h.group("tiny", h.n(60, 600), [](Case& c) {
        static const uint64_t ids[] = {0, 0xffffffffu, 0x80000000u, 0xffff, 0x10000, 1};
        uint64_t id = c.index < 6 ? ids[c.index] : c.rng.next() >> c.rng.range(32, 63);
        std::string extra;
        if (c.rng.chance(1, 3)) extra = "-m " + S(c.rng.range(0, 4)) + " ";
        if (c.rng.chance(1, 3)) extra += "-s " + S(c.rng.range(100000, 0x7ffffffe)) + " ";
        Creator k = {"tiny", "tiny", args(extra + S(id)), TINY_HEADER, 60};
        std::vector<std::string> l = creator(c, k, c.rng.range(2, 3), static_cast<int>(c.index % 4));
        for (size_t j = 0; j < l.size(); j++) {
            argIs(c, "tiny", l[j], 1, S(id), "id");
            std::vector<long> v;
            if (extra.compare(0, 2, "-m") == 0) c.check(lastClaims(l[j], 1, v) && v[0] <= atol(extra.c_str() + 3), "max-delta", l[j] + " with " + extra);
        }
    });
    // all parameters of an id from a small start position, or the first ones from any: exactly those of maximal period, none left out
    h.group("tiny-all", h.n(16, 120), [](Case& c) { tinyEnum(c, c.index % 4 ? c.rng.range(0, 1500) : c.rng.range(0, 4000), 0); });
    h.group("tiny-from", h.n(12, 120), [](Case& c) {
        static const long S0[] = {0x7fffffff, 0x7ffffffe, 0x40000000, 0x3fffffff, 0x40000100, 0x10000, 0x10010, 0x1000010, 0xffffff};
        tinyEnum(c, c.index == 0 ? -1 : c.index < 10 ? S0[c.index - 1] : static_cast<long>(c.rng.next() >> c.rng.range(33, 44)), c.rng.range(1, 3));
    });
    // the table of MT19937 (Matsumoto, Nishimura 1998)
    h.group("mt1", 1, [](Case& c) {
        static const int K[32] = {19937, 9968, 6240, 4984, 3738, 3115, 2493, 2492, 1869, 1869, 1248, 1246, 1246, 1246, 1246, 1246,
                                  623, 623, 623, 623, 623, 623, 623, 623, 623, 623, 623, 623, 623, 623, 623, 623};
        Out o = run(bin("mt1"), Args(), 120);
        if (!finished(c, o)) return;
        std::vector<std::string> l = lines(o.out);
        std::vector<int> k, d, e(K, K + 32);
        size_t at = 0;
        if (c.check(kTable(l, at, 32, k, d), "print-unreadable", o.out)) tableIs(c, o.cmd, k, d, e, 19937);
        c.check(!l.empty() && l.back() == "delta:" + S(deltaOf(e, 19937)), "delta", o.cmd + " printed " + (l.empty() ? "" : l.back()));
        o = run(bin("mtgplin"), Args(), 60);
        finished(c, o);
        c.eval("mt1", true);
    });
    removeScratch();
}
