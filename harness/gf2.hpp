// Oracle: F2 arithmetic written independently of the code under test (and of NTL).
#ifndef VERIF_GF2_HPP
#define VERIF_GF2_HPP
#include <stdint.h>
#include <vector>
#include <string>
#include <functional>

namespace orc {

typedef std::vector<uint64_t> Words;

// polynomial over F2, coefficient i = bit i
class Poly {
public:
    Words w;
    Poly() {}
    explicit Poly(uint64_t v) { if (v) w.push_back(v); }
    static Poly mono(int d) { Poly p; p.flip(d); return p; }
    int deg() const;
    bool bit(int i) const {
        size_t k = static_cast<size_t>(i) / 64;
        return k < w.size() && ((w[k] >> (i % 64)) & 1);
    }
    void flip(int i) {
        size_t k = static_cast<size_t>(i) / 64;
        if (k >= w.size()) w.resize(k + 1, 0);
        w[k] ^= UINT64_C(1) << (i % 64);
        trim();
    }
    void trim() { while (!w.empty() && w.back() == 0) w.pop_back(); }
    bool isZero() const { return w.empty(); }
    bool isOne() const { return w.size() == 1 && w[0] == 1; }
    int weight() const;
    std::string str() const;     // hex, high word first, plus degree
    void addShift(const Poly& b, int s);   // this ^= b << s
    bool operator==(const Poly& o) const { return w == o.w; }
    bool operator!=(const Poly& o) const { return w != o.w; }
    bool operator<(const Poly& o) const { return w < o.w; }
};
Poly operator+(const Poly& a, const Poly& b);
Poly operator*(const Poly& a, const Poly& b);
void divrem(const Poly& a, const Poly& b, Poly& q, Poly& r);
Poly operator/(const Poly& a, const Poly& b);
Poly operator%(const Poly& a, const Poly& b);
Poly gcd(Poly a, Poly b);
Poly lcm(const Poly& a, const Poly& b);
Poly sqrmod(const Poly& a, const Poly& m);
Poly mulmod(const Poly& a, const Poly& b, const Poly& m);
// x^e mod m, e given as big-endian bit string ('0'/'1')
Poly powx(const std::string& ebits, const Poly& m);
bool irreducible(const Poly& p);          // Ben-Or; constants: false; x, x+1: true
// smallest e with x^e = 1 mod p by stepping; 0 if x not invertible or > limit
uint64_t orderOfX(const Poly& p, uint64_t limit);
// minimal polynomial h of a sequence: sum_j h_j a_{i+j} = 0 for all i; needs a.size() >= 2*deg
Poly minPolySeq(const std::vector<uint8_t>& a);
bool annihilates(const Poly& h, const std::vector<uint8_t>& a);

// incremental elimination
class Elim {
public:
    explicit Elim(int n) : n(n), piv(static_cast<size_t>(n)) {}
    // true if v was independent of what was there
    bool insert(Words v);
    // reduce v; true if zero remains
    bool contains(Words v) const;
    int rank() const { return r; }
    int n;
private:
    int r = 0;
    std::vector<Words> piv;
};

// Output recording: `W` is a word of up to 128 bits, bit 0 of the index = most significant bit
// getbit(t, b): bit b (0 = top) of the output at time t
typedef std::function<bool(int, int)> BitAt;
// exact k(v) for v = 1..vmax of a sequence whose recurrence on the component has the irreducible
// minimal polynomial of degree n; needs getbit valid for t < 2n+1
std::vector<int> equidist(int n, int vmax, const BitAt& getbit);
// SHA-1 (FIPS 180-4) as hexadecimal digits, and the text of a polynomial it is taken of
std::string sha1hex(const std::string& msg);
std::string coefText(const Poly& p);      // constant term first; zero polynomial: -1
}
#endif
