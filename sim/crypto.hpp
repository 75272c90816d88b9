// Reference cryptography of the simulator: secp256k1, BLAKE2b, SHA-256/HMAC. Independent of the application.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <array>
typedef std::vector<uint8_t> Bytes;
typedef std::array<uint8_t, 32> B32;
typedef std::array<uint8_t, 33> B33;

struct U256 {
    uint64_t v[4];  // little endian limbs
};
U256 u256_from_be(const uint8_t *b);
void u256_to_be(const U256 &x, uint8_t *b);
int u256_cmp(const U256 &a, const U256 &b);
bool u256_is_zero(const U256 &a);
extern const U256 SECP_N;
U256 sc_add(const U256 &a, const U256 &b);  // mod n
U256 sc_sub(const U256 &a, const U256 &b);
U256 sc_mul(const U256 &a, const U256 &b);
U256 sc_reduce(const U256 &a);
// Generic modular arithmetic (any modulus), used when the application passes something other than n.
U256 mod_generic(const uint64_t *x, int limbs, const U256 &m);
U256 mod_mul_generic(const U256 &a, const U256 &b, const U256 &m);
U256 mod_add_generic(const U256 &a, const U256 &b, const U256 &m);

struct Point {
    U256 x, y;
    bool inf;
};
void ec_init();
Point ec_mul_g(const U256 &k);
Point ec_mul(const Point &p, const U256 &k);
Point ec_add(const Point &a, const Point &b);
Point ec_neg(const Point &a);
bool ec_on_curve(const Point &p);
bool ec_decompress(const uint8_t c[33], Point &out);
B33 ec_compress(const Point &p);
bool ec_is_g(const uint8_t *xy64);

struct Blake2b {
    uint64_t h[8], t[2];
    uint8_t buf[128];
    size_t n;
    Blake2b();
    void update(const uint8_t *p, size_t len);
    void update(const Bytes &b) { update(b.data(), b.size()); }
    B32 final();
};
B32 blake2b256(const uint8_t *p, size_t n);
inline B32 blake2b256(const Bytes &b) { return blake2b256(b.data(), b.size()); }
B32 sha256(const uint8_t *p, size_t n);
B32 hmac_sha256(const uint8_t *k, size_t kl, const uint8_t *p, size_t n);
std::string base58(const Bytes &b);
std::string hex(const uint8_t *p, size_t n);
inline std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }
Bytes unhex(const std::string &s);

inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) { return mix64(mix64(a) ^ (b * 0xd6e8feb86659fd93ULL + 0x1234567)); }
inline uint64_t mix(uint64_t a, uint64_t b, uint64_t c) { return mix(mix(a, b), c); }
struct Rng {
    uint64_t s, c = 0;
    explicit Rng(uint64_t seed = 0) : s(mix64(seed)) {}
    uint64_t next() { return mix64(s + 0x632be59bd9b4e019ULL * ++c); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int) below((uint64_t) (b - a + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    void fill(uint8_t *p, size_t n) {
        for (size_t i = 0; i < n; i++) p[i] = (uint8_t) next();
    }
    Bytes bytes(size_t n) {
        Bytes b(n);
        fill(b.data(), n);
        return b;
    }
};
