#include "crypto.hpp"
#include "../sdk/src/blake2b_core.h"
typedef unsigned __int128 u128;

U256 u256_from_be(const uint8_t *b) {
    U256 r;
    for (int i = 0; i < 4; i++) {
        uint64_t x = 0;
        for (int j = 0; j < 8; j++) x = (x << 8) | b[(3 - i) * 8 + j];
        r.v[i] = x;
    }
    return r;
}
void u256_to_be(const U256 &x, uint8_t *b) {
    for (int i = 0; i < 4; i++)
        for (int j = 0; j < 8; j++) b[(3 - i) * 8 + j] = (uint8_t) (x.v[i] >> (56 - 8 * j));
}
int u256_cmp(const U256 &a, const U256 &b) {
    for (int i = 3; i >= 0; i--)
        if (a.v[i] != b.v[i]) return a.v[i] < b.v[i] ? -1 : 1;
    return 0;
}
bool u256_is_zero(const U256 &a) { return (a.v[0] | a.v[1] | a.v[2] | a.v[3]) == 0; }
static uint64_t add4(uint64_t *r, const uint64_t *a, const uint64_t *b) {
    u128 c = 0;
    for (int i = 0; i < 4; i++) {
        c += (u128) a[i] + b[i];
        r[i] = (uint64_t) c;
        c >>= 64;
    }
    return (uint64_t) c;
}
static uint64_t sub4(uint64_t *r, const uint64_t *a, const uint64_t *b) {
    uint64_t br = 0;
    for (int i = 0; i < 4; i++) {
        u128 d = (u128) a[i] - b[i] - br;
        r[i] = (uint64_t) d;
        br = (uint64_t) (d >> 64) & 1;
    }
    return br;
}
static void mul8(uint64_t *r, const uint64_t *a, const uint64_t *b) {
    memset(r, 0, 64);
    for (int i = 0; i < 4; i++) {
        uint64_t c = 0;
        for (int j = 0; j < 4; j++) {
            u128 t = (u128) a[i] * b[j] + r[i + j] + c;
            r[i + j] = (uint64_t) t;
            c = (uint64_t) (t >> 64);
        }
        r[i + 4] = c;
    }
}
const U256 SECP_N = {{0xBFD25E8CD0364141ULL, 0xBAAEDCE6AF48A03BULL, 0xFFFFFFFFFFFFFFFEULL, 0xFFFFFFFFFFFFFFFFULL}};
static const U256 SECP_P = {{0xFFFFFFFEFFFFFC2FULL, 0xFFFFFFFFFFFFFFFFULL, 0xFFFFFFFFFFFFFFFFULL, 0xFFFFFFFFFFFFFFFFULL}};

U256 mod_generic(const uint64_t *x, int limbs, const U256 &m) {
    U256 r = {{0, 0, 0, 0}};
    if (u256_is_zero(m)) return r;
    for (int i = limbs * 64 - 1; i >= 0; i--) {
        uint64_t carry = r.v[3] >> 63;
        for (int k = 3; k > 0; k--) r.v[k] = (r.v[k] << 1) | (r.v[k - 1] >> 63);
        r.v[0] = (r.v[0] << 1) | ((x[i / 64] >> (i % 64)) & 1);
        if (carry || u256_cmp(r, m) >= 0) sub4(r.v, r.v, m.v);
    }
    return r;
}
U256 mod_mul_generic(const U256 &a, const U256 &b, const U256 &m) {
    uint64_t t[8];
    mul8(t, a.v, b.v);
    return mod_generic(t, 8, m);
}
U256 mod_add_generic(const U256 &a, const U256 &b, const U256 &m) {
    uint64_t t[5];
    t[4] = add4(t, a.v, b.v);
    return mod_generic(t, 5, m);
}
U256 sc_reduce(const U256 &a) {
    U256 r = a;
    if (u256_cmp(r, SECP_N) >= 0) sub4(r.v, r.v, SECP_N.v);
    return r;
}
U256 sc_add(const U256 &a, const U256 &b) {
    U256 x = sc_reduce(a), y = sc_reduce(b), r;
    uint64_t c = add4(r.v, x.v, y.v);
    if (c || u256_cmp(r, SECP_N) >= 0) sub4(r.v, r.v, SECP_N.v);
    return r;
}
U256 sc_sub(const U256 &a, const U256 &b) {
    U256 x = sc_reduce(a), y = sc_reduce(b), r;
    if (sub4(r.v, x.v, y.v)) add4(r.v, r.v, SECP_N.v);
    return r;
}
U256 sc_mul(const U256 &a, const U256 &b) { return mod_mul_generic(a, b, SECP_N); }

// ---- field mod p
static const uint64_t PC = 0x1000003D1ULL;
static U256 f_red(const uint64_t t[8]) {
    uint64_t lo[5];
    u128 c = 0;
    for (int i = 0; i < 4; i++) {
        c += (u128) t[i + 4] * PC + t[i];
        lo[i] = (uint64_t) c;
        c >>= 64;
    }
    lo[4] = (uint64_t) c;
    U256 r;
    c = (u128) lo[4] * PC + lo[0];
    r.v[0] = (uint64_t) c;
    c >>= 64;
    for (int i = 1; i < 4; i++) {
        c += lo[i];
        r.v[i] = (uint64_t) c;
        c >>= 64;
    }
    if (c) {
        u128 d = (u128) r.v[0] + PC;
        r.v[0] = (uint64_t) d;
        d >>= 64;
        for (int i = 1; i < 4 && d; i++) {
            d += r.v[i];
            r.v[i] = (uint64_t) d;
            d >>= 64;
        }
    }
    if (u256_cmp(r, SECP_P) >= 0) sub4(r.v, r.v, SECP_P.v);
    return r;
}
static U256 f_mul(const U256 &a, const U256 &b) {
    uint64_t t[8];
    mul8(t, a.v, b.v);
    return f_red(t);
}
static U256 f_sqr(const U256 &a) { return f_mul(a, a); }
static U256 f_add(const U256 &a, const U256 &b) {
    U256 r;
    uint64_t c = add4(r.v, a.v, b.v);
    if (c || u256_cmp(r, SECP_P) >= 0) sub4(r.v, r.v, SECP_P.v);
    return r;
}
static U256 f_sub(const U256 &a, const U256 &b) {
    U256 r;
    if (sub4(r.v, a.v, b.v)) add4(r.v, r.v, SECP_P.v);
    return r;
}
static U256 f_pow(const U256 &a, const U256 &e) {
    U256 r = {{1, 0, 0, 0}};
    for (int i = 255; i >= 0; i--) {
        r = f_sqr(r);
        if ((e.v[i / 64] >> (i % 64)) & 1) r = f_mul(r, a);
    }
    return r;
}
static U256 f_sqn(U256 a, int n) {
    while (n--) a = f_sqr(a);
    return a;
}
static U256 f_inv(const U256 &a) {  // a^(p-2) by runs of ones
    U256 x2 = f_mul(f_sqr(a), a), x3 = f_mul(f_sqr(x2), a), x6 = f_mul(f_sqn(x3, 3), x3), x9 = f_mul(f_sqn(x6, 3), x3), x11 = f_mul(f_sqn(x9, 2), x2), x22 = f_mul(f_sqn(x11, 11), x11),
         x44 = f_mul(f_sqn(x22, 22), x22), x88 = f_mul(f_sqn(x44, 44), x44), x176 = f_mul(f_sqn(x88, 88), x88), x220 = f_mul(f_sqn(x176, 44), x44), x223 = f_mul(f_sqn(x220, 3), x3);
    U256 t = f_mul(f_sqn(x223, 23), x22);
    t = f_mul(f_sqn(t, 5), a);
    t = f_mul(f_sqn(t, 3), x2);
    return f_mul(f_sqn(t, 2), a);
}
struct Jac {
    U256 x, y, z;
};
static Jac j_inf() { return Jac{{{1, 0, 0, 0}}, {{1, 0, 0, 0}}, {{0, 0, 0, 0}}}; }
static Jac j_dbl(const Jac &p) {
    if (u256_is_zero(p.z)) return p;
    U256 a = f_sqr(p.x), b = f_sqr(p.y), c = f_sqr(b);
    U256 d = f_sub(f_sub(f_sqr(f_add(p.x, b)), a), c);
    d = f_add(d, d);
    U256 e = f_add(f_add(a, a), a), f = f_sqr(e);
    Jac r;
    r.x = f_sub(f, f_add(d, d));
    U256 c8 = f_add(c, c);
    c8 = f_add(c8, c8);
    c8 = f_add(c8, c8);
    r.y = f_sub(f_mul(e, f_sub(d, r.x)), c8);
    r.z = f_mul(p.y, p.z);
    r.z = f_add(r.z, r.z);
    return r;
}
static Jac j_add_affine(const Jac &p, const U256 &x2, const U256 &y2) {
    if (u256_is_zero(p.z)) return Jac{x2, y2, {{1, 0, 0, 0}}};
    U256 zz = f_sqr(p.z), u2 = f_mul(x2, zz), s2 = f_mul(y2, f_mul(zz, p.z));
    U256 h = f_sub(u2, p.x), r = f_sub(s2, p.y);
    if (u256_is_zero(h)) {
        if (u256_is_zero(r)) return j_dbl(p);
        return j_inf();
    }
    U256 hh = f_sqr(h), hhh = f_mul(hh, h), v = f_mul(p.x, hh);
    Jac o;
    o.x = f_sub(f_sub(f_sqr(r), hhh), f_add(v, v));
    o.y = f_sub(f_mul(r, f_sub(v, o.x)), f_mul(p.y, hhh));
    o.z = f_mul(p.z, h);
    return o;
}
static Point j_affine(const Jac &p) {
    if (u256_is_zero(p.z)) return Point{{{0, 0, 0, 0}}, {{0, 0, 0, 0}}, true};
    U256 zi = f_inv(p.z), z2 = f_sqr(zi);
    return Point{f_mul(p.x, z2), f_mul(p.y, f_mul(z2, zi)), false};
}
static const uint8_t GXY[64] = {
    0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc, 0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87, 0x0b, 0x07,
    0x02, 0x9b, 0xfc, 0xdb, 0x2d, 0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b, 0x16, 0xf8, 0x17, 0x98,
    0x48, 0x3a, 0xda, 0x77, 0x26, 0xa3, 0xc4, 0x65, 0x5d, 0xa4, 0xfb, 0xfc, 0x0e, 0x11, 0x08, 0xa8,
    0xfd, 0x17, 0xb4, 0x48, 0xa6, 0x85, 0x54, 0x19, 0x9c, 0x47, 0xd0, 0x8f, 0xfb, 0x10, 0xd4, 0xb8};
static U256 comb[64][15][2];
static Point G;
void ec_init() {
    G = Point{u256_from_be(GXY), u256_from_be(GXY + 32), false};
    Point base = G;
    for (int w = 0; w < 64; w++) {
        Jac acc = j_inf();
        for (int i = 0; i < 15; i++) {
            acc = j_add_affine(acc, base.x, base.y);
            Point a = j_affine(acc);
            comb[w][i][0] = a.x;
            comb[w][i][1] = a.y;
        }
        acc = j_add_affine(acc, base.x, base.y);
        base = j_affine(acc);
    }
}
bool ec_is_g(const uint8_t *xy) { return memcmp(xy, GXY, 64) == 0; }
Point ec_mul_g(const U256 &k) {
    Jac acc = j_inf();
    for (int w = 0; w < 64; w++) {
        unsigned d = (k.v[w / 16] >> (4 * (w % 16))) & 15;
        if (d) acc = j_add_affine(acc, comb[w][d - 1][0], comb[w][d - 1][1]);
    }
    return j_affine(acc);
}
Point ec_mul(const Point &p, const U256 &k) {
    if (p.inf) return p;
    Jac acc = j_inf();
    for (int i = 255; i >= 0; i--) {
        acc = j_dbl(acc);
        if ((k.v[i / 64] >> (i % 64)) & 1) acc = j_add_affine(acc, p.x, p.y);
    }
    return j_affine(acc);
}
Point ec_add(const Point &a, const Point &b) {
    if (a.inf) return b;
    if (b.inf) return a;
    return j_affine(j_add_affine(Jac{a.x, a.y, {{1, 0, 0, 0}}}, b.x, b.y));
}
Point ec_neg(const Point &a) {
    Point r = a;
    if (!a.inf) r.y = f_sub(U256{{0, 0, 0, 0}}, a.y);
    return r;
}
bool ec_on_curve(const Point &p) {
    if (p.inf) return false;
    if (u256_cmp(p.x, SECP_P) >= 0 || u256_cmp(p.y, SECP_P) >= 0) return false;
    U256 r = f_add(f_mul(f_sqr(p.x), p.x), U256{{7, 0, 0, 0}});
    return u256_cmp(f_sqr(p.y), r) == 0;
}
bool ec_decompress(const uint8_t c[33], Point &out) {
    if (c[0] != 2 && c[0] != 3) return false;
    out.x = u256_from_be(c + 1);
    out.inf = false;
    if (u256_cmp(out.x, SECP_P) >= 0) return false;
    U256 rhs = f_add(f_mul(f_sqr(out.x), out.x), U256{{7, 0, 0, 0}});
    U256 e = {{0xFFFFFFFFBFFFFF0CULL, 0xFFFFFFFFFFFFFFFFULL, 0xFFFFFFFFFFFFFFFFULL, 0x3FFFFFFFFFFFFFFFULL}};
    U256 y = f_pow(rhs, e);
    if (u256_cmp(f_sqr(y), rhs) != 0) return false;
    if ((y.v[0] & 1) != (uint64_t) (c[0] & 1)) y = f_sub(U256{{0, 0, 0, 0}}, y);
    out.y = y;
    return true;
}
B33 ec_compress(const Point &p) {
    B33 r;
    r[0] = (p.y.v[0] & 1) ? 3 : 2;
    u256_to_be(p.x, r.data() + 1);
    return r;
}
Blake2b::Blake2b() : t{0, 0}, n(0) { b2_init(h, 32); }
void Blake2b::update(const uint8_t *p, size_t len) { b2_update(h, t, buf, &n, p, len); }
B32 Blake2b::final() {
    B32 o;
    b2_final(h, t, buf, n, o.data(), 32);
    return o;
}
B32 blake2b256(const uint8_t *p, size_t n) {
    Blake2b b;
    b.update(p, n);
    return b.final();
}
static inline uint32_t ror(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
static uint32_t shaK[64];
static uint32_t shaH[8];
static void sha_consts() {
    if (shaK[0]) return;
    // First 32 bits of the fractional parts of the cube/square roots of the first primes, in integer arithmetic.
    int n = 0;
    for (int p = 2; n < 64; p++) {
        bool prime = true;
        for (int q = 2; q * q <= p; q++)
            if (p % q == 0) prime = false;
        if (!prime) continue;
        // floor(cbrt(p) * 2^32): find largest x with x^3 <= p * 2^96 by binary search on 128-bit pieces
        auto le_cube = [&](uint64_t x) {  // x^3 <= p<<96, x < 2^35
            u128 x2 = (u128) x * x;       // < 2^70
            // compare x2*x with p<<96 using 64-bit split
            u128 lo = (u128) (uint64_t) x2 * x;
            u128 hi = (u128) (uint64_t) (x2 >> 64) * x + (lo >> 64);
            u128 plim_hi = (u128) p << 32;
            if (hi != plim_hi) return hi < plim_hi;
            return (uint64_t) lo == 0;
        };
        uint64_t a = 0, b = (uint64_t) 1 << 36;
        while (b - a > 1) {
            uint64_t m = (a + b) / 2;
            if (le_cube(m)) a = m; else b = m;
        }
        shaK[n] = (uint32_t) a;
        if (n < 8) {
            uint64_t s = 0, e = (uint64_t) 1 << 36;
            while (e - s > 1) {
                uint64_t m = (s + e) / 2;
                if ((u128) m * m <= ((u128) p << 64)) s = m; else e = m;
            }
            shaH[n] = (uint32_t) s;
        }
        n++;
    }
}
B32 sha256(const uint8_t *p, size_t len) {
    sha_consts();
    uint32_t s[8];
    memcpy(s, shaH, 32);
    Bytes m(p, p + len);
    m.push_back(0x80);
    while (m.size() % 64 != 56) m.push_back(0);
    for (int i = 0; i < 8; i++) m.push_back((uint8_t) (((uint64_t) len * 8) >> (56 - 8 * i)));
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[64];
        for (int i = 0; i < 16; i++)
            w[i] = (uint32_t) m[o + 4 * i] << 24 | m[o + 4 * i + 1] << 16 | m[o + 4 * i + 2] << 8 | m[o + 4 * i + 3];
        for (int i = 16; i < 64; i++)
            w[i] = (ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ (w[i - 2] >> 10)) + w[i - 7] +
                   (ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 16];
        uint32_t v[8];
        memcpy(v, s, 32);
        for (int i = 0; i < 64; i++) {
            uint32_t t1 = v[7] + (ror(v[4], 6) ^ ror(v[4], 11) ^ ror(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + shaK[i] + w[i];
            uint32_t t2 = (ror(v[0], 2) ^ ror(v[0], 13) ^ ror(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
            for (int k = 7; k > 0; k--) v[k] = v[k - 1];
            v[4] += t1;
            v[0] = t1 + t2;
        }
        for (int i = 0; i < 8; i++) s[i] += v[i];
    }
    B32 r;
    for (int i = 0; i < 32; i++) r[i] = (uint8_t) (s[i / 4] >> (24 - 8 * (i % 4)));
    return r;
}
B32 hmac_sha256(const uint8_t *k, size_t kl, const uint8_t *p, size_t n) {
    uint8_t key[64] = {0};
    if (kl > 64) {
        B32 h = sha256(k, kl);
        memcpy(key, h.data(), 32);
    } else
        memcpy(key, k, kl);
    Bytes in(64 + n), out(96);
    for (int i = 0; i < 64; i++) {
        in[i] = key[i] ^ 0x36;
        out[i] = key[i] ^ 0x5c;
    }
    memcpy(in.data() + 64, p, n);
    B32 h = sha256(in.data(), in.size());
    memcpy(out.data() + 64, h.data(), 32);
    return sha256(out.data(), 96);
}
std::string base58(const Bytes &b) {
    static const char *A = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    size_t z = 0;
    while (z < b.size() && b[z] == 0) z++;
    std::vector<uint8_t> d;
    for (size_t i = z; i < b.size(); i++) {
        int c = b[i];
        for (auto &x : d) {
            c += x * 256;
            x = c % 58;
            c /= 58;
        }
        while (c) {
            d.push_back(c % 58);
            c /= 58;
        }
    }
    std::string s(z, '1');
    for (size_t i = d.size(); i-- > 0;) s += A[d[i]];
    return s;
}
std::string hex(const uint8_t *p, size_t n) {
    static const char *H = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < n; i++) {
        s += H[p[i] >> 4];
        s += H[p[i] & 15];
    }
    return s;
}
Bytes unhex(const std::string &s) {
    auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    Bytes b;
    for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t) (v(s[i]) * 16 + v(s[i + 1])));
    return b;
}
