/* Plain BLAKE2b (RFC 7693), shared by the simulated crypto library and the reference model. */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
static const uint64_t b2_iv[8] = {0x6a09e667f3bcc908ULL, 0xbb67ae8584caa73bULL, 0x3c6ef372fe94f82bULL,
                                  0xa54ff53a5f1d36f1ULL, 0x510e527fade682d1ULL, 0x9b05688c2b3e6c1fULL,
                                  0x1f83d9abfb41bd6bULL, 0x5be0cd19137e2179ULL};
static const uint8_t b2_sigma[12][16] = {
    {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
    {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
    {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
    {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
    {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
    {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
    {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
    {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
    {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
    {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
    {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
    {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3}};
#define B2_ROT(x, n) (((x) >> (n)) | ((x) << (64 - (n))))
#define B2_G(a, b, c, d, x, y)          \
    do {                                \
        v[a] = v[a] + v[b] + (x);       \
        v[d] = B2_ROT(v[d] ^ v[a], 32); \
        v[c] = v[c] + v[d];             \
        v[b] = B2_ROT(v[b] ^ v[c], 24); \
        v[a] = v[a] + v[b] + (y);       \
        v[d] = B2_ROT(v[d] ^ v[a], 16); \
        v[c] = v[c] + v[d];             \
        v[b] = B2_ROT(v[b] ^ v[c], 63); \
    } while (0)
static inline void b2_compress(uint64_t h[8], const uint8_t *block, uint64_t t0, uint64_t t1, int last) {
    uint64_t v[16], m[16];
    memcpy(m, block, 128);
    for (int i = 0; i < 8; i++) {
        v[i] = h[i];
        v[i + 8] = b2_iv[i];
    }
    v[12] ^= t0;
    v[13] ^= t1;
    if (last) v[14] = ~v[14];
    for (int r = 0; r < 12; r++) {
        const uint8_t *s = b2_sigma[r];
        B2_G(0, 4, 8, 12, m[s[0]], m[s[1]]);
        B2_G(1, 5, 9, 13, m[s[2]], m[s[3]]);
        B2_G(2, 6, 10, 14, m[s[4]], m[s[5]]);
        B2_G(3, 7, 11, 15, m[s[6]], m[s[7]]);
        B2_G(0, 5, 10, 15, m[s[8]], m[s[9]]);
        B2_G(1, 6, 11, 12, m[s[10]], m[s[11]]);
        B2_G(2, 7, 8, 13, m[s[12]], m[s[13]]);
        B2_G(3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
}
static inline void b2_init(uint64_t h[8], size_t outlen) {
    for (int i = 0; i < 8; i++) h[i] = b2_iv[i];
    h[0] ^= 0x01010000ULL ^ (uint64_t) outlen;
}
static inline void b2_update(uint64_t h[8], uint64_t t[2], uint8_t buf[128], size_t *buflen, const uint8_t *in, size_t len) {
    while (len > 0) {
        if (*buflen == 128) {
            t[0] += 128;
            if (t[0] < 128) t[1]++;
            b2_compress(h, buf, t[0], t[1], 0);
            *buflen = 0;
        }
        size_t n = 128 - *buflen;
        if (n > len) n = len;
        memcpy(buf + *buflen, in, n);
        *buflen += n;
        in += n;
        len -= n;
    }
}
static inline void b2_final(uint64_t h[8], uint64_t t[2], uint8_t buf[128], size_t buflen, uint8_t *out, size_t outlen) {
    t[0] += buflen;
    if (t[0] < buflen) t[1]++;
    memset(buf + buflen, 0, 128 - buflen);
    b2_compress(h, buf, t[0], t[1], 1);
    memcpy(out, h, outlen);
}
