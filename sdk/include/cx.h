/* Simulated Ledger crypto library. */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
typedef uint32_t cx_err_t;
#define CX_OK                     0x00000000
#define CX_CARRY                  0xFFFFFF21
#define CX_LOCKED                 0xFFFFFF81
#define CX_UNLOCKED               0xFFFFFF82
#define CX_NOT_LOCKED             0xFFFFFF83
#define CX_NOT_UNLOCKED           0xFFFFFF84
#define CX_INTERNAL_ERROR         0xFFFFFF85
#define CX_INVALID_PARAMETER_SIZE 0xFFFFFF86
#define CX_INVALID_PARAMETER_VALUE 0xFFFFFF87
#define CX_INVALID_PARAMETER      0xFFFFFF88
#define CX_NOT_INVERTIBLE         0xFFFFFF89
#define CX_OVERFLOW               0xFFFFFF8A
#define CX_MEMORY_FULL            0xFFFFFF8B
#define CX_NO_RESIDUE             0xFFFFFF8C
#define CX_EC_INFINITE_POINT      0xFFFFFF41
#define CX_EC_INVALID_POINT       0xFFFFFFA2
#define CX_EC_INVALID_CURVE       0xFFFFFFA3

#define CX_LAST      (1 << 0)
#define CX_NO_REINIT (1 << 15)
#define CX_RND_TRNG (2 << 9)
#define CX_RND_RFC6979 (3 << 9)

typedef enum { CX_NONE = 0, CX_RIPEMD160 = 1, CX_SHA224 = 2, CX_SHA256 = 3, CX_BLAKE2B = 9 } cx_md_t;
typedef enum { CX_CURVE_NONE = 0, CX_CURVE_SECP256K1 = 0x21, CX_CURVE_256K1 = 0x21 } cx_curve_t;

#define CX_SHA256_SIZE      32
#define CX_BLAKE2B_256_SIZE 32
#define CX_BLAKE2B_BLOCK_SIZE 128

typedef struct { cx_md_t md_type; size_t output_size; size_t block_size; } cx_hash_info_t;
struct cx_hash_header_s { const cx_hash_info_t *info; uint32_t counter; };
typedef struct cx_hash_header_s cx_hash_t;
struct cx_blake2b_s {
    struct cx_hash_header_s header;
    size_t output_size;
    uint64_t h[8];
    uint64_t t[2];
    uint8_t buf[128];
    size_t buflen;
};
typedef struct cx_blake2b_s cx_blake2b_t;
struct cx_sha256_s {
    struct cx_hash_header_s header;
    size_t blen;
    uint8_t block[64];
    uint8_t acc[32];
    uint64_t total;
};
typedef struct cx_sha256_s cx_sha256_t;

struct cx_ecfp_256_public_key_s { cx_curve_t curve; size_t W_len; uint8_t W[65]; };
struct cx_ecfp_256_private_key_s { cx_curve_t curve; size_t d_len; uint8_t d[32]; };
typedef struct cx_ecfp_256_public_key_s cx_ecfp_256_public_key_t;
typedef struct cx_ecfp_256_private_key_s cx_ecfp_256_private_key_t;
typedef cx_ecfp_256_public_key_t cx_ecfp_public_key_t;
typedef cx_ecfp_256_private_key_t cx_ecfp_private_key_t;

cx_err_t os_derive_bip32_no_throw(cx_curve_t curve, const uint32_t *path, size_t path_len, uint8_t raw_privkey[64], uint8_t *chain_code);
cx_err_t cx_ecfp_init_private_key_no_throw(cx_curve_t curve, const uint8_t *rawkey, size_t key_len, cx_ecfp_256_private_key_t *pvkey);
cx_err_t cx_ecfp_init_public_key_no_throw(cx_curve_t curve, const uint8_t *rawkey, size_t key_len, cx_ecfp_256_public_key_t *key);
cx_err_t cx_ecfp_generate_pair_no_throw(cx_curve_t curve, cx_ecfp_256_public_key_t *pubkey, cx_ecfp_256_private_key_t *privkey, bool keepprivate);
cx_err_t cx_ecfp_scalar_mult_no_throw(cx_curve_t curve, uint8_t *P, const uint8_t *k, size_t k_len);
cx_err_t cx_ecfp_add_point_no_throw(cx_curve_t curve, uint8_t *R, const uint8_t *P, const uint8_t *Q);

bool cx_math_is_zero(const uint8_t *a, size_t len);
cx_err_t cx_math_cmp_no_throw(const uint8_t *a, const uint8_t *b, size_t length, int *diff);
cx_err_t cx_math_addm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len);
cx_err_t cx_math_subm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len);
cx_err_t cx_math_multm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len);
cx_err_t cx_math_modm_no_throw(uint8_t *v, size_t len_v, const uint8_t *m, size_t len_m);
cx_err_t cx_math_add_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, size_t len);
cx_err_t cx_math_sub_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, size_t len);
static inline int cx_math_cmp(const uint8_t *a, const uint8_t *b, size_t length) {
    int d = 0;
    (void) cx_math_cmp_no_throw(a, b, length, &d);
    return d;
}

void cx_rng_no_throw(uint8_t *buffer, size_t len);
uint8_t *cx_rng(uint8_t *buffer, size_t len);
uint8_t cx_rng_u8(void);
uint32_t cx_rng_u32(void);
#define cx_get_random_bytes(b, l) (cx_rng_no_throw(b, l), CX_OK)
#define cx_trng_get_random_data(b, l) (cx_rng_no_throw(b, l), CX_OK)
cx_err_t cx_rng_rfc6979(cx_md_t hash_id, const uint8_t *x, size_t x_len, const uint8_t *h1, size_t h1_len, const uint8_t *q, size_t q_len, uint8_t *out, size_t out_len);

cx_err_t cx_blake2b_init_no_throw(cx_blake2b_t *hash, size_t out_len_bits);
cx_err_t cx_hash_no_throw(cx_hash_t *hash, uint32_t mode, const uint8_t *in, size_t len, uint8_t *out, size_t out_len);
cx_err_t cx_hash_update(cx_hash_t *hash, const uint8_t *in, size_t len);
cx_err_t cx_hash_final(cx_hash_t *hash, uint8_t *out);
cx_err_t cx_blake2b_256_hash(const uint8_t *data, size_t len, uint8_t out[CX_BLAKE2B_256_SIZE]);
cx_err_t cx_sha256_init_no_throw(cx_sha256_t *hash);
size_t cx_hash_sha256(const uint8_t *in, size_t len, uint8_t *out, size_t out_len);
size_t cx_hmac_sha256(const uint8_t *key, size_t key_len, const uint8_t *in, size_t len, uint8_t *mac, size_t mac_len);

/* Further calls of the library, for completeness. */
typedef struct { cx_sha256_t hash; uint8_t key[64]; } cx_hmac_sha256_t;
typedef cx_hmac_sha256_t cx_hmac_t;
cx_err_t cx_hmac_sha256_init_no_throw(cx_hmac_sha256_t *hmac, const uint8_t *key, size_t key_len);
cx_err_t cx_hmac_no_throw(cx_hmac_t *hmac, uint32_t mode, const uint8_t *in, size_t len, uint8_t *mac, size_t mac_len);
cx_err_t cx_hmac_update(cx_hmac_t *hmac, const uint8_t *in, size_t len);
cx_err_t cx_hmac_final(cx_hmac_t *hmac, uint8_t *out, size_t *out_len);
size_t cx_hash_get_size(const cx_hash_t *ctx);
cx_err_t cx_hash_init(cx_hash_t *hash, cx_md_t hash_id);
cx_err_t cx_hash_init_ex(cx_hash_t *hash, cx_md_t hash_id, size_t output_size);
cx_err_t cx_blake2b_init2_no_throw(cx_blake2b_t *hash, size_t out_len, uint8_t *salt, size_t salt_len, uint8_t *perso, size_t perso_len);
cx_err_t cx_ecfp_generate_pair2_no_throw(cx_curve_t curve, cx_ecfp_256_public_key_t *pubkey, cx_ecfp_256_private_key_t *privkey, bool keepprivate, cx_md_t hashID);
cx_err_t os_derive_bip32_with_seed_no_throw(unsigned int derivation_mode, cx_curve_t curve, const uint32_t *path, size_t path_len, uint8_t raw_privkey[64], uint8_t *chain_code, unsigned char *seed, size_t seed_len);
#define HDW_NORMAL 0
uint32_t cx_rng_u32_range(uint32_t a, uint32_t b);
static inline cx_err_t cx_sha256_hash(const uint8_t *data, size_t len, uint8_t *digest) {
    return cx_hash_sha256(data, len, digest, 32) == 32 ? CX_OK : CX_INTERNAL_ERROR;
}
