/* lib_standard_app */
#pragma once
#include "os.h"
#define CX_SHA512 5
cx_err_t bip32_derive_with_seed_init_privkey_256(unsigned int derivation_mode, cx_curve_t curve, const uint32_t *path, size_t path_len, cx_ecfp_256_private_key_t *privkey, uint8_t *chain_code, unsigned char *seed, size_t seed_len);
cx_err_t bip32_derive_with_seed_get_pubkey_256(unsigned int derivation_mode, cx_curve_t curve, const uint32_t *path, size_t path_len, uint8_t raw_pubkey[65], uint8_t *chain_code, cx_md_t hashID, unsigned char *seed, size_t seed_len);
#define bip32_derive_init_privkey_256(c, p, l, k, cc) bip32_derive_with_seed_init_privkey_256(HDW_NORMAL, c, p, l, k, cc, NULL, 0)
#define bip32_derive_get_pubkey_256(c, p, l, k, cc, h) bip32_derive_with_seed_get_pubkey_256(HDW_NORMAL, c, p, l, k, cc, h, NULL, 0)
