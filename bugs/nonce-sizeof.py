PROPERTY = 'C12'
NEEDS = 'any signing session: the nonce looks random but only its first bytes are'
BREAKS = 'the size of a pointer is drawn instead of 32 bytes, so nonces come from a tiny part of the valid range'
EDITS = [
    ('src/ergo/schnorr.c',
     r'''            cx_rng_no_throw(key, PRIVATE_KEY_LEN);''',
     r'''            cx_rng_no_throw(key, sizeof(key));''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    int bits[32] = {0};
    for (int n = 0; n < 4; n++) {
        auto f = attest_all(t);
        Bytes sig = sign_all(t, addr_path(), f);
        NEED(verifies(sig, tx_bytes(t), addr_path()));
        uint8_t cb[32] = {0};
        memcpy(cb + 8, sig.data(), 24);
        U256 c = u256_from_be(cb), z = u256_from_be(sig.data() + 24);
        U256 x = u256_from_be(wallet_key(7, addr_path()).x.data());
        uint8_t k[32];
        u256_to_be(sc_sub(z, sc_mul(c, x)), k);
        for (int i = 0; i < 32; i++) bits[i] |= k[i];
    }
    int dead = 0;
    for (int i = 0; i < 32; i++) dead += bits[i] == 0;
    EXPECT(dead < 4, "%d of 32 bytes of every nonce are zero", dead);
}
'''
