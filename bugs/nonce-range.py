PROPERTY = 'C12'
NEEDS = 'the random source returns a number above the group order'
BREAKS = 'the number is taken as the nonce although it is out of range: what is used is its small residue'
EDITS = [
    ('src/ergo/schnorr.c',
     r'''            if (cx_math_is_zero(key, PRIVATE_KEY_LEN)) break;
            if (cx_math_cmp_no_throw(key, PIC(SECP256K1_N), PRIVATE_KEY_LEN, &cmp_diff) != 0 ||
                cmp_diff > 0)
                break;''',
     r'''            if (cx_math_is_zero(key, PRIVATE_KEY_LEN)) break;
            if (cx_math_cmp_no_throw(key, PIC(SECP256K1_N), PRIVATE_KEY_LEN, &cmp_diff) != 0) break;''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    auto f = attest_all(t);
    RngOverride r;
    r.draw = 0;
    r.kind = R_ABOVE_N;
    uint8_t s = sign_session(addr_path(), {}, {r});
    NEED(up_all(s, t, f));
    NEED(confirm(s).prompt());
    Answer a = approve();
    NEED(a.ok());
    NEED(verifies(a.data, tx_bytes(t), addr_path()));
    uint8_t cb[32] = {0};
    memcpy(cb + 8, a.data.data(), 24);
    U256 c = u256_from_be(cb), z = u256_from_be(a.data.data() + 24);
    U256 x = u256_from_be(wallet_key(7, addr_path()).x.data());
    uint8_t k[32];
    u256_to_be(sc_sub(z, sc_mul(c, x)), k);
    int zero = 0;
    for (int i = 0; i < 16; i++) zero += k[i] == 0;
    EXPECT(zero < 8, "the nonce is a small number");
}
'''
