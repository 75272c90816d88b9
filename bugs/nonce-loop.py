PROPERTY = 'C11'
NEEDS = 'the random source returns an out-of-range nonce, so that the nonce has to be drawn again'
BREAKS = 'the second attempt continues the hash of the first one and the released signature does not verify'
EDITS = [
    ('src/ergo/schnorr.c',
     r'''    uint8_t buf[PUBLIC_KEY_LEN];
    for (uint8_t i = 0; i < MAX_ITERATIONS; i++) {
        bool result = false;
        do {
            if (!blake2b_256_init(hash)) break;
''',
     r'''    uint8_t buf[PUBLIC_KEY_LEN];
    if (!blake2b_256_init(hash)) return false;
    for (uint8_t i = 0; i < MAX_ITERATIONS; i++) {
        bool result = false;
        do {
''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    for (int kind = 0; kind < R_KINDS; kind++) {
        if (kind == R_LAST_SESSION || kind == R_N || kind == R_N_MINUS_1 || kind == R_ONE) continue;
        auto f = attest_all(t);
        RngOverride d;
        d.draw = 0;
        d.kind = (uint8_t) kind;
        uint8_t s = sign_session(addr_path(), {}, {d});
        NEED(up_all(s, t, f));
        NEED(confirm(s).prompt());
        Answer a = approve();
        if (a.ok()) EXPECT(verifies(a.data, tx_bytes(t), addr_path()), "after a bad random number the signature is wrong");
    }
}
'''
