PROPERTY = 'C12'
NEEDS = 'the random source returns unusable values until the device gives up drawing a nonce'
BREAKS = 'giving up is reported as success: the session starts without a valid nonce and releases a signature made with nonce zero'
EDITS = [
    ('src/ergo/schnorr.c',
     r'''    uint8_t buf[PUBLIC_KEY_LEN];
    for (uint8_t i = 0; i < MAX_ITERATIONS; i++) {
        bool result = false;
''',
     r'''    uint8_t buf[PUBLIC_KEY_LEN];
    bool result = false;
    for (uint8_t i = 0; i < MAX_ITERATIONS && !result; i++) {
''',
    ),
    ('src/ergo/schnorr.c',
     r'''        explicit_bzero(buf, sizeof(buf));

        if (result) return result;
    }
    return false;
}''',
     r'''        explicit_bzero(buf, sizeof(buf));
    }
    return !cx_math_is_zero(secret, PRIVATE_KEY_LEN);
}''',
    ),
]
DEMO = r'''
void demo() {
    for (int kind : {R_ZERO, R_N, R_FF}) {
        Bytes b{0x00};
        put(b, path_bytes(addr_path()));
        Event e;
        e.kind = EV_APDU;
        e.apdu = Bytes{0xE0, 0x21, 1, 1, (uint8_t) b.size()};
        put(e.apdu, b);
        for (uint32_t i = 0; i < 100; i++) {
            RngOverride r;
            r.draw = i;
            r.kind = (uint8_t) kind;
            e.rng.push_back(r);
        }
        Answer a = event(e);
        EXPECT(a.n == 1 && a.sw != 0x9000, "the session was opened although no nonce could be drawn");
        if (a.prompt()) NEED(reject().n == 1);
    }
}
'''
