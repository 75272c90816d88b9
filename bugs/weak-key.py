PROPERTY = 'C06'
NEEDS = 'any attestation: the frame key looks random but only its first bytes are'
BREAKS = 'the size of a pointer is drawn for the 16-byte frame key, so that half of it is always zero'
EDITS = [
    ('src/context.c',
     r'''    cx_rng(G_app_context.session_key, MEMBER_SIZE(app_ctx_t, session_key));
''',
     r'''    uint8_t *session_key = G_app_context.session_key;
    cx_rng(session_key, sizeof(session_key));
''',
    ),
]
DEMO = r'''
void demo() {
    Box b;
    auto mac = [&](int flip) {
        Event e;
        e.kind = EV_BOOT;
        e.id = 1000;
        if (flip >= 0) e.rng.push_back({(uint32_t) flip, R_FLIP});
        g_dev.run(e, 0);
        NEED(g_dev.state == DEV_WAITING);
        return attest(b)[0];
    };
    Bytes base = mac(-1);
    int live = 0;
    for (int i = 0; i < 256; i++) live += mac(i) != base;
    EXPECT(live >= 16, "frames rest on %d random bytes", live);
}
'''
