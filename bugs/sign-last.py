PROPERTY = 'C07'
NEEDS = 'an attestation session follows a signing session and the random source repeats its number'
BREAKS = 'the number granted to a signing session is not remembered, so the next session can carry the same number'
EDITS = [
    ('src/commands/signtx/stx_response.c',
     r'''    app_set_last_session_id(session_id);
''',
     r'''''',
    ),
]
DEMO = r'''
void demo() {
    Box x;
    attest_open(x, true, 5);
    uint8_t old = sign_session(addr_path());
    NEED(old != 0);
    Event e;
    e.kind = EV_APDU;
    e.id = ++g_id;
    e.apdu = Bytes{0xE0, 0x20, 1, 1, 55};
    put(e.apdu, attest_head(x));
    RngOverride r;
    r.kind = R_LAST_SESSION;
    e.rng.push_back(r);
    g_dev.run(e, old);
    Answer a = approve();
    NEED(a.ok());
    EXPECT(a.data[0] != old, "two sessions in a row have the number %u", old);
}
'''
