PROPERTY = 'C07'
NEEDS = 'the random source repeats the number of the previous session twice in a row'
BREAKS = 'the new session gets the number of the previous one, so commands meant for the old session are accepted'
EDITS = [
    ('src/helpers/session_id.h',
     r'''    uint8_t id = 0;
    do {
        id = cx_rng_u8();
    } while (id == 0 || id == old_session_id);
    return id;''',
     r'''    uint8_t id = cx_rng_u8();
    if (id == 0 || id == old_session_id) {
        id = cx_rng_u8();
    }
    return id;''',
    ),
]
DEMO = r'''
void demo() {
    Box x;
    uint8_t old = attest_open(x, true, 5);
    for (int reps = 1; reps < 4; reps++) {
        Event e;
        e.kind = EV_APDU;
        e.id = ++g_id;
        e.apdu = Bytes{0xE0, 0x20, 1, 2, 59};
        put(e.apdu, attest_head(x, true, 5));
        for (int i = 0; i < reps; i++) {
            RngOverride r;
            r.draw = i;
            r.kind = R_LAST_SESSION;
            e.rng.push_back(r);
        }
        g_dev.run(e, old);
        NEED(g_dev.responses.size() == 1 && g_dev.responses[0].sw == 0x9000);
        uint8_t id = g_dev.responses[0].data[0];
        EXPECT(id != old, "two sessions in a row have the number %u", id);
        old = id;
    }
}
'''
