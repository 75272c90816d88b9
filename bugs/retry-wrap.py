PROPERTY = 'C14'
NEEDS = 'the random source or a curve operation fails for as long as the device tries'
BREAKS = 'the limit of the attempts does not fit the counter, so the device never answers again'
EDITS = [
    ('src/ergo/schnorr.c',
     r'''#define MAX_ITERATIONS       100''',
     r'''#define MAX_ITERATIONS       300''',
    ),
]
DEMO = r'''
void demo() {
    Bytes b{0x00};
    put(b, path_bytes(addr_path()));
    Event e;
    e.kind = EV_APDU;
    e.apdu = Bytes{0xE0, 0x21, 1, 1, (uint8_t) b.size()};
    put(e.apdu, b);
    RngOverride r;
    r.draw = 0;
    r.kind = R_STICKY + R_ZERO;
    e.rng.push_back(r);
    Answer a = event(e);
    EXPECT(a.n == 1 && a.sw != 0x9000, "no answer although the random source is broken");
}
'''
