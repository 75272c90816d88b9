PROPERTY = 'C14'
NEEDS = 'the frame right behind the last one of a box is requested'
BREAKS = 'token ids and amounts are read behind the end of their tables and sent to the host with a valid code'
EDITS = [
    ('src/commands/attestinput/ainpt_response.c',
     r'''    if (index >= frames_count) {''',
     r'''    if (index > frames_count) {''',
    ),
]
DEMO = r'''
void demo() {
    for (int n = 0; n <= 20; n += 5) {
        Box x;
        for (int i = 0; i < n; i++) x.tokens.push_back({id32(100 + i), 5});
        uint8_t s = attest_open(x);
        Answer a = attest_upload(s, x);
        NEED(a.ok());
        Answer g = cmd(0x20, 5, s, Bytes{a.data[0]});
        EXPECT(g.n == 1 && g.sw != 0x9000 && g.data.empty(), "frame %d of %d was returned", a.data[0], a.data[0]);
    }
}
'''
