PROPERTY = 'C17'
NEEDS = 'a key request with a nonzero second parameter'
BREAKS = 'the command with the out-of-range parameter is carried out: it ends the open session and shows a prompt'
EDITS = [
    ('src/apdu_dispatcher.c',
     r'''            if (cmd->p1 == 0 || cmd->p1 > 2 || cmd->p2 > 0) {''',
     r'''            if (cmd->p1 == 0 || cmd->p1 > 2 || cmd->p2 > 2) {''',
    ),
]
DEMO = r'''
void demo() {
    Box x;
    uint8_t s = attest_open(x);
    Bytes b = path_bytes({44 + H, 429 + H, H});
    for (int p2 = 1; p2 < 256; p2++) {
        Answer a = cmd(0x10, 1, p2, b);
        EXPECT(a.n == 1 && a.sw != 0x9000, "P2 %d was accepted", p2);
        if (g_bad) return;
    }
    EXPECT(attest_upload(s, x).ok(), "the open session was lost");
}
'''
