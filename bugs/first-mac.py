PROPERTY = 'C06'
NEEDS = 'a box with more than four tokens whose second frame was altered'
BREAKS = 'only the first frame of a box is authenticated, so token ids and amounts of the later ones can be forged'
EDITS = [
    ('src/commands/signtx/stx_handler.c',
     r'''    // Compare signature with frame signature
    if (memcmp(''',
     r'''    // Compare signature with frame signature (later frames have to carry the id of the first one)
    if (buffer_read_ptr(cdata)[ERGO_ID_LEN + 1] == 0 &&
        memcmp(''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    for (int i = 0; i < 6; i++) t.inputs[0].tokens.push_back({id32(100 + i), 5});
    auto f = attest_all(t);
    NEED(f[0].size() == 2);
    uint8_t s = sign_session(addr_path());
    NEED(up_head(s, t) && up_inputs(s, t, f));
    f[0][1][43 + 32 + 7] ^= 1;
    s = sign_session(addr_path());
    NEED(up_head(s, t));
    EXPECT(!up_inputs(s, t, f), "an altered frame was accepted");
}
'''
