PROPERTY = 'C16'
NEEDS = 'an output header carries bytes behind its last field'
BREAKS = 'the surplus bytes are ignored instead of the upload being refused'
EDITS = [
    ('src/commands/signtx/stx_handler.c',
     r'''    CHECK_READ_PARAM(ctx, buffer_read_u32(cdata, &registers_size, BE));
    CHECK_PARAMS_FINISHED(ctx, cdata);
''',
     r'''    CHECK_READ_PARAM(ctx, buffer_read_u32(cdata, &registers_size, BE));
''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    auto f = attest_all(t);
    uint8_t s = sign_session(addr_path());
    NEED(up_head(s, t) && up_inputs(s, t, f));
    Bytes b;
    put(b, t.outs[0].value, 8);
    put(b, t.outs[0].tree.size(), 4);
    put(b, t.outs[0].height, 4);
    b.push_back(0);
    put(b, 0, 4);
    b.push_back(1);
    Answer a = cmd(0x21, 0x15, s, b);
    EXPECT(a.n == 1 && a.sw != 0x9000, "an output header with a surplus byte was accepted");
}
'''
