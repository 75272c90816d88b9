PROPERTY = 'C06'
NEEDS = 'a genuine frame whose last byte (the amount of its last token) is altered'
BREAKS = 'the authentication leaves out the last byte of the frame, where it is made and where it is checked'
EDITS = [
    ('src/commands/attestinput/ainpt_response.c',
     r'''                   rw_buffer_data_len(&output),
                   rw_buffer_write_ptr(&output),''',
     r'''                   rw_buffer_data_len(&output) - 1,
                   rw_buffer_write_ptr(&output),''',
    ),
    ('src/commands/signtx/stx_handler.c',
     r'''                   frame_data_len,
                   id_buffer,''',
     r'''                   frame_data_len - 1,
                   id_buffer,''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    t.inputs[0].tokens = {{id32(100), 5}};
    auto f = attest_all(t);
    size_t n = f[0][0].size();
    for (size_t at = 0; at < n; at++) {
        uint8_t s = sign_session(addr_path());
        NEED(up_head(s, t));
        auto g = f;
        g[0][0][at] ^= 0x10;
        EXPECT(!up_inputs(s, t, g), "a frame with byte %d of %d altered was accepted", (int) at, (int) n);
    }
}
'''
