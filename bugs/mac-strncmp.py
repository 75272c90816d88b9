PROPERTY = 'C06'
NEEDS = 'a frame whose authentication code has a zero byte before the place where it was altered'
BREAKS = 'the comparison stops at the zero byte, so altered codes (and with some luck forged frames) are accepted'
EDITS = [
    ('src/commands/signtx/stx_handler.c',
     r'''    if (memcmp(id_buffer, input_frame_signature_ptr(cdata), INPUT_FRAME_SIGNATURE_LEN) != 0) {''',
     r'''    if (strncmp((const char *) id_buffer,
                (const char *) input_frame_signature_ptr(cdata),
                INPUT_FRAME_SIGNATURE_LEN) != 0) {''',
    ),
]
DEMO = r'''
void demo() {
    for (unsigned i = 0; i < 400; i++) {
        Tx t = simple_tx();
        t.inputs[0].index = (uint16_t) i;
        auto f = attest_all(t);
        Bytes &fr = f[0][0];
        size_t mac = fr.size() - 16;
        bool zero = false;
        for (int k = 0; k < 15; k++) zero |= fr[mac + k] == 0;
        if (!zero) continue;
        fr[mac + 15] ^= 0x40;
        uint8_t s = sign_session(addr_path());
        NEED(up_head(s, t));
        EXPECT(!up_inputs(s, t, f), "a frame with an altered authentication code was accepted");
        return;
    }
    NEED(false);
}
'''
