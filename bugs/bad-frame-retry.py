PROPERTY = 'C07'
NEEDS = 'a frame is refused in the middle of an upload and the host continues in the same session'
BREAKS = 'a failed step no longer ends the session, and its earlier steps still take effect'
EDITS = [
    ('src/commands/signtx/stx_handler.c',
     r'''        return handler_err(ctx, SW_BAD_FRAME_SIGNATURE);''',
     r'''        // nothing was read from the frame, the host may send it again
        return res_error(SW_BAD_FRAME_SIGNATURE);''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    auto f = attest_all(t);
    uint8_t s = sign_session(addr_path());
    NEED(up_head(s, t));
    auto g = f;
    g[0][0][40] ^= 1;
    NEED(!up_inputs(s, t, g));
    EXPECT(!up_inputs(s, t, f), "the session went on after a failed step");
}
'''
