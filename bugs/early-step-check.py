PROPERTY = 'C08'
NEEDS = 'an attestation command with an unknown step arrives while a prompt is shown'
BREAKS = 'it is not refused as busy but closes the request whose prompt is on the display'
EDITS = [
    ('src/commands/attestinput/ainpt_handler.c',
     r'''    if (app_is_ui_busy()) {
        return res_ui_busy();
    }

    attest_input_ctx_t *ctx = app_attest_input_context();
    switch (subcommand) {''',
     r'''    attest_input_ctx_t *ctx = app_attest_input_context();
    if (subcommand > ATTEST_INPUT_SUBCOMMAND_GET_RESPONSE_FRAME) {
        return handler_err(ctx, SW_WRONG_SUBCOMMAND);
    }
    if (app_is_ui_busy()) {
        return res_ui_busy();
    }

    switch (subcommand) {''',
    ),
]
DEMO = r'''
void demo() {
    Bytes b = path_bytes({44 + H, 429 + H, H});
    NEED(cmd(0x10, 1, 0, b).prompt());
    Answer a = cmd(0x20, 6, 1);
    EXPECT(a.n == 1 && a.sw == 0xB000, "not refused as busy: %04x", a.sw);
    a = approve();
    Bytes want;
    const KeyPair &k = wallet_key(7, {44 + H, 429 + H, H});
    want.insert(want.end(), k.pk.begin(), k.pk.end());
    want.insert(want.end(), k.chain.begin(), k.chain.end());
    EXPECT(a.ok() && a.data == want, "the approved prompt returned something else");
}
'''
