PROPERTY = 'C07'
NEEDS = 'an address request is refused (bad path or data) while a session is open'
BREAKS = 'the refused request leaves the session alive: its later steps take effect although a newer request was started'
EDITS = [
    ('src/commands/deriveaddress/da_handler.c',
     r'''    UNUSED(_ctx);
    app_set_current_command(CMD_NONE);
    return res_error(err);''',
     r'''    UNUSED(_ctx);
    return res_error(err);''',
    ),
    ('src/commands/deriveaddress/da_handler.c',
     r'''    app_set_current_command(CMD_DERIVE_ADDRESS);

    derive_address_ctx_t *ctx''',
     r'''    derive_address_ctx_t *ctx''',
    ),
    ('src/commands/deriveaddress/da_handler.c',
     r'''    if (!ergo_address_from_pubkey(network_type, public_key, ctx->raw_address)) {''',
     r'''    // the request is correct, it takes the place of the current command
    app_set_current_command(CMD_DERIVE_ADDRESS);
    if (!ergo_address_from_pubkey(network_type, public_key, ctx->raw_address)) {''',
    ),
]
DEMO = r'''
void demo() {
    Box x;
    uint8_t s = attest_open(x);
    NEED(cmd(0x20, 2, s, x.tree).ok());
    Bytes b{0x00};
    put(b, path_bytes({44 + H, 1 + H, H, 0, 0}));
    Answer a = cmd(0x11, 1, 1, b);
    NEED(a.n == 1 && a.sw != 0x9000);
    a = cmd(0x20, 5, s, Bytes{0});
    EXPECT(a.n == 1 && a.sw != 0x9000, "a frame of the session before the address request was returned");
}
'''
