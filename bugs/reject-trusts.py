PROPERTY = 'C10'
NEEDS = 'the user rejects a key export of an application, which then asks again'
BREAKS = 'the rejected application is trusted: its next request is served without any confirmation'
EDITS = [
    ('src/commands/extpubkey/epk_ui.c',
     r'''    if (approved) {
        app_set_connected_app_id(ctx->app_token_value);
        send_response_extended_pubkey''',
     r'''    // from now on this is the connected application
    app_set_connected_app_id(ctx->app_token_value);
    if (approved) {
        send_response_extended_pubkey''',
    ),
]
DEMO = r'''
void demo() {
    Bytes b = path_bytes({44 + H, 429 + H, H});
    put(b, 0xCAFE1234, 4);
    NEED(cmd(0x10, 2, 0, b).prompt());
    Answer r = reject();
    NEED(r.n == 1 && r.sw == 0x6985);
    Answer a = cmd(0x10, 2, 0, b);
    EXPECT(a.prompt(), "a rejected application was served without a prompt");
}
'''
