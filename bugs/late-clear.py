PROPERTY = 'C13'
NEEDS = 'a signing session ends: by its signature, by a rejection or by a failed step'
BREAKS = 'the context is wiped only when the next command begins, and until then the nonce of the finished session stays in memory'
EDITS = [
    ('src/context.c',
     r'''    explicit_bzero(&G_app_context.commands_ctx, MEMBER_SIZE(app_ctx_t, commands_ctx));
''',
     r'''    if (current_command != CMD_NONE) {
        explicit_bzero(&G_app_context.commands_ctx, MEMBER_SIZE(app_ctx_t, commands_ctx));
    }
''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    auto f = attest_all(t);
    uint8_t s = sign_session(addr_path());
    NEED(up_all(s, t, f));
    NEED(confirm(s).prompt());
    NEED(reject().n == 1);
    std::string left = g_dev.scan({});
    EXPECT(left.empty(), "%s", left.c_str());
    s = sign_session(addr_path());
    Answer a = cmd(0x21, 0x10, s, Bytes{1});
    NEED(a.n == 1 && a.sw != 0x9000);
    left = g_dev.scan({});
    EXPECT(left.empty(), "%s", left.c_str());
}
'''
