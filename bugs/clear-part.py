PROPERTY = 'C07'
NEEDS = 'a signing request is sent while another signing session is open in which a change path was approved'
BREAKS = "the context is cleared only as far as the smaller attestation context reaches: the old session's approved change path survives and its outputs pass silently in the new one"
EDITS = [
    ('src/context.c',
     r'''explicit_bzero(&G_app_context.commands_ctx, MEMBER_SIZE(app_ctx_t, commands_ctx));''',
     r'''explicit_bzero(&G_app_context.commands_ctx,
                  sizeof(G_app_context.commands_ctx.attest_input));''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    t.outs.clear();
    Out o;
    o.kind = CHANGE;
    o.value = 5000;
    o.path = addr_path(3, 0, 700);
    t.outs = {o, o};
    auto f = attest_all(t);
    uint8_t s = sign_session(addr_path());
    NEED(up_head(s, t) && up_inputs(s, t, f));
    Answer a = up_out(s, o, nullptr, false);
    NEED(a.prompt() && approve().ok());
    s = sign_session(addr_path());
    NEED(up_head(s, t) && up_inputs(s, t, f));
    a = up_out(s, o, nullptr, false);
    EXPECT(a.prompt(), "a change path approved in an abandoned session passes silently in the next one");
}
'''
