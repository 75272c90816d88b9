PROPERTY = 'C03'
NEEDS = 'a change path of the same account and chain whose index is exactly the signing index plus 20, or of the other chain'
BREAKS = 'a change output twenty addresses ahead is accepted without being shown'
EDITS = [
    ('src/commands/signtx/operations/stx_op_p2pk.c',
     r'''            ctx->transaction.ui.output.bip32_path.path[4] < ctx->bip32.path[4] + 20)''',
     r'''            ctx->transaction.ui.output.bip32_path.path[4] - ctx->bip32.path[4] <= 20)''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    t.outs[2].path = addr_path(0, 0, 20);
    auto f = attest_all(t);
    uint8_t s = sign_session(addr_path());
    NEED(up_head(s, t) && up_inputs(s, t, f));
    Answer a = up_out(s, t.outs[0]);
    NEED(a.prompt());
    NEED(up_out(s, t.outs[1]).ok());
    EXPECT(up_out(s, t.outs[2]).prompt(), "change at index 20 was accepted silently");
}
'''
