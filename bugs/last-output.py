PROPERTY = 'C03'
NEEDS = 'a transaction whose last output is not a fee or own change output'
BREAKS = 'the last output is accepted without being shown'
EDITS = [
    ('src/commands/signtx/operations/stx_op_p2pk.c',
     r'''    if (ctx->state != SIGN_TRANSACTION_OPERATION_P2PK_STATE_OUTPUTS_STARTED &&
        ctx->state != SIGN_TRANSACTION_OPERATION_P2PK_STATE_TX_FINISHED)
        return false;''',
     r'''    if (ctx->state != SIGN_TRANSACTION_OPERATION_P2PK_STATE_OUTPUTS_STARTED) return false;''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    std::swap(t.outs[0], t.outs[2]);
    auto f = attest_all(t);
    uint8_t s = sign_session(addr_path());
    NEED(up_head(s, t) && up_inputs(s, t, f));
    NEED(up_out(s, t.outs[0]).ok());
    NEED(up_out(s, t.outs[1]).ok());
    EXPECT(up_out(s, t.outs[2]).prompt(), "the last output was accepted without being shown");
}
'''
