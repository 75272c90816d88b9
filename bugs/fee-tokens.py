PROPERTY = 'C03'
NEEDS = 'a miner-fee output that carries tokens'
BREAKS = 'the tokens given to the miners are accepted without being shown'
EDITS = [
    ('src/commands/signtx/operations/stx_op_p2pk.c',
     r'''        SIGN_TRANSACTION_OUTPUT_INFO_TYPE_MINERS_FEE) {
        return stx_output_info_used_tokens_count(&ctx->transaction.ui.output) > 0;
    }''',
     r'''        SIGN_TRANSACTION_OUTPUT_INFO_TYPE_MINERS_FEE) {
        return false;
    }''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    t.inputs[0].tokens.push_back({id32(100), 5});
    t.table.push_back(id32(100));
    t.outs[1].tokens.push_back({0, 5});
    auto f = attest_all(t);
    uint8_t s = sign_session(addr_path());
    NEED(up_head(s, t) && up_tokens(s, t) && up_inputs(s, t, f));
    NEED(up_out(s, t.outs[0]).prompt());
    EXPECT(up_out(s, t.outs[1]).prompt(), "a fee output with tokens was accepted without being shown");
}
'''
