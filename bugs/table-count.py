PROPERTY = 'C01'
NEEDS = 'an input that carries a token which is not among the token ids uploaded for the outputs (a token that is burned)'
BREAKS = 'the table of distinct token ids is hashed with the tokens met only in inputs, so the signature does not commit to the uploaded transaction'
EDITS = [('src/ergo/tx_ser_table.c', '    for (uint8_t i = 0; i < context->distinct_tokens_count; i++) {', '    for (uint8_t i = 0; i < context->tokens_table->count; i++) {')]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    t.table = {id32(1)};
    t.inputs[0].tokens = {{id32(1), 50}, {id32(2), 70}};
    t.outs[2].tokens = {{0, 50}};
    auto f = attest_all(t);
    Bytes s = sign_all(t, addr_path(), f);
    EXPECT(verifies(s, tx_bytes(t), addr_path()), "the signature does not sign the uploaded transaction");
}
'''
