PROPERTY = 'C04'
NEEDS = 'inputs that carry more distinct tokens than the device can track'
BREAKS = 'tokens beyond the twentieth are dropped from the sums instead of the transaction being refused, so the final summary omits burned tokens'
EDITS = [
    ('src/commands/signtx/stx_amounts.c',
     r'''        index = token_table_add_token(&ctx->tokens_table, tn_id);
        if (!IS_ELEMENT_FOUND(index)) return ERGO_TX_SERIALIZER_INPUT_RES_ERR_TOO_MANY_TOKENS;
''',
     r'''        index = token_table_add_token(&ctx->tokens_table, tn_id);
        // no output can carry a token which is not in the table
        if (!IS_ELEMENT_FOUND(index)) return ERGO_TX_SERIALIZER_INPUT_RES_OK;
''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    Box b = t.inputs[0];
    b.index = 1;
    for (int i = 0; i < 20; i++) t.inputs[0].tokens.push_back({id32(100 + i), 5});
    b.tokens.push_back({id32(200), 77});
    t.inputs.push_back(b);
    t.outs[2].value += b.value;
    auto f = attest_all(t);
    uint8_t s = sign_session(addr_path());
    if (!up_all(s, t, f)) return;  // refused
    if (!confirm(s).prompt()) return;
    std::vector<std::pair<std::string, std::string>> seen;
    NEED(walk("Approve", &seen));
    int shown_tokens = 0;
    for (auto &x : seen) shown_tokens += x.second.rfind("Burning: ", 0) == 0;
    EXPECT(shown_tokens == 21, "21 tokens are burned, %d are shown", shown_tokens);
}
'''
