PROPERTY = 'C04'
NEEDS = 'inputs whose token sum does not fit in 64 bits but wraps to a small positive number'
BREAKS = 'the wrapped sum is shown in the final summary instead of the transaction being refused'
EDITS = [
    ('src/commands/signtx/stx_amounts.c',
     r'''    if (!checked_add_i64(ctx->tokens[index], value, &ctx->tokens[index])) {
        return ERGO_TX_SERIALIZER_INPUT_RES_ERR_U64_OVERFLOW;
    }
    return ERGO_TX_SERIALIZER_INPUT_RES_OK;''',
     r'''    uint64_t sum = (uint64_t) ctx->tokens[index] + value;
    if (sum > INT64_MAX) {
        return ERGO_TX_SERIALIZER_INPUT_RES_ERR_U64_OVERFLOW;
    }
    ctx->tokens[index] = (int64_t) sum;
    return ERGO_TX_SERIALIZER_INPUT_RES_OK;''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    t.inputs.push_back(t.inputs[0]);
    t.inputs[1].index = 1;
    t.outs[2].value += t.inputs[1].value;
    t.inputs[0].tokens.push_back({id32(100), 5});
    t.inputs[1].tokens.push_back({id32(100), UINT64_MAX - 2});
    auto f = attest_all(t);
    uint8_t s = sign_session(addr_path());
    NEED(up_head(s, t));
    EXPECT(!up_inputs(s, t, f), "a token sum above 64 bits was accepted");
}
'''
