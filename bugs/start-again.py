PROPERTY = 'C16'
NEEDS = 'the host sends the transaction header a second time before the first token or input'
BREAKS = 'the header is accepted again although its first version is already part of the signed bytes'
EDITS = [
    ('src/commands/signtx/operations/stx_op_p2pk.c',
     r'''    CHECK_PROPER_STATE(ctx, SIGN_TRANSACTION_OPERATION_P2PK_STATE_INITIALIZED);
    CHECK_TX_CALL_RESULT_OK(ctx,
                            ergo_tx_serializer_full_init(''',
     r'''    CHECK_PROPER_STATES(ctx,
                        SIGN_TRANSACTION_OPERATION_P2PK_STATE_INITIALIZED,
                        SIGN_TRANSACTION_OPERATION_P2PK_STATE_TX_STARTED);
    CHECK_TX_CALL_RESULT_OK(ctx,
                            ergo_tx_serializer_full_init(''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    auto f = attest_all(t);
    uint8_t s = sign_session(addr_path());
    NEED(up_head(s, t));
    EXPECT(!up_head(s, t), "the transaction header was accepted twice");
}
'''
