PROPERTY = 'C02'
NEEDS = 'the user rejects the final summary and the host simply asks for the confirmation again'
BREAKS = 'rejecting the final summary no longer ends the session: a later confirmation of the same session still yields a signature'
EDITS = [
    ('src/commands/signtx/stx_ui.c',
     r'''    if (approved) {
        ctx->op_response_cb(ctx->op_cb_context);
    } else {
        res_deny();
    }

    app_set_current_command(CMD_NONE);
    ui_menu_main();''',
     r'''    if (approved) {
        ctx->op_response_cb(ctx->op_cb_context);
        app_set_current_command(CMD_NONE);
    } else {
        // the host may ask for the confirmation again
        res_deny();
    }

    ui_menu_main();''',
    ),
    ('src/commands/signtx/operations/stx_op_p2pk.c',
     r'''    CHECK_PROPER_STATE(ctx, SIGN_TRANSACTION_OPERATION_P2PK_STATE_TX_FINISHED);
    ctx->state = SIGN_TRANSACTION_OPERATION_P2PK_STATE_FINALIZED;
    uint8_t screen = 0;
    if (!ui_stx_add_transaction_screens(''',
     r'''    CHECK_PROPER_STATES(ctx,
                        SIGN_TRANSACTION_OPERATION_P2PK_STATE_TX_FINISHED,
                        SIGN_TRANSACTION_OPERATION_P2PK_STATE_FINALIZED);
    ctx->state = SIGN_TRANSACTION_OPERATION_P2PK_STATE_FINALIZED;
    uint8_t screen = 0;
    if (!ui_stx_add_transaction_screens(''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    auto f = attest_all(t);
    uint8_t s = sign_session(addr_path());
    NEED(up_all(s, t, f));
    NEED(confirm(s).prompt());
    Answer r = reject();
    NEED(r.n == 1 && r.sw == 0x6985 && at_menu());
    Answer a = confirm(s);
    if (a.prompt()) a = approve();
    EXPECT(!(a.ok() && a.data.size() == 56), "a signature was released in a session the user had rejected");
    EXPECT(a.n == 1 && a.sw != 0x9000, "the rejected session went on");
}
'''
