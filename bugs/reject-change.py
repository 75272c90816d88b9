PROPERTY = 'C02'
NEEDS = 'the user rejects an output that is a change address'
BREAKS = 'the session stays open after the rejection and can still be brought to a signature'
EDITS = [
    ('src/commands/signtx/stx_ui.c',
     r'''        res_ok();
    } else {
        app_set_current_command(CMD_NONE);
        res_deny();
    }''',
     r'''        res_ok();
    } else if (stx_output_info_type(ctx->output) == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_BIP32) {
        // own address
        res_deny();
    } else {
        app_set_current_command(CMD_NONE);
        res_deny();
    }''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    t.outs[2].path = addr_path(0, 0, 500);
    auto f = attest_all(t);
    uint8_t s = sign_session(addr_path());
    NEED(up_head(s, t) && up_inputs(s, t, f));
    NEED(up_out(s, t.outs[0]).prompt());
    NEED(up_out(s, t.outs[1]).ok());
    NEED(up_out(s, t.outs[2], nullptr, false).prompt());
    Answer r = reject();
    NEED(r.n == 1 && r.sw == 0x6985);
    Answer a = confirm(s);
    EXPECT(a.n == 1 && a.sw != 0x9000, "the final summary is shown after an output was rejected");
}
'''
