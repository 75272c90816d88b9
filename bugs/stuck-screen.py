PROPERTY = 'C09'
NEEDS = 'the final signature fails after the user approved the summary'
BREAKS = 'the display does not return to the main menu: the decided prompt stays and acts again when its buttons are pressed'
EDITS = [
    ('src/commands/signtx/stx_ui.c',
     r'''    if (approved) {
        ctx->op_response_cb(ctx->op_cb_context);
    } else {
        res_deny();
    }

    app_set_current_command(CMD_NONE);
    ui_menu_main();''',
     r'''    if (approved) {
        ctx->op_response_cb(ctx->op_cb_context);
        // the operation already closed its session
        if (app_current_command() == CMD_NONE) return;
    } else {
        res_deny();
    }

    app_set_current_command(CMD_NONE);
    ui_menu_main();''',
    ),
]
DEMO = r'''
#include "sdk/include/sim_abi.h"
void demo() {
    Tx t = simple_tx();
    auto f = attest_all(t);
    uint8_t s = sign_session(addr_path());
    NEED(up_all(s, t, f));
    NEED(confirm(s).prompt());
    Fault x;
    x.call = SYS_MULTM;
    Answer a = approve(nullptr, {x});
    NEED(a.n == 1 && a.sw != 0x9000);
    EXPECT(at_menu(), "the decided prompt is still on the display");
}
'''
