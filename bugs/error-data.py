PROPERTY = 'C20'
NEEDS = 'the last step of the signature computation fails after the user approved the summary'
BREAKS = 'the error answer carries the unfinished signature buffer: the challenge and whatever was left in memory behind it'
EDITS = [
    ('src/commands/signtx/operations/stx_op_p2pk.c',
     r'''        app_set_current_command(CMD_NONE);
        res_error(SW_SCHNORR_SIGNING_FAILED);
''',
     r'''        app_set_current_command(CMD_NONE);
        io_send_response_buffer(&res_sig.read, SW_SCHNORR_SIGNING_FAILED);
''',
    ),
]
DEMO = r'''
#include "sdk/include/sim_abi.h"
void demo() {
    Tx t = simple_tx();
    for (int call : {SYS_MULTM, SYS_ADDM, SYS_HASH_FINAL}) {
        auto f = attest_all(t);
        uint8_t s = sign_session(addr_path());
        NEED(up_all(s, t, f));
        NEED(confirm(s).prompt());
        Fault x;
        x.call = call;
        Answer a = approve(nullptr, {x});
        EXPECT(a.n == 1 && a.sw != 0x9000, "the failure was not reported");
        EXPECT(a.data.empty(), "an error answer carries %zu bytes", a.data.size());
    }
}
'''
