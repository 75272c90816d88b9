PROPERTY = 'C05'
NEEDS = 'the hash engine fails in the step that completes the uploaded box, and the host goes on'
BREAKS = 'the session survives and its frames attest the transaction id in place of the box id'
EDITS = [
    ('src/commands/attestinput/ainpt_handler.c',
     r'''    CHECK_CALL_RESULT_OK(
        ctx,
        ergo_tx_serializer_box_id_hash(&ctx->box, ctx->box_id, ctx->box_index, ctx->box_id));
    ctx->state = ATTEST_INPUT_STATE_FINISHED;
''',
     r'''    ctx->state = ATTEST_INPUT_STATE_FINISHED;
    ergo_tx_serializer_box_result_e res =
        ergo_tx_serializer_box_id_hash(&ctx->box, ctx->box_id, ctx->box_index, ctx->box_id);
    if (res != ERGO_TX_SERIALIZER_BOX_RES_OK) {
        return res_error(sw_from_tx_box_result(res));
    }
''',
    ),
]
DEMO = r'''
#include "sdk/include/sim_abi.h"
void demo() {
    Box b;
    for (int call : {SYS_HASH_FINAL, SYS_HASH_UPDATE}) {
        for (uint32_t at = 0; at < 12; at++) {
            uint8_t s = attest_open(b);
            Fault f;
            f.call = call;
            f.at = at;
            Answer a = attest_upload(s, b, {f});
            Answer g = cmd(0x20, 5, s, Bytes{0});
            if (!g.ok()) continue;
            EXPECT(Bytes(g.data.begin(), g.data.begin() + 32) == b.id(), "a frame attests a box id that is not the id of the uploaded box");
        }
    }
}
'''
