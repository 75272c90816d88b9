PROPERTY = 'C11'
NEEDS = 'the hash of an output or box without registers fails exactly at its last byte'
BREAKS = 'the failure is ignored and the signature or box id is computed over data without that byte'
EDITS = [
    ('src/ergo/tx_ser_box.c',
     r'''    if (gve_put_u8(&buffer, 0) != GVE_OK) {
        return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_BUFFER);
    }
    if (!blake2b_update(context->hash, rw_buffer_read_ptr(&buffer), rw_buffer_data_len(&buffer))) {
        return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_HASHER);
    }
    return ERGO_TX_SERIALIZER_BOX_RES_OK;''',
     r'''    if (gve_put_u8(&buffer, 0) != GVE_OK) {
        return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_BUFFER);
    }
    blake2b_update(context->hash, rw_buffer_read_ptr(&buffer), rw_buffer_data_len(&buffer));
    return ERGO_TX_SERIALIZER_BOX_RES_OK;''',
    ),
]
DEMO = r'''
#include "sdk/include/sim_abi.h"
void demo() {
    Box x;
    x.tokens.push_back({id32(100), 5});
    Bytes id = x.id();
    for (unsigned n = 0; n < 9; n++) {
        uint8_t s = attest_open(x);
        Fault f;
        f.call = SYS_HASH_UPDATE;
        f.at = n;
        Answer a = attest_upload(s, x, {f});
        if (!a.ok()) continue;
        a = cmd(0x20, 5, s, Bytes{0});
        NEED(a.ok());
        EXPECT(Bytes(a.data.begin(), a.data.begin() + 32) == id, "failure of hash update %u: a wrong box id is attested", n);
    }
}
'''
