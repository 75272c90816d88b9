PROPERTY = 'C01'
NEEDS = 'an output whose creation height is above 2147483647'
BREAKS = 'the height is widened as a signed number, so that the signed bytes differ from the uploaded transaction'
EDITS = [
    ('src/ergo/tx_ser_box.c',
     r'''if (gve_put_u32(&buffer, context->creation_height) != GVE_OK) {''',
     r'''int32_t height = context->creation_height;
    if (gve_put_u64(&buffer, height) != GVE_OK) {''',
    ),
]
DEMO = r'''
void demo() {
    for (uint32_t h : {0u, 700000u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) {
        Tx t = simple_tx();
        t.outs[0].height = h;
        auto f = attest_all(t);
        Bytes sig = sign_all(t, addr_path(), f);
        EXPECT(verifies(sig, tx_bytes(t), addr_path()), "height %u: the signature is for other bytes", h);
    }
}
'''
