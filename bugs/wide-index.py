PROPERTY = 'C05'
NEEDS = 'a box whose index in its transaction needs three bytes (above 16383)'
BREAKS = 'only two bytes of the encoded index enter the box id, so frames attest an id of another box'
EDITS = [
    ('src/ergo/tx_ser_box.c',
     r'''    if (!blake2b_update(context->hash, rw_buffer_read_ptr(&buffer), rw_buffer_data_len(&buffer))) {
        return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_HASHER);
    }

    if (!blake2b_256_finalize''',
     r'''    if (!blake2b_update(context->hash,
                        rw_buffer_read_ptr(&buffer),
                        rw_buffer_data_len(&buffer) > sizeof(box_index)
                            ? sizeof(box_index)
                            : rw_buffer_data_len(&buffer))) {
        return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_HASHER);
    }

    if (!blake2b_256_finalize''',
    ),
]
DEMO = r'''
void demo() {
    for (int i : {0, 1, 127, 128, 300, 16383, 16384, 40000, 65535}) {
        Box x;
        x.index = (uint16_t) i;
        auto f = attest(x);
        EXPECT(Bytes(f[0].begin(), f[0].begin() + 32) == x.id(), "box %d of its transaction is attested with another id", i);
    }
}
'''
