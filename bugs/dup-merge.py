PROPERTY = 'C05'
NEEDS = 'a box is uploaded that lists the same token twice'
BREAKS = 'the second amount replaces the first one in the frames instead of the box being refused'
EDITS = [
    ('src/commands/attestinput/ainpt_handler.c',
     r'''            return ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_ID;''',
     r'''            ctx->token_amounts[i] = value;
            return ERGO_TX_SERIALIZER_BOX_RES_OK;''',
    ),
]
DEMO = r'''
void demo() {
    Box x;
    x.tokens = {{id32(100), 5}, {id32(101), 6}, {id32(100), 7}};
    uint8_t s = attest_open(x);
    Answer a = attest_upload(s, x);
    if (!a.ok()) return;
    a = cmd(0x20, 5, s, Bytes{0});
    NEED(a.ok());
    EXPECT(a.data[42] == 3, "a box with three token entries is reported with %d", a.data[42]);
}
'''
