PROPERTY = 'C01'
NEEDS = 'a change output to a path of more than five components'
BREAKS = 'the change script is computed for the first five components only, so the signature commits to another output than the uploaded and shown one'
EDITS = [
    ('src/commands/signtx/stx_handler.c',
     r'''                            bip32_public_key(ctx->p2pk.transaction.ui.output.bip32_path.path,
                                             ctx->p2pk.transaction.ui.output.bip32_path.len,''',
     r'''                            bip32_public_key(ctx->p2pk.transaction.ui.output.bip32_path.path,
                                             MIN(ctx->p2pk.transaction.ui.output.bip32_path.len, 5),''',
    ),
]
DEMO = r'''
void demo() {
    for (int extra = 0; extra < 3; extra++) {
        Tx t = simple_tx();
        for (int i = 0; i < extra; i++) t.outs[2].path.push_back(9);
        auto f = attest_all(t);
        Bytes sig = sign_all(t, addr_path(), f);
        EXPECT(verifies(sig, tx_bytes(t), addr_path()), "the signature does not commit to the change path of %d components", 5 + extra);
    }
}
'''
