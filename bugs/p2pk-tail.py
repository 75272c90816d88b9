PROPERTY = 'C03'
NEEDS = 'a script of more than one chunk whose last chunk is exactly a pay-to-public-key tree'
BREAKS = 'such a script output is shown as a payment to the plain address in its tail instead of its script hash'
EDITS = [
    ('src/commands/signtx/stx_output.c',
     r'''    if (STX_OUTPUT_INFO_TYPE(ctx) == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_UNKNOWN) {
        if (len == ERGO_TREE_P2PK_LEN && is_finished &&''',
     r'''    if (STX_OUTPUT_INFO_TYPE(ctx) == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_UNKNOWN || is_finished) {
        if (len == ERGO_TREE_P2PK_LEN && is_finished &&''',
    ),
    ('src/commands/signtx/stx_output.c',
     r'''        } else {  // isn't public key or hash. treating as script
            STX_OUTPUT_SET_TYPE''',
     r'''        } else if (STX_OUTPUT_INFO_TYPE(ctx) == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_UNKNOWN) {
            // isn't public key or hash. treating as script
            STX_OUTPUT_SET_TYPE''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    Bytes tree(255, 0x10);
    put(tree, p2pk_tree(9));
    t.outs[0].tree = tree;
    auto f = attest_all(t);
    uint8_t s = sign_session(addr_path());
    NEED(up_head(s, t) && up_tokens(s, t) && up_inputs(s, t, f));
    std::vector<std::pair<std::string, std::string>> seen;
    Answer a = up_out(s, t.outs[0], &seen);
    NEED(a.prompt());
    EXPECT(!text_of(seen, "Script Hash").empty() && text_of(seen, "Address").empty(), "a script output is shown as %s", text_of(seen, "Address").c_str());
}
'''
