PROPERTY = 'C03'
NEEDS = 'a change output far from the signing key was approved, another such change output follows'
BREAKS = 'only the first bytes of the paths are compared, so any later change path counts as already approved'
EDITS = [
    ('src/commands/signtx/stx_output.h',
     r'''    return bip32_path_is_equal(p1->path, p1->len, p2->path, p2->len);''',
     r'''    return p1->len == p2->len && memcmp(p1->path, p2->path, p1->len) == 0;''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx(1000000000, 900000000, 1000000);
    t.outs[2].path = addr_path(0, 0, 500);
    t.outs[2].value = 9000000;
    t.outs.push_back(t.outs[2]);
    t.outs.push_back(t.outs[2]);
    t.outs[4].path = addr_path(7, 1, 600);
    auto f = attest_all(t);
    uint8_t s = sign_session(addr_path());
    NEED(up_head(s, t) && up_inputs(s, t, f));
    NEED(up_out(s, t.outs[0]).prompt());
    NEED(up_out(s, t.outs[1]).ok());
    NEED(up_out(s, t.outs[2]).prompt());
    NEED(up_out(s, t.outs[3]).ok());
    EXPECT(up_out(s, t.outs[4]).prompt(), "a change output to another account was accepted without being shown");
}
'''
