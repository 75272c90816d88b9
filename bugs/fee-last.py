PROPERTY = 'C04'
NEEDS = 'a transaction with two miner-fee outputs'
BREAKS = 'the final summary shows only the last of the fees'
EDITS = [
    ('src/commands/signtx/stx_amounts.c',
     r'''            if (!checked_add_u64(ctx->fee, value, &ctx->fee)) {  // add value to fee.
                return ERGO_TX_SERIALIZER_BOX_RES_ERR_U64_OVERFLOW;
            }
''',
     r'''            ctx->fee = value;
''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx(1000000000, 900000000, 1000000);
    t.outs.push_back(t.outs[1]);
    t.outs[3].value = 2000000;
    t.outs[2].value -= 2000000;
    auto f = attest_all(t);
    uint8_t s = sign_session(addr_path());
    NEED(up_all(s, t, f));
    NEED(confirm(s).prompt());
    std::vector<std::pair<std::string, std::string>> seen;
    NEED(walk("Approve", &seen));
    std::string fee = text_of(seen, "Transaction Fee");
    EXPECT(fee.rfind("0.003000000", 0) == 0 || fee.rfind("0.003 ", 0) == 0, "a fee of 0.003 is shown as %s", fee.c_str());
}
'''
