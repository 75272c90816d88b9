PROPERTY = 'C16'
NEEDS = 'a transaction with more than 255 data inputs'
BREAKS = 'the number of missing data inputs is kept in one byte: outputs are accepted after a part of the declared data inputs only'
EDITS = [
    ('src/ergo/tx_ser_full.h',
     r'''    uint16_t inputs_count;
    uint16_t data_inputs_count;
    uint16_t outputs_count;
''',
     r'''    uint16_t inputs_count;
    uint8_t data_inputs_count;
    uint16_t outputs_count;
''',
    ),
]
DEMO = r'''
void demo() {
    for (int n : {255, 256, 258, 300}) {
        Tx t = simple_tx();
        for (int i = 0; i < n; i++) t.data.push_back(id32(5000 + i));
        auto f = attest_all(t);
        uint8_t s = sign_session(addr_path());
        NEED(up_head(s, t) && up_inputs(s, t, f));
        int sent = 0;
        bool early = false;
        for (int i = 0; i < n; i += 7) {
            Bytes b;
            for (int j = i; j < std::min(n, i + 7); j++) put(b, t.data[j]);
            if (!cmd(0x21, 0x14, s, b).ok()) {
                early = true;
                break;
            }
            sent = std::min(n, i + 7);
        }
        EXPECT(!early, "after %d of %d data inputs the next one is refused", sent, n);
    }
}
'''
