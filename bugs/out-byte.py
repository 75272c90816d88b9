PROPERTY = 'C02'
NEEDS = 'a transaction with more than 255 outputs'
BREAKS = 'the number of missing outputs is kept in one byte: the final summary is offered and signed after a part of the declared outputs'
EDITS = [
    ('src/ergo/tx_ser_full.h',
     r'''    uint16_t inputs_count;
    uint16_t data_inputs_count;
    uint16_t outputs_count;
''',
     r'''    uint16_t inputs_count;
    uint16_t data_inputs_count;
    uint8_t outputs_count;
''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    auto f = attest_all(t);
    Out fee;
    fee.kind = FEE;
    fee.value = 1000;
    t.outs.assign(258, fee);
    uint8_t s = sign_session(addr_path());
    if (!up_head(s, t)) return;
    NEED(up_inputs(s, t, f));
    for (int i = 0; i < 2; i++) NEED(up_out(s, fee).ok());
    Answer a = confirm(s);
    EXPECT(!a.prompt(), "the summary is shown after 2 of 258 outputs");
}
'''
