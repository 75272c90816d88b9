PROPERTY = 'C03'
NEEDS = 'the user steps left from the first detail of an output back to the title and then right again'
BREAKS = 'the details are skipped from then on: the output can no longer be read in this prompt'
EDITS = [
    ('src/ui/ui_dynamic_flow.c',
     r'''        if (G_dynamic_flow_context.current_screen == 0) {
            G_dynamic_flow_context.current_screen = INDEX_NOT_EXIST;
            // Similar''',
     r'''        if (G_dynamic_flow_context.current_screen == 0) {
            // Similar''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    auto f = attest_all(t);
    uint8_t s = sign_session(addr_path());
    NEED(up_head(s, t) && up_inputs(s, t, f));
    NEED(up_out(s, t.outs[0], nullptr, false).prompt());
    Display title = shown();
    NEED(walk("Address"));
    Display address = shown();
    button(EV_LEFT);
    EXPECT(shown().b == title.b && shown().a == title.a, "left of the first detail is not the title");
    button(EV_RIGHT);
    EXPECT(shown().a == address.a && shown().b == address.b, "right of the title: %s %s", shown().a.c_str(), shown().b.c_str());
}
'''
