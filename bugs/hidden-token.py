PROPERTY = 'C10'
NEEDS = 'one application was approved, another one starts a signing session'
BREAKS = 'the prompt of the unknown application does not show its token'
EDITS = [
    ('src/commands/signtx/stx_ui.c',
     r'''    if (!is_known_application) {
        ui_add_screen(ui_application_id_screen''',
     r'''    // there is nothing to tell apart once an application is connected
    if (!is_known_application && app_connected_app_id() == 0) {
        ui_add_screen(ui_application_id_screen''',
    ),
]
DEMO = r'''
void demo() {
    Box x;
    attest_open(x, true, 0x1111);
    for (uint32_t tok : {0x2222u, 0x3333u}) {
        NEED(sign_open(addr_path(), {}, {}, true, tok).prompt());
        std::vector<std::pair<std::string, std::string>> seen;
        approve(&seen);
        char want[16];
        snprintf(want, sizeof want, "0x%08x", tok);
        EXPECT(text_of(seen, "Application") == want, "the prompt of an unknown application does not show its token");
    }
}
'''
