PROPERTY = 'C14'
NEEDS = 'a signing prompt was shown earlier, and on a later key or address prompt the user presses both buttons on the path screen'
BREAKS = 'the callback of the old signing prompt runs on the context of another command and writes through a pointer read from it'
EDITS = [
    ('src/ui/ui_bip32_path.c',
     r'''    G_ui_bip32_approve_callback = cb;
    G_ui_bip32_approve_callback_context = cb_context;
''',
     r'''    if (cb != NULL) {
        G_ui_bip32_approve_callback = cb;
        G_ui_bip32_approve_callback_context = cb_context;
    }
''',
    ),
]
DEMO = r'''
void demo() {
    Answer a = sign_open(addr_path());
    NEED(a.prompt());
    NEED(reject().n == 1);
    Bytes b = path_bytes({44 + H, 429 + H, H});
    NEED(cmd(0x10, 1, 0, b).prompt());
    NEED(walk("Path"));
    Answer r = button(EV_BOTH);
    EXPECT(r.n == 0 && !at_menu(), "pressing both buttons on the path screen answered the request");
}
'''
