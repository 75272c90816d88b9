PROPERTY = 'C06'
NEEDS = 'the user rejects the attestation of an unknown application between attesting a box and spending it'
BREAKS = 'the rejection wipes the frame key: genuine frames are refused afterwards and new ones rest on a known key'
EDITS = [
    ('src/commands/attestinput/ainpt_ui.c',
     r'''    } else {
        app_set_current_command(CMD_NONE);
        res_deny();
''',
     r'''    } else {
        app_set_current_command(CMD_NONE);
        explicit_bzero(app_session_key(), SESSION_KEY_LEN);
        res_deny();
''',
    ),
]
DEMO = r'''
void demo() {
    Tx t = simple_tx();
    auto f = attest_all(t);
    NEED(cmd(0x20, 1, 2, attest_head(t.inputs[0], true, 0x01020304)).prompt());
    NEED(reject().n == 1);
    auto g = attest_all(t);
    EXPECT(f == g, "the same box got other frames after a rejection");
    uint8_t s = sign_session(addr_path());
    EXPECT(up_all(s, t, f), "frames attested since power-on were refused");
}
'''
