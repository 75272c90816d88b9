PROPERTY = 'C17'
NEEDS = 'a command with a wrong length arrives in the middle of a session, or while a prompt is shown'
BREAKS = 'it resets the current command: the session is lost and the prompt acts on an erased context'
EDITS = [
    ('src/app_main.c',
     r'''            io_send_sw(SW_WRONG_APDU_DATA_LENGTH);
            continue;''',
     r'''            app_set_current_command(CMD_NONE);
            io_send_sw(SW_WRONG_APDU_DATA_LENGTH);
            continue;''',
    ),
]
DEMO = r'''
void demo() {
    Box b;
    uint8_t s = attest_open(b);
    Answer a = raw(Bytes{0xE0, 0x20, 0x05, s, 0x07, 0x00});
    NEED(a.n == 1 && a.sw != 0x9000);
    a = attest_upload(s, b);
    EXPECT(a.ok(), "the session was lost on a command with a wrong length");
}
'''
