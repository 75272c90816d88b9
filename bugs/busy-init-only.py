PROPERTY = 'C08'
NEEDS = 'an attestation step arrives while a prompt of another command is on the display'
BREAKS = 'the step ends the command whose prompt is shown: the approval acts on an erased context'
EDITS = [
    ('src/commands/attestinput/ainpt_handler.c',
     r'''    if (app_is_ui_busy()) {
        return res_ui_busy();
    }

    attest_input_ctx_t *ctx''',
     r'''    attest_input_ctx_t *ctx''',
    ),
    ('src/commands/attestinput/ainpt_handler.c',
     r'''                return handler_err(ctx, SW_WRONG_P1P2);
            }
            app_set_current_command''',
     r'''                return handler_err(ctx, SW_WRONG_P1P2);
            }
            // only this step opens a prompt
            if (app_is_ui_busy()) {
                return res_ui_busy();
            }
            app_set_current_command''',
    ),
]
DEMO = r'''
void demo() {
    Bytes b = path_bytes({44 + H, 429 + H, H});
    NEED(cmd(0x10, 1, 0, b).prompt());
    Answer a = cmd(0x20, 5, 9, Bytes{0});
    EXPECT(a.n == 1 && a.sw == 0xB000, "a step of another command was answered %04x while a prompt was pending", a.sw);
    Answer r = approve();
    auto &k = wallet_key(7, {44 + H, 429 + H, H});
    EXPECT(r.ok() && r.data.size() == 65 && memcmp(r.data.data(), k.pk.data(), 33) == 0, "the approved key was not released");
}
'''
