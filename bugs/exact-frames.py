PROPERTY = 'C05'
NEEDS = 'a box whose number of tokens is a multiple of four'
BREAKS = 'one frame more than needed is reported, and it carries no tokens'
EDITS = [
    ('src/commands/attestinput/ainpt_response.c',
     r'''    uint8_t frames_count = (tokens_count + (FRAME_MAX_TOKENS_COUNT - 1)) / FRAME_MAX_TOKENS_COUNT;
    return frames_count == 0 ? 1 : frames_count;''',
     r'''    return tokens_count / FRAME_MAX_TOKENS_COUNT + 1;''',
    ),
]
DEMO = r'''
void demo() {
    for (int n = 0; n <= 20; n++) {
        Box x;
        for (int i = 0; i < n; i++) x.tokens.push_back({id32(100 + i), 5});
        auto f = attest(x);
        EXPECT((int) f.size() == (n == 0 ? 1 : (n + 3) / 4), "%d tokens are reported in %d frames", n, (int) f.size());
    }
}
'''
