PROPERTY = 'C20'
NEEDS = 'a box whose number of tokens is more than four and not a multiple of four, and its last frame is fetched'
BREAKS = 'the last frame is padded to four tokens with what an earlier box or signing session left in the table'
EDITS = [
    ('src/commands/attestinput/ainpt_response.c',
     r'''    uint8_t tokens_count = (ctx->tokens_table.count - index * FRAME_MAX_TOKENS_COUNT);
    tokens_count = MIN(tokens_count, FRAME_MAX_TOKENS_COUNT);
''',
     r'''    uint8_t tokens_count = MIN(ctx->tokens_table.count, FRAME_MAX_TOKENS_COUNT);
''',
    ),
]
DEMO = r'''
void demo() {
    for (int n : {0, 1, 3, 4, 5, 7, 8, 9, 20}) {
        Box b;
        for (int i = 0; i < n; i++) b.tokens.push_back({id32(100 + i), (uint64_t) (50 + i)});
        auto f = attest(b);
        size_t total = 0;
        for (auto &x : f) {
            NEED(x.size() >= 59);
            total += x[42];
        }
        EXPECT((int) total == n, "a box of %d tokens was reported with %zu", n, total);
    }
}
'''
