PROPERTY = 'C09'
NEEDS = 'key derivation fails after the user approved the final summary'
BREAKS = 'the command is answered twice, so every later answer is taken for that of the command before'
EDITS = [
    ('src/commands/signtx/operations/stx_op_p2pk.c',
     r'''    if (crypto_generate_private_key(ctx->bip32.path, ctx->bip32.len, secret) != 0) {
        explicit_bzero(ctx->schnorr_key, PRIVATE_KEY_LEN);
        app_set_current_command(CMD_NONE);
        res_error(SW_INTERNAL_CRYPTO_ERROR);
        return;
    }

    bool finished =
        ergo_secp256k1_schnorr_p2pk_sign_finish(signature, &ctx->tx_hash, secret, ctx->schnorr_key);
''',
     r'''    bool finished = false;
    if (crypto_generate_private_key(ctx->bip32.path, ctx->bip32.len, secret) == 0) {
        finished = ergo_secp256k1_schnorr_p2pk_sign_finish(signature,
                                                           &ctx->tx_hash,
                                                           secret,
                                                           ctx->schnorr_key);
    } else {
        res_error(SW_INTERNAL_CRYPTO_ERROR);
    }
''',
    ),
]
DEMO = r'''
#include "sdk/include/sim_abi.h"
void demo() {
    Tx t = simple_tx();
    for (int call : {SYS_DERIVE, SYS_INIT_PRIV, SYS_MULTM, SYS_ADDM, SYS_HASH_FINAL}) {
        auto f = attest_all(t);
        uint8_t s = sign_session(addr_path());
        NEED(up_all(s, t, f));
        NEED(confirm(s).prompt());
        Fault x;
        x.call = call;
        Answer a = approve(nullptr, {x});
        EXPECT(a.n == 1, "%d answers to one command", a.n);
        EXPECT(a.sw != 0x9000 && at_menu(), "the failure was not reported");
    }
}
'''
