PROPERTY = 'C11'
NEEDS = 'key derivation fails once for a change path, and the same path is used again later'
BREAKS = 'the cache of the last change key is marked before the key was computed: the next transaction signs an output to a wrong key'
EDITS = [
    ('src/commands/signtx/stx_handler.c',
     r'''    if (crypto_generate_public_key(path, path_len, pub_key, NULL) != 0) {
        return SW_INTERNAL_CRYPTO_ERROR;
    }
    return SW_OK;''',
     r'''    // change outputs of one transaction usually share a path: keep the last key
    static uint32_t last_path[MAX_BIP32_PATH];
    static uint8_t last_path_len;
    static uint8_t last_pub_key[PUBLIC_KEY_LEN];
    if (!bip32_path_is_equal(path, path_len, last_path, last_path_len)) {
        last_path_len = path_len;
        memmove(last_path, path, path_len * sizeof(uint32_t));
        if (crypto_generate_public_key(path, path_len, last_pub_key, NULL) != 0) {
            return SW_INTERNAL_CRYPTO_ERROR;
        }
    }
    memmove(pub_key, last_pub_key, PUBLIC_KEY_LEN);
    return SW_OK;''',
    ),
]
DEMO = r'''
#include "sdk/include/sim_abi.h"
void demo() {
    Tx t = simple_tx();
    auto f = attest_all(t);
    uint8_t s = sign_session(addr_path());
    NEED(up_head(s, t) && up_inputs(s, t, f));
    Answer a = up_out(s, t.outs[0]);
    NEED(a.ok() || a.prompt());
    a = up_out(s, t.outs[1]);
    NEED(a.ok());
    Bytes b;
    put(b, t.outs[2].value, 8);
    put(b, 0, 4);
    put(b, t.outs[2].height, 4);
    b.push_back(0);
    put(b, 0, 4);
    NEED(cmd(0x21, 0x15, s, b).ok());
    Fault x;
    x.call = SYS_DERIVE;
    a = cmd(0x21, 0x18, s, path_bytes(t.outs[2].path), {x});
    NEED(a.n == 1 && a.sw != 0x9000);
    Bytes sig = sign_all(t, addr_path(), f);
    EXPECT(verifies(sig, tx_bytes(t), addr_path()), "after a failed derivation the next transaction is signed with a wrong change key");
}
'''
