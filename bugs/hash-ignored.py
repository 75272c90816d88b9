PROPERTY = 'C20'
NEEDS = 'the hash cannot be finished when the user approves the summary'
BREAKS = 'the failure is ignored and the signature is built on, and so discloses, unused memory'
EDITS = [
    ('src/ergo/schnorr.c',
     r'''    if (!blake2b_256_finalize(hash, signature)) return false;

    // build c''',
     r'''    blake2b_256_finalize(hash, signature);

    // build c''',
    ),
]
DEMO = r'''
#include "sdk/include/sim_abi.h"
void demo() {
    Tx t = simple_tx();
    auto f = attest_all(t);
    uint8_t s = sign_session(addr_path());
    NEED(up_all(s, t, f));
    NEED(confirm(s).prompt());
    Fault x;
    x.call = SYS_HASH_FINAL;
    Answer a = approve(nullptr, {x});
    EXPECT(a.n == 1 && a.sw != 0x9000 && a.data.empty(), "a signature was released although its hash failed");
}
'''
