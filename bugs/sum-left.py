PROPERTY = 'C13'
NEEDS = 'the modular addition of the final signature fails'
BREAKS = 'the product of the challenge and the private key stays on the stack'
EDITS = [
    ('src/ergo/schnorr.c',
     r'''    bool result =
        cx_math_multm_no_throw(buf, buf, secret, PIC(SECP256K1_N), PRIVATE_KEY_LEN) == 0 &&
        cx_math_addm_no_throw(signature + ERGO_SOUNDNESS_BYTES,
                              key,
                              buf,
                              PIC(SECP256K1_N),
                              PRIVATE_KEY_LEN) == 0;

    // always clear c * secret
    explicit_bzero(buf, sizeof(buf));

    return result;''',
     r'''    if (cx_math_multm_no_throw(buf, buf, secret, PIC(SECP256K1_N), PRIVATE_KEY_LEN) != 0) {
        return false;
    }
    if (cx_math_addm_no_throw(signature + ERGO_SOUNDNESS_BYTES,
                              key,
                              buf,
                              PIC(SECP256K1_N),
                              PRIVATE_KEY_LEN) != 0) {
        return false;
    }
    // clear c * secret
    explicit_bzero(buf, sizeof(buf));

    return true;''',
    ),
]
DEMO = r'''
#include "sdk/include/sim_abi.h"
void demo() {
    Tx t = simple_tx();
    for (int call : {SYS_MULTM, SYS_ADDM}) {
        auto f = attest_all(t);
        uint8_t s = sign_session(addr_path());
        NEED(up_all(s, t, f));
        NEED(confirm(s).prompt());
        Fault x;
        x.call = call;
        Answer a = approve(nullptr, {x});
        NEED(a.n == 1 && a.sw != 0x9000);
        std::string left = g_dev.scan({});
        EXPECT(left.empty(), "%s", left.c_str());
    }
}
'''
