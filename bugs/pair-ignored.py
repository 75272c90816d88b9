PROPERTY = 'C11'
NEEDS = 'the public key cannot be computed after the private key was derived'
BREAKS = 'the failure is ignored: the prompt is shown and a key made of leftover memory is released'
EDITS = [
    ('src/helpers/crypto.c',
     r'''        result = crypto_init_public_key(&private_key, &public_key, raw_public_key);
    }
    // reset private key and chaincode''',
     r'''        crypto_init_public_key(&private_key, &public_key, raw_public_key);
    }
    // reset private key and chaincode''',
    ),
]
DEMO = r'''
#include "sdk/include/sim_abi.h"
void demo() {
    Bytes b = path_bytes({44 + H, 429 + H, H});
    for (int call : {SYS_DERIVE, SYS_INIT_PRIV, SYS_GENPAIR}) {
        Fault f;
        f.call = call;
        Answer a = cmd(0x10, 1, 0, b, {f});
        if (a.prompt()) a = approve();
        EXPECT(a.n == 1 && a.sw != 0x9000, "a key was released although call %d failed", call);
    }
}
'''
