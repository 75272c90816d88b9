PROPERTY = 'C13'
NEEDS = 'the public key cannot be computed after the private key was derived (the pair generation fails)'
BREAKS = 'the derived private key stays on the stack after the failed command'
EDITS = [
    ('src/helpers/crypto.c',
     r'''    if (result == 0) {
        // generate corresponding public key
        result = crypto_init_public_key(&private_key, &public_key, raw_public_key);
    }
''',
     r'''    if (result == 0) {
        // generate corresponding public key
        result = crypto_init_public_key(&private_key, &public_key, raw_public_key);
        if (result != 0) return result;
    }
''',
    ),
]
DEMO = r'''
#include "sdk/include/sim_abi.h"
void demo() {
    Bytes b = path_bytes({44 + H, 429 + H, H});
    for (int call : {SYS_DERIVE, SYS_INIT_PRIV, SYS_GENPAIR}) {
        Fault f;
        f.call = call;
        Answer a = cmd(0x10, 1, 0, b, {f});
        NEED(a.n == 1 && a.sw != 0x9000);
        std::string left = g_dev.scan({});
        EXPECT(left.empty(), "%s", left.c_str());
    }
}
'''
