PROPERTY = 'C15'
NEEDS = 'a trusted application asks for an address of a path outside the policy'
BREAKS = 'the path is checked only where the prompt is built: a trusted application, which gets no prompt, receives the address of any path'
EDITS = [
    ('src/commands/deriveaddress/da_handler.c',
     r'''    if (!bip32_path_validate(bip32_path,
                             bip32_path_len,
                             BIP32_HARDENED(44),
                             BIP32_HARDENED(BIP32_ERGO_COIN),
                             BIP32_PATH_VALIDATE_ADDRESS_GE5)) {
        return handler_err(ctx, SW_BIP32_BAD_PATH);
    }

''',
     r'''''',
    ),
]
DEMO = r'''
void demo() {
    Bytes b{0x00};
    put(b, path_bytes(addr_path()));
    put(b, 0xCAFE1234, 4);
    NEED(cmd(0x11, 1, 2, b).prompt());
    NEED(approve().ok());
    NEED(cmd(0x11, 1, 2, b).ok());
    for (Path p : {Path{44 + H, 429 + H, H}, Path{44 + H, 60 + H, H, 0, 0}, Path{44 + H, 429 + H, H, 0, H}, Path{44 + H, 429 + H, H, 2, 0}}) {
        Bytes c{0x00};
        put(c, path_bytes(p));
        put(c, 0xCAFE1234, 4);
        Answer a = cmd(0x11, 1, 2, c);
        EXPECT(a.n == 1 && a.sw != 0x9000, "an address outside the path policy was released");
    }
}
'''
