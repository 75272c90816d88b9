PROPERTY = 'C15'
NEEDS = 'an address request for a path of more than five components'
BREAKS = 'the prompt shows only the first five components, so the user approves another address than the one released'
EDITS = [
    ('src/commands/deriveaddress/da_ui.c',
     r'''        ui_bip32_path_screen(bip32_path,
                             bip32_path_len,
                             "Path",''',
     r'''        ui_bip32_path_screen(bip32_path,
                             MIN(bip32_path_len, 5),
                             "Path",''',
    ),
]
DEMO = r'''
void demo() {
    Path p = addr_path();
    for (int extra = 0; extra < 3; extra++) {
        Bytes b{0x00};
        put(b, path_bytes(p));
        NEED(cmd(0x11, 1, 1, b).prompt());
        std::vector<std::pair<std::string, std::string>> seen;
        NEED(approve(&seen).ok());
        std::string want = "m";
        std::string got;
        for (auto &x : seen)
            if (x.first.rfind("Path", 0) == 0) got += x.second;
        for (uint32_t c : p) want += "/" + std::to_string(c & ~H) + (c & H ? "'" : "");
        EXPECT(got.size() + 2 >= want.size() && want.find(got) != std::string::npos, "the prompt shows %s, released is %s", got.c_str(), want.c_str());
        p.push_back(3);
    }
}
'''
