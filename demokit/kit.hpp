// A host, a user and a wallet checker for demonstrations: drives the real application on the simulated device.
#pragma once
#include "sim/device.hpp"
#include <cstdio>
#include <cstdlib>
#include <functional>
typedef std::vector<uint32_t> Path;
static const uint32_t H = 0x80000000u;
inline uint32_t g_id = 0;
inline int g_bad = 0;
#define EXPECT(c, ...)                      \
    do {                                    \
        if (!(c)) {                         \
            printf("BROKEN: " __VA_ARGS__); \
            printf("\n");                   \
            g_bad = 1;                      \
        }                                   \
    } while (0)
// The preparation of a demonstration must go through; if the device refuses an honest host, that is a failure too.
#define NEED(c)                                                             \
    do {                                                                    \
        if (!(c)) {                                                         \
            printf("the honest part failed at line %d: %s\n", __LINE__, #c); \
            exit(3);                                                        \
        }                                                                   \
    } while (0)
inline void put(Bytes &b, uint64_t v, int n) {
    for (int i = n - 1; i >= 0; i--) b.push_back((uint8_t) (v >> (8 * i)));
}
inline void put(Bytes &b, const Bytes &x) { b.insert(b.end(), x.begin(), x.end()); }
inline void vlq(Bytes &b, uint64_t v) {
    do {
        uint8_t c = v & 0x7f;
        v >>= 7;
        b.push_back((uint8_t) (c | (v ? 0x80 : 0)));
    } while (v);
}
inline Bytes id32(unsigned seed) {
    Bytes b;
    put(b, seed, 4);
    B32 h = blake2b256(b);
    return Bytes(h.begin(), h.end());
}
struct Answer {
    int n = 0;  // answers given to the event
    uint16_t sw = 0;
    Bytes data;
    bool ok() const { return n == 1 && sw == 0x9000; }
    bool prompt() const { return n == 0; }
};
inline Answer event(Event e) {
    e.id = ++g_id;
    g_dev.run(e, 0);
    Answer a;
    a.n = (int) g_dev.responses.size();
    if (a.n) {
        a.sw = g_dev.responses.back().sw;
        a.data = g_dev.responses.back().data;
    }
    if (g_dev.state != DEV_WAITING) {
        printf("BROKEN: the device stopped (state %d)\n", g_dev.state);
        exit(1);
    }
    return a;
}
typedef std::vector<Fault> Faults;
typedef std::vector<RngOverride> Draws;
inline Answer raw(const Bytes &apdu, const Faults &f = {}, const Draws &d = {}) {
    Event e;
    e.kind = EV_APDU;
    e.apdu = apdu;
    e.faults = f;
    e.rng = d;
    return event(e);
}
inline Answer cmd(int ins, int p1, int p2, const Bytes &data = {}, const Faults &f = {}, const Draws &d = {}) {
    Bytes a{0xE0, (uint8_t) ins, (uint8_t) p1, (uint8_t) p2, (uint8_t) data.size()};
    put(a, data);
    return raw(a, f, d);
}
inline Answer button(EvKind k, const Faults &f = {}) {
    Event e;
    e.kind = k;
    e.faults = f;
    return event(e);
}
inline void boot(uint64_t wallet = 7) {
    static bool once = false;
    if (!once) {
        RunConfig c;
        c.seed = 4242;
        c.wallet = wallet;
        g_dev.configure(c);
        once = true;
    }
    Event e;
    e.kind = EV_BOOT;
    event(e);
}
inline Display shown() { return g_dev.display(); }
inline bool at_menu() {
    Display d = shown();
    return d.a == "Ergo" && d.b == "is ready";
}
// Walks right to the screen with this first line; everything passed is collected.
inline bool walk(const std::string &to, std::vector<std::pair<std::string, std::string>> *seen = nullptr) {
    for (int i = 0; i < 400; i++) {
        Display d = shown();
        if (d.a == to) return true;
        if (seen && (seen->empty() || seen->back() != std::make_pair(d.a, d.b))) seen->push_back({d.a, d.b});
        button(EV_RIGHT);
    }
    return false;
}
inline Answer approve(std::vector<std::pair<std::string, std::string>> *seen = nullptr, const Faults &f = {}) {
    NEED(walk("Approve", seen));
    return button(EV_BOTH, f);
}
inline Answer reject() {
    NEED(walk("Reject"));
    return button(EV_BOTH);
}
inline std::string text_of(const std::vector<std::pair<std::string, std::string>> &s, const std::string &title) {
    for (auto &x : s)
        if (x.first == title) return x.second;
    return "";
}
inline Bytes path_bytes(const Path &p) {
    Bytes b{(uint8_t) p.size()};
    for (uint32_t c : p) put(b, c, 4);
    return b;
}
inline Path addr_path(uint32_t acc = 0, uint32_t chain = 0, uint32_t i = 0) { return {44 + H, 429 + H, acc + H, chain, i}; }
// ---------------------------------------------------------------- boxes and transactions
struct Tok {
    Bytes id;
    uint64_t v;
};
struct Box {  // an existing box, to be attested and spent
    Bytes txid = id32(900);
    uint16_t index = 0;
    uint64_t value = 1000000000;
    Bytes tree{0x00, 0x08, 0xcd, 0x02, 0x11};
    uint32_t height = 700000;
    std::vector<Tok> tokens;
    Bytes regs;
    Bytes bytes() const {
        Bytes b;
        vlq(b, value);
        put(b, tree);
        vlq(b, height);
        b.push_back((uint8_t) tokens.size());
        for (auto &t : tokens) {
            put(b, t.id);
            vlq(b, t.v);
        }
        if (regs.empty()) b.push_back(0);
        put(b, regs);
        put(b, txid);
        vlq(b, index);
        return b;
    }
    Bytes id() const {
        B32 h = blake2b256(bytes());
        return Bytes(h.begin(), h.end());
    }
};
inline Bytes attest_head(const Box &x, bool token = false, uint32_t tok = 0) {
    Bytes b = x.txid;
    put(b, x.index, 2);
    put(b, x.value, 8);
    put(b, x.tree.size(), 4);
    put(b, x.height, 4);
    b.push_back((uint8_t) x.tokens.size());
    put(b, x.regs.size(), 4);
    if (token) put(b, tok, 4);
    return b;
}
// Opens an attestation session; returns its number.
inline uint8_t attest_open(const Box &x, bool token = false, uint32_t tok = 0) {
    Answer a = cmd(0x20, 1, token ? 2 : 1, attest_head(x, token, tok));
    if (a.prompt()) a = approve();
    NEED(a.ok() && a.data.size() == 1);
    return a.data[0];
}
inline Answer attest_upload(uint8_t sid, const Box &x, const Faults &last = {}) {
    Answer a;
    size_t left = (x.tree.size() + 254) / 255 + (x.tokens.size() + 5) / 6 + (x.regs.size() + 254) / 255;
    auto f = [&] { return --left ? Faults{} : last; };
    for (size_t o = 0; o < x.tree.size(); o += 255) a = cmd(0x20, 2, sid, Bytes(x.tree.begin() + o, x.tree.begin() + std::min(x.tree.size(), o + 255)), f());
    for (size_t i = 0; i < x.tokens.size(); i += 6) {
        Bytes b;
        for (size_t j = i; j < std::min(x.tokens.size(), i + 6); j++) {
            put(b, x.tokens[j].id);
            put(b, x.tokens[j].v, 8);
        }
        a = cmd(0x20, 3, sid, b, f());
    }
    for (size_t o = 0; o < x.regs.size(); o += 255) a = cmd(0x20, 4, sid, Bytes(x.regs.begin() + o, x.regs.begin() + std::min(x.regs.size(), o + 255)), f());
    return a;
}
inline std::vector<Bytes> attest(const Box &x, bool token = false, uint32_t tok = 0) {
    uint8_t sid = attest_open(x, token, tok);
    Answer a = attest_upload(sid, x);
    NEED(a.ok() && a.data.size() == 1);
    std::vector<Bytes> fr;
    for (int i = 0; i < a.data[0]; i++) {
        Answer g = cmd(0x20, 5, sid, Bytes{(uint8_t) i});
        NEED(g.ok());
        fr.push_back(g.data);
    }
    return fr;
}
enum OutKind { TREE, FEE, CHANGE };
struct Out {
    OutKind kind = TREE;
    uint64_t value = 0;
    Bytes tree;  // TREE
    Path path;   // CHANGE
    uint32_t height = 700001;
    std::vector<std::pair<uint32_t, uint64_t>> tokens;  // index in the table, amount
    Bytes regs;
};
struct Tx {
    std::vector<Box> inputs;
    std::vector<Bytes> ext;  // per input
    std::vector<Bytes> data;
    std::vector<Bytes> table;
    std::vector<Out> outs;
};
extern const Bytes FEE_TREE;
inline Bytes out_tree(const Out &o) {
    if (o.kind == TREE) return o.tree;
    if (o.kind == FEE) return FEE_TREE;
    Bytes t{0x00, 0x08, 0xcd};
    B33 pk = wallet_key(g_dev.cfg.wallet, o.path).pk;
    t.insert(t.end(), pk.begin(), pk.end());
    return t;
}
inline Bytes tx_bytes(const Tx &t) {
    Bytes b;
    vlq(b, t.inputs.size());
    for (size_t i = 0; i < t.inputs.size(); i++) {
        put(b, t.inputs[i].id());
        b.push_back(0);
        if (i < t.ext.size() && !t.ext[i].empty())
            put(b, t.ext[i]);
        else
            b.push_back(0);
    }
    vlq(b, t.data.size());
    for (auto &d : t.data) put(b, d);
    vlq(b, t.table.size());
    for (auto &d : t.table) put(b, d);
    vlq(b, t.outs.size());
    for (auto &o : t.outs) {
        vlq(b, o.value);
        put(b, out_tree(o));
        vlq(b, o.height);
        b.push_back((uint8_t) o.tokens.size());
        for (auto &k : o.tokens) {
            vlq(b, k.first);
            vlq(b, k.second);
        }
        if (o.regs.empty()) b.push_back(0);
        put(b, o.regs);
    }
    return b;
}
// Does the 56-byte answer sign these bytes under the key of this path?
inline bool verifies(const Bytes &sig, const Bytes &msg, const Path &path) {
    if (sig.size() != 56) return false;
    B33 pk = wallet_key(g_dev.cfg.wallet, path).pk;
    uint8_t cb[32] = {0};
    memcpy(cb + 8, sig.data(), 24);
    U256 c = u256_from_be(cb), z = u256_from_be(sig.data() + 24);
    Point P;
    if (!ec_decompress(pk.data(), P)) return false;
    Point w = ec_add(ec_mul_g(z), ec_neg(ec_mul(P, c)));
    if (w.inf) return false;
    B33 wc = ec_compress(w);
    Bytes m{0x01, 0x00, 0x27, 0x10, 0x01, 0x08, 0xcd};
    m.insert(m.end(), pk.begin(), pk.end());
    put(m, Bytes{0x73, 0x00, 0x00, 0x21});
    m.insert(m.end(), wc.begin(), wc.end());
    put(m, msg);
    B32 h = blake2b256(m);
    return memcmp(h.data(), sig.data(), 24) == 0;
}
inline Answer sign_open(const Path &p, const Faults &f = {}, const Draws &d = {}, bool token = false, uint32_t tok = 0) {
    Bytes b{0x00};
    put(b, path_bytes(p));
    if (token) put(b, tok, 4);
    return cmd(0x21, 1, token ? 2 : 1, b, f, d);
}
inline uint8_t sign_session(const Path &p, const Faults &f = {}, const Draws &d = {}) {
    Answer a = sign_open(p, f, d);
    NEED(a.prompt());
    a = approve();
    NEED(a.ok() && a.data.size() == 1);
    return a.data[0];
}
inline Bytes start_bytes(const Tx &t) {
    Bytes b;
    put(b, t.inputs.size(), 2);
    put(b, t.data.size(), 2);
    b.push_back((uint8_t) t.table.size());
    put(b, t.outs.size(), 2);
    return b;
}
struct Reviewed {
    std::vector<std::pair<std::string, std::string>> screens;  // of the prompt, empty when accepted silently
};
inline bool up_tokens(uint8_t s, const Tx &t) {
    for (size_t i = 0; i < t.table.size(); i += 7) {
        Bytes b;
        for (size_t j = i; j < std::min(t.table.size(), i + 7); j++) put(b, t.table[j]);
        if (!cmd(0x21, 0x11, s, b).ok()) return false;
    }
    return true;
}
inline bool up_inputs(uint8_t s, const Tx &t, const std::vector<std::vector<Bytes>> &frames) {
    for (size_t i = 0; i < t.inputs.size(); i++) {
        Bytes ext = i < t.ext.size() ? t.ext[i] : Bytes{};
        for (size_t k = 0; k < frames[i].size(); k++) {
            Bytes b = frames[i][k];
            if (k == 0) put(b, ext.size(), 4);
            if (!cmd(0x21, 0x12, s, b).ok()) return false;
        }
        for (size_t o = 0; o < ext.size(); o += 255)
            if (!cmd(0x21, 0x13, s, Bytes(ext.begin() + o, ext.begin() + std::min(ext.size(), o + 255))).ok()) return false;
    }
    return true;
}
inline bool up_data(uint8_t s, const Tx &t) {
    for (size_t i = 0; i < t.data.size(); i += 7) {
        Bytes b;
        for (size_t j = i; j < std::min(t.data.size(), i + 7); j++) put(b, t.data[j]);
        if (!cmd(0x21, 0x14, s, b).ok()) return false;
    }
    return true;
}
// Uploads one output; opens its prompt (approved) or not. Returns the last answer before the approval.
inline Answer up_out(uint8_t s, const Out &o, std::vector<std::pair<std::string, std::string>> *seen = nullptr, bool review = true) {
    Bytes b;
    put(b, o.value, 8);
    put(b, o.kind == TREE ? o.tree.size() : 0, 4);
    put(b, o.height, 4);
    b.push_back((uint8_t) o.tokens.size());
    put(b, o.regs.size(), 4);
    Answer a = cmd(0x21, 0x15, s, b);
    if (!a.ok()) return a;
    if (o.kind == FEE) a = cmd(0x21, 0x17, s);
    if (o.kind == CHANGE) a = cmd(0x21, 0x18, s, path_bytes(o.path));
    if (o.kind == TREE)
        for (size_t k = 0; k < o.tree.size(); k += 255) {
            a = cmd(0x21, 0x16, s, Bytes(o.tree.begin() + k, o.tree.begin() + std::min(o.tree.size(), k + 255)));
            if (a.n && a.sw != 0x9000) return a;
        }
    for (size_t i = 0; i < o.tokens.size() && a.ok(); i += 21) {
        Bytes t;
        for (size_t j = i; j < std::min(o.tokens.size(), i + 21); j++) {
            put(t, o.tokens[j].first, 4);
            put(t, o.tokens[j].second, 8);
        }
        a = cmd(0x21, 0x19, s, t);
    }
    for (size_t k = 0; k < o.regs.size() && a.ok(); k += 255) a = cmd(0x21, 0x1A, s, Bytes(o.regs.begin() + k, o.regs.begin() + std::min(o.regs.size(), k + 255)));
    if (a.prompt() && review) {
        Answer r = approve(seen);
        if (!r.ok()) return r;
    }
    return a;
}
inline bool up_head(uint8_t s, const Tx &t) { return cmd(0x21, 0x10, s, start_bytes(t)).ok(); }
inline bool up_all(uint8_t s, const Tx &t, const std::vector<std::vector<Bytes>> &frames) {
    if (!up_head(s, t) || !up_tokens(s, t) || !up_inputs(s, t, frames) || !up_data(s, t)) return false;
    for (auto &o : t.outs) {
        Answer a = up_out(s, o);
        if (!(a.ok() || a.prompt())) return false;
    }
    return true;
}
inline std::vector<std::vector<Bytes>> attest_all(const Tx &t) {
    std::vector<std::vector<Bytes>> f;
    for (auto &i : t.inputs) f.push_back(attest(i));
    return f;
}
inline Answer confirm(uint8_t s) { return cmd(0x21, 0x20, s); }
inline Bytes p2pk_tree(unsigned n) {
    Bytes t{0x00, 0x08, 0xcd, 0x02};
    Bytes x = id32(n);
    put(t, x);
    return t;
}
inline Tx simple_tx(uint64_t in = 1000000000, uint64_t pay = 900000000, uint64_t fee = 1000000) {
    Tx t;
    Box b;
    b.value = in;
    t.inputs.push_back(b);
    Out o;
    o.value = pay;
    o.tree = p2pk_tree(5);
    t.outs.push_back(o);
    Out f;
    f.kind = FEE;
    f.value = fee;
    t.outs.push_back(f);
    Out c;
    c.kind = CHANGE;
    c.value = in - pay - fee;
    c.path = addr_path(0, 0, 1);
    if (c.value) t.outs.push_back(c);
    return t;
}
// One complete honest signing; the signature must verify.
inline Bytes sign_all(const Tx &t, const Path &p, const std::vector<std::vector<Bytes>> &frames) {
    uint8_t s = sign_session(p);
    NEED(up_all(s, t, frames));
    NEED(confirm(s).prompt());
    Answer a = approve();
    NEED(a.ok());
    return a.data;
}
