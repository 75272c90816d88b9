#include "model.hpp"
#include <algorithm>
const Bytes FEE_TREE = unhex("1005040004000e36100204a00b08cd0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798ea02d192a39a8cc7a701730073011001020402d19683030193a38cc7b2a57300000193c2b2a57301007473027303830108cdeeac93b1a57304");
const Bytes P2SH_PREFIX = unhex("00ea02d193b4cbe4e3010e040004300e18"), P2SH_SUFFIX = unhex("d40801");
static const uint32_t MAXPART = 32768;
static const unsigned MAXTOK = 20;

// ------------------------------------------------------------------ helpers
std::string path_text(const Path &p) {
    std::string s;
    for (size_t i = 0; i < p.size(); i++) {
        if (i) s += "/";
        s += std::to_string(p[i] & ~HARD);
        if (p[i] & HARD) s += "'";
    }
    return s;
}
std::string erg_text(uint64_t v) {
    std::string d = std::to_string(v);
    while (d.size() < 10) d = "0" + d;
    return d.substr(0, d.size() - 9) + "." + d.substr(d.size() - 9) + " ERG";
}
static bool root_ok(const Path &p) { return p.size() > 2 && p.size() <= 10 && p[0] == (HARD | 44) && p[1] == (HARD | 429); }
bool path_epk_ok(const Path &p) {
    if (!root_ok(p)) return false;
    for (size_t i = 2; i < p.size(); i++)
        if (!(p[i] & HARD)) return false;
    return true;
}
bool path_addr_ok(const Path &p) {
    if (!root_ok(p) || p.size() < 5 || !(p[2] & HARD) || p[3] > 1) return false;
    for (size_t i = 4; i < p.size(); i++)
        if (p[i] & HARD) return false;
    return true;
}
static Bytes with_checksum(Bytes b) {
    B32 h = blake2b256(b);
    b.insert(b.end(), h.begin(), h.begin() + 4);
    return b;
}
Bytes address_bytes(uint8_t net, const B33 &pk) {
    Bytes b{(uint8_t) (net + 1)};
    b.insert(b.end(), pk.begin(), pk.end());
    return with_checksum(b);
}
Bytes script_address(uint8_t net, const uint8_t *h) {
    Bytes b{(uint8_t) (net + 2)};
    b.insert(b.end(), h, h + 24);
    return with_checksum(b);
}
void vlq(Bytes &b, uint64_t v) {
    while (v >= 0x80) {
        b.push_back((uint8_t) (v | 0x80));
        v >>= 7;
    }
    b.push_back((uint8_t) v);
}
static void put(Bytes &b, const uint8_t *p, size_t n) { b.insert(b.end(), p, p + n); }
static void put(Bytes &b, const Bytes &c) { b.insert(b.end(), c.begin(), c.end()); }
static std::string token_text(const B32 &id, bool nanos) {
    std::string h = hex(id.data(), 32);
    for (auto &c : h) c = (char) toupper(c);
    size_t k = nanos ? 7 : 26;
    return h.substr(0, k) + "..." + h.substr(64 - k);
}
struct Rd {
    const Bytes &d;
    size_t o = 0;
    bool ok = true;
    explicit Rd(const Bytes &b) : d(b) {}
    size_t left() const { return d.size() - o; }
    uint64_t be(int n) {
        if (left() < (size_t) n) {
            ok = false;
            return 0;
        }
        uint64_t v = 0;
        while (n--) v = v << 8 | d[o++];
        return v;
    }
    Bytes bytes(size_t n) {
        if (left() < n) {
            ok = false;
            return Bytes(n);
        }
        Bytes r(d.begin() + o, d.begin() + o + n);
        o += n;
        return r;
    }
    B32 id() {
        B32 r{};
        Bytes b = bytes(32);
        std::copy(b.begin(), b.end(), r.begin());
        return r;
    }
    Path path() {
        Path p;
        unsigned n = (unsigned) be(1);
        if (n == 0 || n > 10) ok = false;
        for (unsigned i = 0; ok && i < n; i++) p.push_back((uint32_t) be(4));
        return p;
    }
};
// ------------------------------------------------------------------ expectations
Expect Model::err(uint32_t tags, const char *why) {
    Expect e;
    e.k = Expect::ERR;
    e.tags = tags;
    e.why = why;
    close(tags | T07);
    return e;
}
Expect Model::ok(uint32_t tags) {
    Expect e;
    e.k = Expect::OK_EMPTY;
    e.tags = tags | T09;
    e.dtags = tags | T09;
    return e;
}
Expect Model::prompt(Prompt q, uint32_t tags) {
    Screen ap, rj;
    ap.a = "Approve";
    rj.a = "Reject";
    q.approve = (int) q.screens.size();
    q.screens.push_back(ap);
    q.reject = (int) q.screens.size();
    q.screens.push_back(rj);
    open_prompt(q);
    Expect e;
    e.k = Expect::PROMPT;
    e.prompt = q;
    e.tags = tags;
    return e;
}
static Screen scr(const std::string &a, const std::string &b = "", uint32_t tags = 0, bool paging = false) {
    Screen s;
    s.a = a;
    s.b = b;
    s.tags = tags;
    s.paging = paging;
    return s;
}
static Screen app_screen(uint32_t tok) {
    char t[16];
    snprintf(t, sizeof t, "0x%08x", tok);
    return scr("Application", t, T10);
}
void Model::boot() {
    ModelCfg c = cfg;
    std::set<Bytes> old = old_frames;
    old.insert(attested.begin(), attested.end());
    *this = Model();
    cfg = c;
    old_frames = old;
}
std::vector<Screen> Model::menu() const {
    if (about) return {scr("Ergo App", "(c) 2024 Ergo"), scr("Version", APP_VERSION), scr("Back")};
    return {scr("Ergo", "is ready"), scr("About"), scr("Quit")};
}
// ------------------------------------------------------------------ dispatch
Expect Model::predict(const Bytes &a) {
    Expect e;
    e.no_effect = true;
    auto refuse = [&](const char *why) {
        e.k = Expect::ERR;
        e.tags = T17;
        e.why = why;
        s.extra |= A17;
        if (busy()) p.injected = true;
        return e;
    };
    if (a.size() < 5 || a[4] != a.size() - 5) return refuse("bad length");
    if (a[0] != 0xE0) return refuse("unknown class");
    uint8_t ins = a[1], p1 = a[2], p2 = a[3];
    Bytes d(a.begin() + 5, a.end());
    if (ins == 0x01 || ins == 0x02) {
        if (p1 || p2) return refuse("status query with parameters");
        if (!d.empty()) return refuse("status query with data");
        e.k = Expect::OK_DATA;
        std::string n = "Ergo";
        e.data = ins == 1 ? Bytes{APP_MAJOR, APP_MINOR, APP_PATCH, 0} : Bytes(n.begin(), n.end());
        e.tags = e.dtags = T08 | T17 | T09;
        s.extra |= A08 | A17;
        if (busy()) p.injected = true;
        return e;
    }
    if (ins == 0x10 && (p1 == 0 || p1 > 2 || p2 != 0)) return refuse("bad parameters");
    if (ins == 0x11 && (p1 == 0 || p1 > 2 || p2 == 0 || p2 > 2)) return refuse("bad parameters");
    if ((ins == 0x20 || ins == 0x21) && (p1 == 0 || p2 == 0)) return refuse("bad parameters");
    if (ins != 0x10 && ins != 0x11 && ins != 0x20 && ins != 0x21) return refuse("unknown instruction");
    if (busy()) {
        e.k = Expect::BUSY;
        e.tags = e.dtags = T08 | T09;
        e.why = "a prompt is pending";
        p.injected = true;
        s.extra |= A08;
        return e;
    }
    e = ins == 0x10 ? epk(d, p1 == 2) : ins == 0x11 ? addr(d, p1 == 2, p2 == 2) : ins == 0x20 ? attest(p1, p2, d) : sign(p1, p2, d);
    return e;
}
// ------------------------------------------------------------------ keys and addresses
static void add_path(Prompt &q, const std::string &title, const Path &path, bool &maybe) {
    std::string t = path_text(path);
    q.path = (int) q.screens.size();
    q.screens.push_back(scr(title, t, T15, true));
    (void) maybe;
}
Expect Model::epk(const Bytes &d, bool tok) {
    close();
    Rd r(d);
    Path path = r.path();
    uint32_t t = tok ? (uint32_t) r.be(4) : 0;
    if (!r.ok) return err(T15 | T17, "truncated public key request");
    if (r.left()) return err(T15 | T17, "trailing data in a public key request");
    if (!path_epk_ok(path)) return err(T15, "path outside the export policy");
    const KeyPair &k = wallet_key(cfg.wallet, path);
    Bytes res(k.pk.begin(), k.pk.end());
    put(res, k.chain.data(), 32);
    pending_token = t;
    pending_data = res;
    if (t != 0 && t == connected) {
        Expect e;
        e.k = Expect::OK_DATA;
        e.data = res;
        e.tags = T10 | T15 | T09;
        e.dtags = T15;
        return e;
    }
    Prompt q;
    bool maybe = false;
    q.kind = PK_EPK;
    q.screens.push_back(scr("Ext PubKey Export", "", T15));
    add_path(q, "Path", path, maybe);
    if (t != 0) q.screens.push_back(app_screen(t));
    Expect e = prompt(q, T15 | T10);
    e.or_err = maybe;
    return e;
}
Expect Model::addr(const Bytes &d, bool display, bool tok) {
    close();
    Rd r(d);
    uint8_t net = (uint8_t) r.be(1);
    Path path = r.path();
    uint32_t t = tok ? (uint32_t) r.be(4) : 0;
    if (!r.ok) return err(T15 | T17, "truncated address request");
    if (r.left()) return err(T15 | T17, "trailing data in an address request");
    if (!path_addr_ok(path)) return err(T15, "path outside the address policy");
    Bytes res = address_bytes(net, wallet_key(cfg.wallet, path).pk);
    pending_token = t;
    pending_data = display ? Bytes() : res;
    if (!display && t != 0 && t == connected) {
        Expect e;
        e.k = Expect::OK_DATA;
        e.data = res;
        e.tags = T10 | T15 | T09;
        e.dtags = T15;
        e.or_err = net > 252;
        return e;
    }
    Prompt q;
    bool maybe = net > 252;
    q.kind = PK_ADDR;
    q.screens.push_back(scr(display ? "Confirm Address" : "Confirm Send Address", "", T15));
    add_path(q, "Path", path, maybe);
    if (display) q.screens.push_back(scr("Address", base58(res), T15, true));
    if (t != 0) q.screens.push_back(app_screen(t));
    Expect e = prompt(q, T15 | T10);
    e.or_err = maybe;
    return e;
}
// ------------------------------------------------------------------ attestation
static void attest_finish(AttestS &a) {
    if (a.reg_size == 0) a.ser.push_back(0);
    Bytes b = a.ser;
    put(b, a.txid);
    vlq(b, a.index);
    a.box_id = blake2b256(b);
    a.st = AttestS::DONE;
}
static void attest_after_tokens(AttestS &a) {
    if (a.reg_size == 0)
        attest_finish(a);
    else
        a.st = AttestS::REGS;
}
Expect Model::attest(uint8_t p1, uint8_t p2, const Bytes &d) {
    Expect e;
    if (p1 < 1 || p1 > 5 || (p1 == 1 && p2 > 2)) {
        e.k = Expect::ERR;
        e.tags = T17 | T16;
        e.why = "unknown attestation step";
        if (s.k != Session::NONE) s.maybe_closed = true;
        return e;
    }
    if (p1 != 1) return session_cmd(true, p1, p2, d);
    uint32_t over = s.k != Session::NONE && s.approved ? A07 : 0;  // takes the place of a session in progress: no trace of that may remain
    close();
    Rd r(d);
    AttestS a;
    a.txid = r.bytes(32);
    a.index = (uint16_t) r.be(2);
    a.value = r.be(8);
    uint32_t tree = (uint32_t) r.be(4);
    a.height = (uint32_t) r.be(4);
    a.ntok = (unsigned) r.be(1);
    a.reg_size = (uint32_t) r.be(4);
    a.token = p2 == 2 ? (uint32_t) r.be(4) : 0;
    if (!r.ok) return err(T16 | T17, "truncated attestation request");
    if (r.left()) return err(T16 | T17, "trailing data in an attestation request");
    if (a.ntok > MAXTOK) return err(T16, "more than 20 tokens in a box");
    if (tree > MAXPART || a.reg_size > MAXPART) return err(T16, "box part beyond the size limit");
    a.tree_left = tree;
    a.reg_left = a.reg_size;
    a.tok_left = a.ntok;
    vlq(a.ser, a.value);
    s.k = Session::ATTEST;
    s.a = a;
    s.extra |= over;
    pending_token = a.token;
    if (a.token != 0 && a.token == connected) {
        e.k = Expect::SESSION_ID;
        e.tags = T10 | T16 | T09;
        return e;
    }
    Prompt q;
    q.kind = PK_ATTEST;
    q.screens.push_back(scr("Confirm Attest Input", "", T10));
    if (a.token != 0) q.screens.push_back(app_screen(a.token));
    return prompt(q, T10);
}
Expect Model::session_cmd(bool att, uint8_t p1, uint8_t p2, const Bytes &d) {
    uint32_t extra = s.extra;
    bool maybe = s.maybe_closed;
    Expect e;
    if (s.k == Session::NONE || !s.approved)
        e = err(T07 | T16 | (s.k == Session::NONE && grave.k == (att ? Session::ATTEST : Session::SIGN) && grave.id == p2 ? cause : 0), "no session of this kind is open");
    else if ((s.k == Session::ATTEST) != att)
        e = err(T07, "the open session is of the other kind");
    else if (p2 != s.id)
        e = err(T07, "wrong session number");
    else if (!att)
        e = sign(p1, 0, d);
    else {
        AttestS &a = s.a;
        size_t n = d.size();
        auto finished = [&] {
            if (a.st != AttestS::DONE) return ok(T16 | T05);
            Expect f;
            f.k = Expect::OK_DATA;
            f.data = {(uint8_t) std::max(1u, (a.ntok + 3) / 4)};
            f.tags = T16 | T05 | T09;
            f.dtags = T05;
            return f;
        };
        switch (p1) {
            case 2:
                if (a.st != AttestS::TREE) {
                    e = err(T16 | T05, "tree data out of order");
                } else if (n > a.tree_left) {
                    e = err(T16 | T05, "more tree data than declared");
                } else if (n < a.tree_left && n < 255) {
                    e = err(T16, "short tree chunk");
                } else {
                    put(a.ser, d);
                    a.tree_left -= (uint32_t) n;
                    if (a.tree_left == 0) {
                        vlq(a.ser, a.height);
                        vlq(a.ser, a.ntok);
                        a.st = AttestS::TOKENS;
                        if (a.ntok == 0) attest_after_tokens(a);
                    }
                    e = finished();
                }
                break;
            case 3: {
                if (a.st != AttestS::TOKENS) {
                    e = err(T16 | T05, "tokens out of order");
                    break;
                }
                Rd r(d);
                bool bad = false;
                while (r.left() && !bad) {
                    Token t;
                    t.id = r.id();
                    t.amt = r.be(8);
                    if (!r.ok || a.tok_left == 0) {
                        e = err(T16 | T05, r.ok ? "more tokens than declared" : "truncated token");
                        bad = true;
                        break;
                    }
                    for (auto &o : a.toks)
                        if (o.id == t.id) bad = true;
                    if (bad) {
                        e = err(T05 | T16, "the same token twice in one box");
                        break;
                    }
                    a.toks.push_back(t);
                    a.tok_left--;
                    put(a.ser, t.id.data(), 32);
                    vlq(a.ser, t.amt);
                }
                if (bad) break;
                if (a.tok_left == 0) attest_after_tokens(a);
                e = finished();
                break;
            }
            case 4:
                if (a.st != AttestS::REGS) {
                    e = err(T16 | T05, "registers out of order");
                } else if (n > a.reg_left) {
                    e = err(T16 | T05, "more register data than declared");
                } else {
                    put(a.ser, d);
                    a.reg_left -= (uint32_t) n;
                    if (a.reg_left == 0) attest_finish(a);
                    e = finished();
                }
                break;
            default:
                if (a.st != AttestS::DONE) {
                    e = err(T16 | T05, "frame requested before the box is complete");
                } else if (n != 1 || d[0] >= std::max(1u, (a.ntok + 3) / 4)) {
                    e = err(T16 | T05, "bad frame number");
                } else {
                    unsigned i = d[0], cnt = std::max(1u, (a.ntok + 3) / 4);
                    Bytes f(a.box_id.begin(), a.box_id.end());
                    f.push_back((uint8_t) cnt);
                    f.push_back((uint8_t) i);
                    for (int k = 7; k >= 0; k--) f.push_back((uint8_t) (a.value >> (8 * k)));
                    unsigned m = std::min(4u, a.ntok - std::min(a.ntok, i * 4));
                    f.push_back((uint8_t) m);
                    for (unsigned t = 0; t < m; t++) {
                        put(f, a.toks[i * 4 + t].id.data(), 32);
                        for (int k = 7; k >= 0; k--) f.push_back((uint8_t) (a.toks[i * 4 + t].amt >> (8 * k)));
                    }
                    e.k = Expect::FRAME;
                    e.frame = (int) i;
                    e.data = f;
                    e.tags = T05 | T09;
                    e.dtags = T05;
                }
        }
    }
    e.tags |= extra;
    if (e.k != Expect::ERR && maybe) {
        e.or_err = true;
        s.maybe_closed = false;
    }
    return e;
}
// ------------------------------------------------------------------ signing
Expect Model::sign_init(const Bytes &d, bool tok) {
    uint32_t over = s.k != Session::NONE && s.approved ? A07 : 0;
    close();
    Rd r(d);
    SignS g;
    g.net = (uint8_t) r.be(1);
    g.path = r.path();
    g.token = tok ? (uint32_t) r.be(4) : 0;
    if (!r.ok) return err(T16 | T17, "truncated signing request");
    if (r.left()) return err(T16 | T17, "trailing data in a signing request");
    if (!path_addr_ok(g.path)) return err(T15 | T02, "path outside the signing policy");
    if (g.net != 0x00 && g.net != 0x10) return err(T15 | T02, "unsupported network");
    const KeyPair &k = wallet_key(cfg.wallet, g.path);
    g.pk = k.pk;
    s.k = Session::SIGN;
    s.s = g;
    s.extra |= over;
    pending_token = g.token;
    Prompt q;
    bool maybe = false;
    q.kind = PK_SIGN;
    q.path_approves = true;
    add_path(q, "P2PK Signing", g.path, maybe);
    q.screens[0].tags = T02 | T15;
    if (!(g.token != 0 && g.token == connected)) q.screens.push_back(app_screen(g.token));
    Expect e = prompt(q, T02 | T10);
    e.or_err = maybe;
    return e;
}
static int token_index(const SignS &g, const B32 &id) {
    for (size_t i = 0; i < g.table.size(); i++)
        if (g.table[i] == id) return (int) i;
    return -1;
}
void Model::data_inputs_finished() {
    SignS &g = s.s;
    vlq(g.ser, g.declared);
    for (unsigned i = 0; i < g.declared; i++) put(g.ser, g.table[i].data(), 32);
    vlq(g.ser, g.nout);
    g.st = SignS::OUTPUTS;
}
void Model::input_finished() {
    SignS &g = s.s;
    g.in_open = g.in_ext = false;
    if (--g.in_left == 0) {
        vlq(g.ser, g.ndin);
        g.st = SignS::DINPUTS;
        if (g.ndin == 0) data_inputs_finished();
    }
}
Expect Model::frame(const Bytes &d) {
    SignS &g = s.s;
    if (g.st != SignS::INPUTS) return err(T16 | T06, "input out of order");
    if (d.size() < 43) return err(T06 | T16, "truncated frame");
    size_t L = 43 + 40 * (size_t) d[42];
    if (d.size() < L + 16) return err(T06 | T16, "truncated frame");
    Bytes f(d.begin(), d.begin() + L + 16);
    if (!attested.count(f))
        return err(T06, old_frames.count(f) ? "frame of an earlier power cycle" : "frame this device never attested");
    Rd r(d);
    B32 id = r.id();
    unsigned cnt = (unsigned) r.be(1), idx = (unsigned) r.be(1);
    uint64_t value = r.be(8);
    unsigned n = (unsigned) r.be(1);
    std::vector<Token> toks;
    for (unsigned i = 0; i < n; i++) {
        Token t;
        t.id = r.id();
        t.amt = r.be(8);
        toks.push_back(t);
    }
    r.bytes(16);
    if (idx == 0) {
        uint32_t ext = (uint32_t) r.be(4);
        if (!r.ok) return err(T16, "missing extension size");
        if (g.in_open) return err(T16 | T01, "new input before the previous one is complete");
        if (ext == 1 || ext > MAXPART) return err(T16, "bad extension size");
        g.in_open = true;
        g.in_ext = false;
        g.in_id = id;
        g.in_frames = cnt;
        g.in_done = 0;
        g.ext_left = g.ext_size = ext;
        g.erg_in += value;
        if (g.erg_in > UINT64_MAX) return err(T04, "input amounts overflow");
    } else if (!g.in_open) {
        return err(T16 | T06, "later frame without the first");
    }
    if (g.in_ext) return err(T16 | T06, "frame after the last one");
    if (g.in_id != id) return err(T16 | T06, "frame of another box");
    if (idx >= g.in_frames || idx != g.in_done) return err(T16 | T06, "frame out of order");
    for (auto &t : toks) {
        int k = token_index(g, t.id);
        if (k < 0) {
            if (g.table.size() >= MAXTOK) return err(T16 | T04, "more than 20 distinct tokens");
            k = (int) g.table.size();
            g.table.push_back(t.id);
            g.sums.push_back(0);
        }
        g.sums[k] += t.amt;
        if (g.sums[k] > INT64_MAX) return err(T04, "token sum overflow");
    }
    g.in_done++;
    if (g.in_done == g.in_frames) {
        put(g.ser, id.data(), 32);
        g.ser.push_back(0);
        if (g.ext_size == 0) {
            g.ser.push_back(0);
            input_finished();
        } else {
            g.in_ext = true;
        }
    }
    Expect e = ok(T06 | T16);
    e.or_err = r.left() > 0;
    return e;
}
static void out_after_tokens(SignS &g) {
    OutS &o = g.out;
    if (o.reg_size == 0) {
        g.ser.push_back(0);
        o.st = OutS::DONE;
    } else
        o.st = OutS::REGS;
}
static const char *out_tree_done(SignS &g) {
    OutS &o = g.out;
    const char *why = nullptr;
    if (o.type == O_CHANGE || o.type == O_FEE) {
        unsigned __int128 left = g.erg_in - g.change - g.fee;
        if (o.value > left) why = "outputs exceed inputs";
        (o.type == O_CHANGE ? g.change : g.fee) += o.value;
        if (g.fee > UINT64_MAX) why = "fee overflow";
    }
    vlq(g.ser, o.height);
    vlq(g.ser, o.ntok);
    o.st = OutS::TOKENS;
    if (o.ntok == 0) out_after_tokens(g);
    return why;
}
Prompt Model::output_prompt() {
    SignS &g = s.s;
    OutS &o = g.out;
    Prompt q;
    q.kind = PK_OUTPUT;
    q.screens.push_back(scr("Confirm Output", "", T03));
    if (o.type == O_CHANGE) {
        Screen c = scr("Change", path_text(o.path), T03, true);
        q.screens.push_back(c);
        return q;
    }
    if (o.type == O_FEE)
        q.screens.push_back(scr("Fee", "Miners Fee", T03, true));
    else {
        const Bytes &t = o.tree;
        if (o.chunks == 1 && t.size() == 36 && t[0] == 0x00 && t[1] == 0x08 && t[2] == 0xcd && (t[3] == 2 || t[3] == 3)) {
            B33 pk;
            std::copy(t.begin() + 3, t.end(), pk.begin());
            q.screens.push_back(scr("Address", base58(address_bytes(g.net, pk)), T03, true));
        } else if (o.chunks == 1 && t.size() == 44 && std::equal(P2SH_PREFIX.begin(), P2SH_PREFIX.end(), t.begin()) &&
                   std::equal(P2SH_SUFFIX.begin(), P2SH_SUFFIX.end(), t.begin() + 41)) {
            q.screens.push_back(scr("Script Hash", base58(script_address(g.net, t.data() + 17)), T03, true));
        } else {
            B32 h = blake2b256(t);
            q.screens.push_back(scr("Script Hash", base58(script_address(g.net, h.data())), T03, true));
        }
    }
    q.screens.push_back(scr("Output Value", erg_text(o.value), T03, true));
    int n = 0;
    for (size_t i = 0; i < g.table.size(); i++)
        if (o.amts[i] > 0) {
            std::string t = "Token [" + std::to_string(++n) + "]";
            q.screens.push_back(scr(t, token_text(g.table[i], cfg.nanos), T03, true));
            q.screens.push_back(scr(t + " Value", std::to_string(o.amts[i]), T03, true));
        }
    return q;
}
Expect Model::after_output_step() {
    SignS &g = s.s;
    OutS &o = g.out;
    const uint32_t base = T16 | T03 | T02;
    if (o.st != OutS::DONE) return ok(T16);
    g.out_open = false;
    g.outputs_done++;
    if (--g.out_left == 0) g.st = SignS::FINISHED;
    bool silent = false;
    if (o.type == O_FEE) {
        silent = true;
        for (auto a : o.amts)
            if (a > 0) silent = false;
    } else if (o.type == O_CHANGE && o.path.size() == 5) {
        if (o.path == g.last_change) silent = true;
        if (std::equal(g.path.begin(), g.path.begin() + 4, o.path.begin()) && (uint64_t) o.path[4] < (uint64_t) g.path[4] + 20)
            silent = true;
    }
    if (silent) {
        g.silent++;
        Expect e = ok(base);
        e.dtags |= T03;
        return e;
    }
    g.last_change.clear();
    g.prompts_shown++;
    return prompt(output_prompt(), base);
}
Prompt Model::final_prompt() {
    SignS &g = s.s;
    Prompt q;
    q.kind = PK_FINAL;
    q.screens.push_back(scr("Approve Signing", "", T04));
    Screen pt = scr("P2PK Path", path_text(g.path), T04, true);
    q.screens.push_back(pt);
    q.screens.push_back(scr("Transaction Amount", erg_text((uint64_t) (g.erg_in - g.change - g.fee)), T04, true));
    q.screens.push_back(scr("Transaction Fee", erg_text((uint64_t) g.fee), T04, true));
    int n = 0;
    for (size_t i = 0; i < g.table.size(); i++)
        if (g.sums[i] != 0) {
            std::string t = "Token [" + std::to_string(++n) + "]";
            q.screens.push_back(scr(t, token_text(g.table[i], cfg.nanos), T04, true));
            uint64_t v = g.sums[i] < 0 ? (uint64_t) -g.sums[i] : (uint64_t) g.sums[i];
            q.screens.push_back(scr(t + " Value", (g.sums[i] < 0 ? "Minting: " : "Burning: ") + std::to_string(v), T04, true));
        }
    return q;
}
// p2 != 0: command as received; p2 == 0: re-entered from session_cmd with the session checked.
Expect Model::sign(uint8_t p1, uint8_t p2, const Bytes &d) {
    Expect e;
    if (p2 != 0) {
        bool known = p1 == 1 || (p1 >= 0x10 && p1 <= 0x1A) || p1 == 0x20;
        if (!known || (p1 == 1 && p2 > 2)) {
            e.k = Expect::ERR;
            e.tags = T17 | T16;
            e.why = "unknown signing step";
            if (s.k != Session::NONE) s.maybe_closed = true;
            return e;
        }
        if (p1 == 1) return sign_init(d, p2 == 2);
        return session_cmd(false, p1, p2, d);
    }
    SignS &g = s.s;
    OutS &o = g.out;
    size_t n = d.size();
    Rd r(d);
    switch (p1) {
        case 0x10: {
            if (g.st != SignS::INIT) return err(T16 | T01, "transaction started twice");
            g.nin = (unsigned) r.be(2);
            g.ndin = (unsigned) r.be(2);
            g.declared = (unsigned) r.be(1);
            g.nout = (unsigned) r.be(2);
            if (!r.ok || r.left()) return err(T16, "bad transaction header");
            if (g.nin == 0 || g.nout == 0) return err(T16, "transaction without inputs or outputs");
            if (g.declared > MAXTOK) return err(T16, "more than 20 tokens");
            g.in_left = g.nin;
            g.out_left = g.nout;
            g.din_left = g.ndin;
            vlq(g.ser, g.nin);
            g.st = g.declared ? SignS::TOKENS : SignS::INPUTS;
            return ok(T16);
        }
        case 0x11: {
            if (g.st != SignS::TOKENS) return err(T16 | T01, "token ids out of order");
            while (r.left()) {
                B32 id = r.id();
                if (!r.ok) return err(T16, "truncated token id");
                if (g.table.size() >= g.declared) return err(T16 | T01, "more token ids than declared");
                g.table.push_back(id);
                g.sums.push_back(0);
            }
            if (g.table.size() == g.declared) g.st = SignS::INPUTS;
            return ok(T16);
        }
        case 0x12: return frame(d);
        case 0x13: {
            if (!g.in_open || !g.in_ext) return err(T16 | T01, "context extension out of order");
            if (n > g.ext_left) return err(T16 | T01, "more extension data than declared");
            put(g.ser, d);
            g.ext_left -= (uint32_t) n;
            if (g.ext_left == 0) input_finished();
            return ok(T16);
        }
        case 0x14: {
            if (g.st != SignS::DINPUTS) return err(T16 | T01, "data input out of order");
            while (r.left()) {
                B32 id = r.id();
                if (!r.ok) return err(T16, "truncated data input");
                if (g.din_left == 0) return err(T16 | T01, "more data inputs than declared");
                put(g.ser, id.data(), 32);
                g.din_left--;
            }
            if (g.din_left == 0) data_inputs_finished();
            return ok(T16);
        }
        case 0x15: {
            if (g.st != SignS::OUTPUTS) return err(T16 | T03 | T02, "output out of order");
            if (g.out_open) return err(T16 | T03 | T02, "new output before the previous one is complete");
            o = OutS();
            o.value = r.be(8);
            o.tree_size = (uint32_t) r.be(4);
            o.height = (uint32_t) r.be(4);
            o.ntok = (unsigned) r.be(1);
            o.reg_size = (uint32_t) r.be(4);
            if (!r.ok || r.left()) return err(T16, "bad output header");
            if (o.ntok > MAXTOK) return err(T16, "more than 20 tokens in an output");
            if (o.tree_size > MAXPART || o.reg_size > MAXPART) return err(T16, "output part beyond the size limit");
            o.tree_left = o.tree_size;
            o.reg_left = o.reg_size;
            o.tok_left = o.ntok;
            o.amts.assign(g.table.size(), 0);
            g.out_open = true;
            vlq(g.ser, o.value);
            return ok(T16);
        }
        case 0x16: {
            if (!g.out_open || o.st != OutS::TREE) return err(T16 | T03, "tree data out of order");
            if (n > o.tree_left) return err(T16 | T03, "more tree data than declared");
            if (n < o.tree_left && n < 255) return err(T16, "short tree chunk");
            put(g.ser, d);
            put(o.tree, d);
            o.tree_left -= (uint32_t) n;
            o.chunks++;
            o.type = O_TREE;
            if (o.tree_left == 0) out_tree_done(g);
            return after_output_step();
        }
        case 0x17:
        case 0x18: {
            if (!g.out_open || o.st != OutS::TREE) return err(T16 | T03, "tree out of order");
            if (o.chunks > 0) return err(T16 | T03, "tree replaced after a part of it was sent");
            bool lenient = o.tree_size != 0;
            if (p1 == 0x17) {
                if (n) return err(T16 | T17, "data with a miner fee tree");
                o.type = O_FEE;
                put(g.ser, FEE_TREE);
            } else {
                o.path = r.path();
                if (!r.ok) return err(T16 | T17, "truncated change path");
                if (!path_addr_ok(o.path)) return err(T15 | T03, "change path outside the policy");
                lenient |= r.left() > 0;
                o.type = O_CHANGE;
                const KeyPair &k = wallet_key(cfg.wallet, o.path);
                static const uint8_t pre[3] = {0x00, 0x08, 0xcd};
                put(g.ser, pre, 3);
                put(g.ser, k.pk.data(), 33);
            }
            const char *why = out_tree_done(g);
            if (why) return err(T04, why);
            e = after_output_step();
            e.or_err |= lenient;
            return e;
        }
        case 0x19: {
            if (!g.out_open || o.st != OutS::TOKENS) return err(T16 | T03, "output tokens out of order");
            bool lenient = false;
            while (r.left()) {
                uint32_t idx = (uint32_t) r.be(4);
                uint64_t amt = r.be(8);
                if (!r.ok) return err(T16, "truncated output token");
                if (o.tok_left == 0) return err(T16 | T03, "more output tokens than declared");
                if (idx >= g.declared) return err(T16 | T03, "token index out of range");
                int k = token_index(g, g.table[idx]);
                if (o.amts[k] != 0) return err(T16 | T03, "the same token twice in one output");
                if (o.seen.count(k)) lenient = true;
                o.seen.insert(k);
                o.amts[k] = amt;
                g.sums[k] -= amt;
                if (g.sums[k] < -((__int128) 1 << 63)) return err(T04, "token difference overflow");
                vlq(g.ser, idx);
                vlq(g.ser, amt);
                o.tok_left--;
            }
            if (o.tok_left == 0) out_after_tokens(g);
            e = after_output_step();
            e.or_err |= lenient;
            return e;
        }
        case 0x1A: {
            if (!g.out_open || o.st != OutS::REGS) return err(T16 | T03, "output registers out of order");
            if (n > o.reg_left) return err(T16 | T03, "more register data than declared");
            put(g.ser, d);
            o.reg_left -= (uint32_t) n;
            if (o.reg_left == 0) o.st = OutS::DONE;
            return after_output_step();
        }
        default: {
            if (g.st != SignS::FINISHED) return err(T16 | T02 | T01, "confirmation before the transaction is complete");
            g.st = SignS::FINAL;
            e = prompt(final_prompt(), T02 | T04);
            e.or_err = n > 0;
            return e;
        }
    }
}
// ------------------------------------------------------------------ decisions
Expect Model::approve() {
    Expect e;
    PromptKind k = p.kind;
    uint32_t inj = p.injected ? A08 : 0;
    finish_prompt();
    e.tags = T09 | inj | s.extra;
    switch (k) {
        case PK_EPK:
        case PK_ADDR:
            connected = pending_token;
            e.k = pending_data.empty() ? Expect::OK_EMPTY : Expect::OK_DATA;
            e.data = pending_data;
            e.tags |= T15;
            e.dtags = T15 | inj;
            break;
        case PK_ATTEST:
        case PK_SIGN:
            connected = pending_token;
            e.k = Expect::SESSION_ID;
            e.tags |= k == PK_SIGN ? T02 : T10;
            e.dtags = T07 | inj;
            break;
        case PK_OUTPUT:
            if (s.s.out.type == O_CHANGE) s.s.last_change = s.s.out.path;
            e.k = Expect::OK_EMPTY;
            e.tags |= T03;
            e.dtags = T03 | inj;
            break;
        case PK_FINAL:
            e.k = Expect::SIGNATURE;
            e.pk = s.s.pk;
            e.ser = s.s.ser;
            e.rng = s.rng;
            e.tags |= T01 | T02;
            e.dtags = T01 | inj;
            close(T02 | T12 | T07);
            break;
        default: break;
    }
    return e;
}
Expect Model::reject() {
    Expect e;
    e.k = Expect::DENIED;
    e.tags = e.dtags = T09 | T02 | (p.injected ? A08 : 0) | (p.kind == PK_EPK || p.kind == PK_ADDR ? T15 : 0) | s.extra;
    uint32_t why = T07 | (p.kind == PK_ATTEST ? T10 : p.kind == PK_OUTPUT ? T02 | T03 : p.kind == PK_FINAL ? T02 | T04 : T02);
    finish_prompt();
    close(why);
    return e;
}
