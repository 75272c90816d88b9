#include "gen.hpp"
#include <algorithm>

// ------------------------------------------------------------------ values
static void be(Bytes &b, uint64_t v, int n) {
    for (int k = n - 1; k >= 0; k--) b.push_back((uint8_t) (v >> (8 * k)));
}
static void cat(Bytes &b, const Bytes &c) { b.insert(b.end(), c.begin(), c.end()); }
static Bytes path_bytes(const Path &p) {
    Bytes b{(uint8_t) p.size()};
    for (auto c : p) be(b, c, 4);
    return b;
}
uint64_t Sim::num(int bits) {
    uint64_t mask = bits == 64 ? ~0ULL : (1ULL << bits) - 1;
    if (!r.chance(P.boundary)) {
        int w = 1 + (int) r.below((uint64_t) bits);
        return r.next() & (w == 64 ? ~0ULL : (1ULL << w) - 1);
    }
    uint64_t v;
    switch (r.below(6)) {
        case 0: v = 1ULL << (7 * r.below(10)) % 64; v += r.below(3) - 1; break;
        case 1: v = 1ULL << (8 * r.below(8)); v += r.below(3) - 1; break;
        case 2: {
            v = 1;
            for (uint64_t k = r.below(20); k > 0; k--) v *= 10;
            v += r.below(3) - 1;
            break;
        }
        case 3: v = mask - r.below(3); break;
        case 4: v = (mask >> 1) + r.below(3) - 1; break;
        default: v = r.below(3);
    }
    return v & mask;
}
uint32_t Sim::size_value(bool big) {
    static const std::vector<uint32_t> edges{1, 2, 35, 36, 37, 43, 44, 45, 127, 128, 253, 254, 255, 256, 257, 300, 509, 510, 511, 764, 765, 766};
    if (big) {
        static const std::vector<uint32_t> b{1000, 2040, 2041, 4096, 5000, 16383, 16384, 32767, 32768};
        return r.chance(0.2) ? 1 + (uint32_t) r.below(r.chance(0.8) ? 4096 : 32768) : r.pick(b);
    }
    return r.chance(0.5) ? r.pick(edges) : 1 + (uint32_t) r.below(320);
}
Path Sim::addr_path(bool odd) {
    static const std::vector<uint32_t> accounts{0, 0, 0, 1, 2, 9, 0x100, 0x10000, 0x7fffffff}, idx{0, 0, 1, 5, 19, 20, 21, 127, 255, 256, 1000, 0x7ffffff0, 0x7fffffff};
    Path p{HARD | 44, HARD | 429, HARD | (r.chance(0.1) ? (uint32_t) num(31) & ~HARD : r.pick(accounts)), (uint32_t) r.below(2), r.chance(0.1) ? (uint32_t) num(31) & ~HARD : r.pick(idx)};
    if (r.chance(P.longpath)) {
        size_t n = 6 + r.below(5);
        while (p.size() < n) p.push_back(r.chance(0.6) ? 0x7fffffffu - (uint32_t) r.below(3) : (uint32_t) r.below(20));
        if (r.chance(0.5)) p[2] = HARD | 0x7fffffff, p[4] = 0x7fffffff;
    }
    if (odd) switch (r.below(9)) {
            case 0: p[0] ^= HARD; break;
            case 1: p[1] = HARD | (428 + 2 * (uint32_t) r.below(2)); break;
            case 2: p[2] &= ~HARD; break;
            case 3: p[3] = 2 + (uint32_t) r.below(3); break;
            case 4: p[3] |= HARD; break;
            case 5: p.back() |= HARD; break;
            case 6: p.resize(r.below(5)); break;
            case 7: p[0] = HARD | 43; break;
            default: p[1] &= ~HARD; break;
        }
    return p;
}
Path Sim::epk_path(bool odd) {
    Path p{HARD | 44, HARD | 429, HARD | (r.chance(0.5) ? 0 : (uint32_t) num(31))};
    if (r.chance(0.2)) p.push_back(HARD | (uint32_t) num(31));
    if (r.chance(P.longpath)) {
        size_t n = 4 + r.below(7);
        while (p.size() < n) p.push_back(HARD | (0x7fffffffu - (uint32_t) r.below(2)));
    }
    if (odd) switch (r.below(6)) {
            case 0: p[0] &= ~HARD; break;
            case 1: p[1] ^= 1 + (uint32_t) r.below(255); break;
            case 2: p.back() &= ~HARD; break;
            case 3: p.resize(r.below(3)); break;
            case 4: p.push_back((uint32_t) r.below(5)); break;
            default:
                while (p.size() < 11 + r.below(3)) p.push_back(HARD | 1);
        }
    return p;
}
uint32_t Sim::app_token(Host &h) {
    if (r.chance(P.p_foreign_token)) switch (r.below(4)) {
            case 0: return 0;
            case 1: return hosts[r.below(hosts.size())].token;
            case 2: return r.chance(0.05) ? (r.chance(0.5) ? 0xffffffffu : 0x7fffffffu) : h.token ^ (1u << r.below(32));
            default: return w.m.connected;
        }
    return h.token;
}
// ------------------------------------------------------------------ flows
Flow Sim::key_flow(Host &h) {
    Flow f;
    f.kind = FL_KEY;
    Step s;
    bool tok = h.use_token || r.chance(0.2);
    if (r.chance(0.4)) {
        s.ins = 0x10;
        s.p1 = tok ? 2 : 1;
        s.data = path_bytes(epk_path(r.chance(P.badpath)));
        s.note = "public key";
    } else {
        s.ins = 0x11;
        s.p1 = (uint8_t) r.range(1, 2);
        s.p2 = tok ? 2 : 1;
        uint8_t net = r.chance(P.unusual_net) ? (uint8_t) r.below(256) : r.chance(0.5) ? 0x10 : 0;
        s.data.push_back(net);
        Path p = !h.account.empty() && r.chance(0.4) ? h.account : addr_path(r.chance(P.badpath));
        cat(s.data, path_bytes(p));
        s.note = "address";
    }
    if (tok) be(s.data, app_token(h), 4);
    f.steps.push_back(s);
    return f;
}
int Sim::new_box(bool small) {
    Box b;
    b.txid = r.bytes(32);
    if (r.chance(P.crafted)) {  // bytes that look like the start of some other record
        bool le = r.chance(0.85);
        for (int k = 0; k < 8; k++) {
            uint32_t v = r.chance(0.15) ? (uint32_t) r.range(1, 255) : (uint32_t) r.below(4);
            for (int j = 0; j < 4; j++) b.txid[4 * k + j] = (uint8_t) (v >> 8 * (le ? j : 3 - j));
        }
    }
    static const std::vector<uint16_t> idx{0, 1, 2, 127, 128, 255, 256, 16383, 16384, 32768, 65535};
    b.index = r.chance(0.65) ? (uint16_t) r.below(4) : r.chance(0.15) ? (uint16_t) num(16) : r.pick(idx);
    b.height = (uint32_t) num(32);
    bool over = !small && r.chance(P.overflow);
    if (over)
        b.value = r.chance(0.5) ? ~0ULL - r.below(3) : (1ULL << 63) + r.below(3) - 1;
    else
        b.value = num(r.chance(0.5) ? 40 : 58);
    if (!over && r.chance(P.crafted)) b.value = (uint64_t) (r.chance(0.7) ? 1 : 2) << 32 | (r.next() & 0xffffffff);
    size_t ts = small ? 36 : r.chance(0.4) ? 36 : r.chance(0.03) ? 0 : size_value(r.chance(P.bigbox));
    b.tree = r.bytes(ts);
    unsigned nt = small ? (unsigned) r.below(3) : r.chance(P.tokens20) ? (unsigned) r.range(r.chance(0.7) ? 17 : 8, 20) : r.chance(0.4) ? 0 : (unsigned) r.range(1, (int) P.max_tokens);
    for (unsigned i = 0; i < nt; i++) {
        Token t;
        bool shared = false;
        if (!pool.empty() && r.chance(0.45)) {  // a token of an earlier box
            auto &o = r.pick(pool);
            if (!o.toks.empty()) {
                t.id = r.pick(o.toks).id;
                if (r.chance(0.08)) t.id[r.below(32)] ^= (uint8_t) (1 << r.below(8));
                shared = true;
                for (auto &u : b.toks)
                    if (u.id == t.id) shared = false;
            }
        }
        if (!shared) {
            Bytes id = r.bytes(32);
            if (r.chance(0.03)) id.assign(32, r.chance(0.5) ? 0 : 0xff);
            std::copy(id.begin(), id.end(), t.id.begin());
            bool dup = false;
            for (auto &u : b.toks)
                if (u.id == t.id) dup = true;
            if (dup) t.id[31] ^= (uint8_t) (i + 1);
        }
        if (over)
            t.amt = r.chance(0.5) ? (1ULL << 63) - r.below(3) : r.chance(0.5) ? (1ULL << 62) - r.below(2) : ~0ULL - r.below(2);
        else
            t.amt = num(r.chance(0.5) ? 30 : 58);
        b.toks.push_back(t);
    }
    if (!final_phase && !small && b.toks.size() >= 2 && r.chance(0.01)) b.toks.back() = b.toks[r.below(b.toks.size() - 1)];  // illegal: the same token twice
    size_t rs = small || r.chance(0.6) ? 0 : size_value(r.chance(P.bigbox));
    b.regs = r.bytes(rs);
    pool.push_back(b);
    return (int) pool.size() - 1;
}
static Step session_step(uint8_t ins, uint8_t p1, const Bytes &d, const char *note) {
    Step s;
    s.ins = ins;
    s.p1 = p1;
    s.session_p2 = true;
    s.data = d;
    s.note = note;
    return s;
}
static void chunks(std::vector<Step> &out, uint8_t ins, uint8_t p1, const Bytes &d, const char *note, Rng &r, bool fixed255) {
    size_t o = 0;
    size_t n = fixed255 || r.chance(0.5) ? 255 : 1 + r.below(255);
    do {
        size_t k = std::min(n, d.size() - o);
        out.push_back(session_step(ins, p1, Bytes(d.begin() + o, d.begin() + o + k), note));
        o += k;
        if (!fixed255 && r.chance(0.3)) n = 1 + r.below(255);
    } while (o < d.size());
}
// The size to declare for a part; rarely one that must be refused.
uint32_t Sim::declared(size_t n) {
    if (final_phase || !r.chance(0.004)) return (uint32_t) n;
    static const std::vector<uint32_t> over{32769, 32770, 33024, 40000, 65535, 65536, 0x1000000, 0x80000000, 0xffffffff};
    return r.chance(0.3) ? (uint32_t) n + (r.chance(0.5) ? 0x10000u : 0x80000000u) : r.pick(over);
}
Flow Sim::attest_flow(Host &h, int bi) {
    Flow f;
    f.kind = FL_ATTEST;
    f.box = bi;
    Box &b = pool[bi];
    b.frames.clear();
    b.boot = bootno;
    bool tok = h.use_token;
    Step s;
    s.ins = 0x20;
    s.p1 = 1;
    s.p2 = tok ? 2 : 1;
    s.data = b.txid;
    be(s.data, b.index, 2);
    be(s.data, b.value, 8);
    be(s.data, declared(b.tree.size()), 4);
    be(s.data, b.height, 4);
    s.data.push_back((uint8_t) b.toks.size());
    be(s.data, declared(b.regs.size()), 4);
    if (tok) be(s.data, app_token(h), 4);
    s.cap = CAP_SID;
    s.note = "attest";
    f.steps.push_back(s);
    chunks(f.steps, 0x20, 2, b.tree, "tree", r, true);
    if (!b.toks.empty()) {
        size_t o = 0;
        while (o < b.toks.size()) {
            size_t k = std::min<size_t>(1 + r.below(6), b.toks.size() - o);
            Bytes d;
            for (size_t i = 0; i < k; i++) {
                d.insert(d.end(), b.toks[o + i].id.begin(), b.toks[o + i].id.end());
                be(d, b.toks[o + i].amt, 8);
            }
            f.steps.push_back(session_step(0x20, 3, d, "tokens"));
            o += k;
        }
    }
    if (!b.regs.empty()) chunks(f.steps, 0x20, 4, b.regs, "registers", r, false);
    f.steps.back().cap = CAP_COUNT;
    std::vector<int> order;
    for (unsigned i = 0; i < b.count(); i++) order.push_back((int) i);
    if (r.chance(0.4))
        for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
    while (r.chance(P.fetch_again)) order.push_back(order[r.below(order.size())]);
    if (!final_phase && r.chance(0.04)) order.push_back((int) b.count() + (r.chance(0.7) ? 0 : (int) r.below(64)));
    for (int i : order) {
        Step g = session_step(0x20, 5, Bytes{(uint8_t) i}, "fetch frame");
        g.cap = CAP_FRAME;
        g.frame = i;
        f.steps.push_back(g);
    }
    return f;
}
Flow Sim::sign_flow(Host &h, const std::vector<int> &boxes) {
    Flow f;
    f.kind = FL_SIGN;
    auto add = [&](uint8_t p1, const Bytes &d, const char *note) -> Step & {
        f.steps.push_back(session_step(0x21, p1, d, note));
        return f.steps.back();
    };
    if (h.account.empty() || r.chance(0.2)) {
        h.account = addr_path(false);
        if (h.account.size() > 5 && r.chance(0.5)) h.account.resize(5);
    }
    Path path = h.account;
    bool odd = !final_phase && r.chance(P.badpath * 0.5);
    Step s;
    s.ins = 0x21;
    s.p1 = 1;
    s.p2 = h.use_token ? 2 : 1;
    s.data.push_back(odd && r.chance(0.3) ? (uint8_t) r.below(256) : r.chance(0.3) ? 0x10 : 0);
    cat(s.data, path_bytes(odd ? addr_path(true) : path));
    if (h.use_token) be(s.data, app_token(h), 4);
    s.cap = CAP_SID;
    s.note = "sign";
    f.steps.push_back(s);
    // what there is to spend
    bool over = !final_phase && r.chance(P.overflow);
    bool many = !final_phase && r.chance(P.many);
    std::vector<int> ins = boxes;
    unsigned many_kind = many ? (unsigned) r.below(3) : 9;
    if (huge_n) many = true, many_kind = huge_kind;
    if (many_kind == 0) {
        size_t n = huge_n ? huge_n : r.chance(0.35) ? (size_t) r.range(4, 24) : r.chance(0.5) ? (size_t) r.range(126, 130) : r.chance(0.5) ? (size_t) r.range(254, 258) : (size_t) r.range(20, 300);
        while (ins.size() < n) ins.push_back(boxes[r.below(boxes.size())]);
    }
    unsigned __int128 erg = 0;
    std::vector<Token> in;
    for (int b : ins) {
        erg += pool[b].value;
        for (auto &t : pool[b].toks) {
            bool found = false;
            for (auto &u : in)
                if (u.id == t.id) u.amt += t.amt, found = true;
            if (!found) in.push_back(t);
        }
    }
    std::vector<Token> table;
    for (auto &t : in)
        if (r.chance(0.85)) table.push_back(t);
    unsigned mint = r.chance(0.35) ? (unsigned) r.range(1, 2) : 0;
    if (r.chance(P.tokens20) && table.size() < 20) mint = 20 - (unsigned) std::max(in.size(), table.size());
    for (unsigned i = 0; i < mint && table.size() < 20; i++) {
        Token t;
        r.fill(t.id.data(), 32);
        if (r.chance(0.05) && !table.empty()) {
            t.id = r.pick(table).id;
            t.id[r.below(32)] ^= (uint8_t) (1 << r.below(8));
        }
        t.amt = 0;
        table.push_back(t);
    }
    if (!final_phase && !table.empty() && table.size() < 20 && r.chance(0.01)) table.push_back(table[r.below(table.size())]);
    if (!r.chance(0.4))
        for (size_t i = table.size(); i > 1; i--) std::swap(table[i - 1], table[r.below(i)]);
    while (table.size() > 20) table.pop_back();
    if (final_phase)  // a near copy of a near copy can be the original again
        for (size_t i = 0; i < table.size(); i++)
            for (size_t j = table.size(); j-- > i + 1;)
                if (table[i].id == table[j].id) table.erase(table.begin() + (long) j);
    unsigned nout = 1 + (unsigned) r.below(P.max_outputs);
    if (many_kind == 1) nout = huge_n ? huge_n : r.chance(0.35) ? (unsigned) r.range(4, 24) : r.chance(0.5) ? (unsigned) r.range(126, 130) : r.chance(0.4) ? (unsigned) r.range(254, 258) : (unsigned) r.range(20, 200);
    unsigned ndin = r.chance(0.7) ? 0 : 1 + (unsigned) r.below(9);
    if (many_kind == 2) ndin = huge_n ? huge_n : r.chance(0.3) ? (unsigned) r.range(10, 40) : r.chance(0.5) ? (unsigned) r.range(126, 130) : (unsigned) r.range(20, 300);
    Bytes d;
    be(d, ins.size(), 2);
    be(d, ndin, 2);
    d.push_back((uint8_t) table.size());
    be(d, nout, 2);
    add(0x10, d, "start");
    for (size_t o = 0; o < table.size();) {
        size_t k = std::min<size_t>(1 + r.below(7), table.size() - o);
        d.clear();
        for (size_t i = 0; i < k; i++) d.insert(d.end(), table[o + i].id.begin(), table[o + i].id.end());
        add(0x11, d, "token ids");
        o += k;
    }
    for (int b : ins) {
        uint32_t ext = r.chance(many ? 0.98 : 0.7) ? 0 : std::max(2u, size_value(!final_phase && r.chance(P.bigbox)));
        if (!final_phase && r.chance(0.005)) ext = 1;
        else ext = declared(ext);
        for (unsigned i = 0; i < pool[b].count(); i++) {
            d.clear();
            if (i == 0) be(d, ext, 4);
            Step &g = add(0x12, d, "input frame");
            g.box = b;
            g.frame = (int) i;
        }
        if (ext > 1 && ext <= 32768) chunks(f.steps, 0x21, 0x13, r.bytes(ext), "context extension", r, r.chance(0.5));
    }
    for (unsigned o = 0; o < ndin;) {
        unsigned k = std::min(1 + (unsigned) r.below(7), ndin - o);
        add(0x14, r.bytes(32 * k), "data inputs");
        o += k;
    }
    // outputs
    unsigned __int128 left = erg > UINT64_MAX ? UINT64_MAX : erg;
    Path last_change;
    for (unsigned o = 0; o < nout; o++) {
        int kind;  // 0 tree 1 fee 2 change
        double x = (double) r.below(1000) / 1000;
        kind = x < P.fee * 0.5 ? 1 : x < P.fee * 0.5 + P.change * 0.7 ? 2 : 0;
        if (many_kind == 1 && !r.chance(0.02)) kind = 1;
        uint64_t value;
        if (kind == 1)
            value = r.chance(0.6) ? 1100000 : num(r.chance(0.5) ? 30 : r.chance(0.75) ? 50 : 64);
        else
            value = r.chance(0.15) ? (uint64_t) left : num(r.chance(0.5) ? 36 : 56);
        if (many_kind == 1) value = r.below(1000);
        bool legal_value = final_phase || r.chance(0.97);
        if (over && r.chance(0.4)) {
            value = r.chance(0.4) ? ~0ULL - r.below(2) : r.chance(0.5) ? (uint64_t) left + r.below(3) - 1 : (1ULL << 63) - r.below(2);
            legal_value = false;
        }
        if (kind != 0 && legal_value && value > left) value = (uint64_t) (left ? left - r.below((uint64_t) std::min<unsigned __int128>(left, 1000)) : 0);
        if (kind == 0 && !over && value > left && r.chance(0.9)) value = (uint64_t) left;
        if (kind != 0) left -= std::min<unsigned __int128>(left, value);
        // tokens
        std::vector<std::pair<uint32_t, uint64_t>> toks;
        if (!table.empty() && (kind == 0 ? r.chance(0.55) : kind == 1 ? r.chance(0.06) : r.chance(0.4))) {
            unsigned k = 1 + (unsigned) r.below(std::min<size_t>(table.size(), r.chance(P.tokens20) ? 20 : 4));
            if (table.size() > 8 && r.chance(0.2)) k = (unsigned) table.size() - (unsigned) r.below(2);
            std::vector<uint32_t> idx;
            for (uint32_t i = 0; i < table.size(); i++) idx.push_back(i);
            for (size_t i = idx.size(); i > 1; i--) std::swap(idx[i - 1], idx[r.below(i)]);
            for (unsigned i = 0; i < k; i++) {
                uint64_t avail = table[idx[i]].amt, a;
                if (over && r.chance(0.5))
                    a = r.chance(0.5) ? (1ULL << 63) + r.below(3) - 1 : r.chance(0.5) ? (1ULL << 62) + r.below(2) : ~0ULL - r.below(2);
                else if (avail && r.chance(0.35))
                    a = avail;
                else if (avail && r.chance(0.6))
                    a = 1 + r.below(avail);
                else
                    a = num(r.chance(0.6) ? 32 : 60);
                if (huge_n) a &= (1ULL << 40) - 1;
                if (a == 0 && !r.chance(0.1)) a = 1;
                table[idx[i]].amt -= std::min(a, table[idx[i]].amt);
                toks.push_back({idx[i], a});
            }
            if (!final_phase && r.chance(0.01)) toks.push_back({r.chance(0.5) ? toks[0].first : (uint32_t) table.size() + (uint32_t) r.below(3) * 127, 5});
        }
        Bytes tree;
        Path cp;
        if (kind == 0) {
            B33 pk = wallet_key(cfg.wallet ^ (r.chance(0.3) ? 0 : 0x5555), Path{HARD | 44, HARD | 429, HARD, 0, (uint32_t) r.below(8)}).pk;
            double y = (double) r.below(1000) / 1000;
            if (y < 0.4) {
                tree = {0x00, 0x08, 0xcd};
                tree.insert(tree.end(), pk.begin(), pk.end());
            } else if (y < 0.55) {
                tree = P2SH_PREFIX;
                cat(tree, r.bytes(24));
                cat(tree, P2SH_SUFFIX);
            } else if (y < 0.6)
                tree = FEE_TREE;
            else
                tree = r.bytes(size_value(!final_phase && r.chance(P.bigbox)));
            if (!final_phase && r.chance(P.near_tree * 0.35)) tree = lookalike();
            else if (r.chance(P.near_tree) && !tree.empty()) {
                switch (r.below(5)) {
                    case 0: tree[r.below(tree.size())] ^= (uint8_t) (1 << r.below(8)); break;
                    case 1: tree.pop_back(); break;
                    case 2: tree.push_back((uint8_t) r.below(256)); break;
                    case 3: tree[std::min<size_t>(3, tree.size() - 1)] = (uint8_t) r.below(6); break;
                    default: tree[r.below(std::min<size_t>(tree.size(), 17))] ^= (uint8_t) (1 << r.below(8)); break;
                }
            }
            if (tree.empty() && r.chance(0.9)) tree.push_back(0);
        } else if (kind == 2) {
            cp = path;
            cp.resize(std::min<size_t>(cp.size(), 5));
            uint32_t base = cp[4];
            switch (r.below(14)) {
                case 0: cp[4] = base + 19; break;
                case 1: cp[4] = base + 20; break;
                case 2: cp[4] = base + 21; break;
                case 3: cp[3] ^= 1; break;
                case 4: cp[2] = HARD | ((cp[2] & ~HARD) ^ (1u << r.below(31))); break;
                case 5: cp[4] = 0; break;
                case 6: cp[4] = base ? base - 1 : 0; break;
                case 7:
                    do cp.push_back((uint32_t) r.below(30));
                    while (cp.size() < 10 && r.chance(0.25));
                    break;
                case 8: cp[4] ^= 1u << r.below(31); break;
                case 9: cp = addr_path(!final_phase && r.chance(P.badpath)); break;
                case 10:
                case 11:
                    if (!last_change.empty()) cp = last_change;
                    else cp[4] = base + 25;
                    break;
                case 12:
                    if (!last_change.empty()) {
                        cp = last_change;
                        if (cp.size() == 5) cp[r.chance(0.5) ? 4 : 2] ^= 1u << r.below(31);
                    } else
                        cp[4] = base + 22;
                    break;
                default: cp[4] = base + (uint32_t) r.below(20); break;
            }
            if (cp.size() > 4) cp[4] &= ~HARD;
            last_change = cp;
        }
        size_t rs = r.chance(many_kind == 1 ? 0.98 : 0.75) ? 0 : size_value(!final_phase && r.chance(P.bigbox));
        d.clear();
        be(d, value, 8);
        be(d, kind == 0 ? declared(tree.size()) : (!final_phase && r.chance(0.02)) ? 36 : 0, 4);
        be(d, num(32), 4);
        d.push_back((uint8_t) toks.size());
        be(d, declared(rs), 4);
        add(0x15, d, "output");
        if (kind == 0)
            chunks(f.steps, 0x21, 0x16, tree, "output tree", r, true);
        else if (kind == 1)
            add(0x17, {}, "miner fee");
        else
            add(0x18, path_bytes(cp), "change");
        for (size_t i = 0; i < toks.size();) {
            size_t k = std::min<size_t>(1 + r.below(21), toks.size() - i);
            d.clear();
            for (size_t j = 0; j < k; j++) {
                be(d, toks[i + j].first, 4);
                be(d, toks[i + j].second, 8);
            }
            add(0x19, d, "output tokens");
            i += k;
        }
        if (rs) chunks(f.steps, 0x21, 0x1A, r.bytes(rs), "output registers", r, r.chance(0.5));
    }
    add(0x20, {}, "confirm");
    return f;
}
// A long script that contains, at a place where it might be mistaken for the whole, a script with a meaning of its own.
Bytes Sim::lookalike() {
    Bytes s;
    switch (r.below(3)) {
        case 0: {
            B33 pk = wallet_key(cfg.wallet, Path{HARD | 44, HARD | 429, HARD, 0, (uint32_t) r.below(8)}).pk;
            s = {0x00, 0x08, 0xcd};
            s.insert(s.end(), pk.begin(), pk.end());
            break;
        }
        case 1:
            s = P2SH_PREFIX;
            cat(s, r.bytes(24));
            cat(s, P2SH_SUFFIX);
            break;
        default: s = FEE_TREE;
    }
    Bytes t;
    switch (r.below(5)) {
        case 0:  // it is the last chunk
            t = r.bytes(255 * (1 + r.below(3)));
            cat(t, s);
            break;
        case 1:  // it starts the script
            t = s;
            cat(t, r.bytes(r.chance(0.4) ? 255 - s.size() : r.chance(0.5) ? 1 + r.below(3) : 1 + r.below(400)));
            break;
        case 2:  // it ends the script
            t = r.bytes(r.chance(0.4) ? 255 - s.size() : 1 + r.below(400));
            cat(t, s);
            break;
        case 3: {  // it starts a chunk in the middle
            t = r.bytes(255);
            cat(t, s);
            cat(t, r.bytes(255 - s.size() + r.below(200)));
            break;
        }
        default:  // twice
            t = s;
            cat(t, s);
    }
    return t;
}
void Sim::mutate_flow(Flow &f) {
    f.honest = false;
    w.c.mutated++;
    int n = r.chance(0.7) ? 1 : 2;
    while (n--) {
        auto &v = f.steps;
        if (v.size() < 2) {
            if (v.empty()) return;
            if (r.chance(0.5) && !v[0].data.empty()) v[0].data.pop_back();
            else v[0].data.push_back((uint8_t) r.next());
            continue;
        }
        size_t i = r.chance(0.9) ? 1 + r.below(v.size() - 1) : 0;
        switch (r.below(11)) {
            case 0: v.erase(v.begin() + (long) i); break;
            case 1: v.insert(v.begin() + (long) i, v[i]); break;
            case 2:
                if (i + 1 < v.size()) std::swap(v[i], v[i + 1]);
                break;
            case 3: {  // move somewhere else
                Step s = v[i];
                v.erase(v.begin() + (long) i);
                v.insert(v.begin() + (long) (1 + r.below(v.size())), s);
                break;
            }
            case 4: {  // cut a stretch
                size_t k = 1 + r.below(4);
                v.erase(v.begin() + (long) i, v.begin() + (long) std::min(v.size(), i + k));
                break;
            }
            case 5:
                if (!v[i].data.empty()) v[i].data.resize(r.chance(0.5) ? v[i].data.size() - 1 : r.below(v[i].data.size()));
                break;
            case 6: {
                size_t k = r.chance(0.5) ? 1 : 1 + r.below(40);
                for (size_t j = 0; j < k; j++) v[i].data.push_back((uint8_t) r.next());
                break;
            }
            case 7: {  // counts in headers
                for (size_t t = 0; t < 8; t++) {
                    Step &s = v[r.below(v.size())];
                    static const std::vector<int> offs_start{0, 1, 2, 3, 4, 5, 6}, offs_out{8, 9, 10, 11, 16, 17, 18, 19, 20}, offs_att{42, 43, 44, 45, 50, 51, 52, 53, 54};
                    const std::vector<int> *o = s.ins == 0x21 && s.p1 == 0x10 ? &offs_start : s.ins == 0x21 && s.p1 == 0x15 ? &offs_out : s.ins == 0x20 && s.p1 == 1 ? &offs_att : nullptr;
                    if (!o) continue;
                    size_t k = (size_t) (*o)[r.below(o->size())];
                    if (k < s.data.size()) s.data[k] = r.chance(0.6) ? (uint8_t) (s.data[k] + (r.chance(0.5) ? 1 : 255)) : r.chance(0.5) ? 0 : (uint8_t) r.next();
                    break;
                }
                break;
            }
            case 8: v[i].p1 = (uint8_t) (r.chance(0.8) ? (v[i].ins == 0x21 ? 0x10 + r.below(0x11) : 1 + r.below(6)) : r.below(256)); break;
            case 9: {  // repeat an earlier step here
                Step s = v[r.below(v.size())];
                v.insert(v.begin() + (long) i, s);
                break;
            }
            default:  // move bytes between neighbours
                if (i + 1 < v.size() && v[i].p1 == v[i + 1].p1 && !v[i + 1].data.empty() && v[i].box < 0) {
                    size_t k = 1 + r.below(v[i + 1].data.size());
                    v[i].data.insert(v[i].data.end(), v[i + 1].data.begin(), v[i + 1].data.begin() + (long) k);
                    v[i + 1].data.erase(v[i + 1].data.begin(), v[i + 1].data.begin() + (long) k);
                    if (r.chance(0.5)) v.erase(v.begin() + (long) i + 1);
                } else
                    v.erase(v.begin() + (long) i);
        }
    }
    for (auto &s : f.steps)
        if (s.data.size() > 255) s.data.resize(255);
}
// ------------------------------------------------------------------ commands
Cmd Sim::build(Host &h, const Step &s) {
    Cmd c;
    c.note = s.note;
    Bytes d;
    if (s.box >= 0) {
        Box &b = pool[(size_t) s.box];
        const Box::F *fr = nullptr;
        auto it = b.frames.find(s.frame);
        if (it != b.frames.end()) fr = &it->second;
        int forge = s.forge;
        if (!final_phase && !forge && r.chance(P.forge * calm)) forge = 1 + (int) r.below(12);
        std::vector<const Box::F *> old;
        for (auto &o : pool)
            for (auto &x : o.history) old.push_back(&x);
        if (forge == 5 && !old.empty()) {
            fr = old[r.below(old.size())];
            c.note += " (other or older frame)";
        }
        if (!fr && !old.empty()) fr = old[r.below(old.size())];
        if (fr) {
            d = fr->data;
            c.deps.push_back({fr->ev, fr->hash});
        } else
            d = r.bytes(43 + 16 + 40 * r.below(5));
        size_t body = d.size() >= 16 ? d.size() - 16 : 0;
        if (forge && forge != 5 && body >= 43) {
            c.note += " (forged)";
            w.c.mutated++;
            auto flip = [&](size_t o) { d[o] ^= (uint8_t) (1 << r.below(8)); };
            auto field = [&] {
                switch (r.below(5)) {
                    case 0: flip(34 + r.below(8)); break;
                    case 1: flip(r.below(32)); break;
                    case 2: d[33] = (uint8_t) (d[33] + 1); break;
                    case 3: d[32] = (uint8_t) (d[32] + (r.chance(0.5) ? 1 : 255)); break;
                    default: flip(body > 43 ? 43 + r.below(body - 43) : 34 + r.below(8));
                }
            };
            auto remac = [&](const Bytes &key) {
                B32 m = hmac_sha256(key.data(), key.size(), d.data(), body);
                std::copy(m.begin(), m.begin() + 16, d.begin() + (long) body);
            };
            switch (forge) {
                case 1: flip(r.below(body)); break;
                case 2: flip(body + r.below(16)); break;
                case 3: flip(d.size() - 1); break;
                case 4:
                    if (!old.empty()) {
                        const Box::F *o = old[r.below(old.size())];
                        std::copy(o->data.end() - 16, o->data.end(), d.end() - 16);
                        c.deps.push_back({o->ev, o->hash});
                        if (r.chance(0.5)) field();
                    }
                    break;
                case 6:
                    field();
                    remac(Bytes(32, 0));
                    break;
                case 7: d.resize(r.chance(0.5) ? d.size() - 1 - r.below(16) : r.below(d.size())); break;
                case 8:
                    for (size_t k = 1 + r.below(8); k > 0; k--) d.push_back((uint8_t) r.next());
                    break;
                case 9: field(); break;
                case 10:
                    field();
                    remac(Bytes(r.chance(0.5) ? 16 : 32, 0xff));
                    break;
                case 11:
                    for (size_t k = 0; k < 16; k++) d[body + k] = r.chance(0.5) ? 0 : d[body];
                    field();
                    break;
                default:  // other number of tokens
                    if (d[42] > 0 && r.chance(0.5)) {
                        d[42]--;
                        d.erase(d.begin() + 43, d.begin() + 83);
                    } else {
                        d[42]++;
                        Bytes t = r.bytes(40);
                        d.insert(d.begin() + 43, t.begin(), t.end());
                    }
            }
        }
        cat(d, s.data);
        if (d.size() > 255) d.resize(255);
    } else
        d = s.data;
    uint8_t p2 = s.p2;
    if (s.session_p2) {
        p2 = h.flow.sid > 0 ? (uint8_t) h.flow.sid : 1;
        if (!final_phase && r.chance(P.mut_step * 0.5 * calm)) {
            c.note += " (session number altered)";
            switch (r.below(5)) {
                case 0: p2++; break;
                case 1: p2--; break;
                case 2: p2 = h.prev_sid > 0 ? (uint8_t) h.prev_sid : p2; break;
                case 3: p2 ^= (uint8_t) (1 << r.below(8)); break;
                default: p2 = (uint8_t) r.next();
            }
        }
    }
    c.apdu = {0xE0, s.ins, s.p1, p2, (uint8_t) d.size()};
    cat(c.apdu, d);
    if (!final_phase && r.chance(P.mut_step * calm)) mutate_bytes(c);
    return c;
}
void Sim::mutate_bytes(Cmd &c) {
    w.c.mutated++;
    c.note += " (altered)";
    Bytes &a = c.apdu;
    while (a.size() < 5) a.push_back((uint8_t) r.next());
    switch (r.below(10)) {
        case 0: a[r.below(a.size())] ^= (uint8_t) (1 << r.below(8)); break;
        case 1: a[0] = (uint8_t) r.next(); break;
        case 2: a[1] = (uint8_t) (r.chance(0.5) ? r.next() : r.pick(std::vector<int>{0, 1, 2, 3, 0x0f, 0x10, 0x11, 0x12, 0x1f, 0x20, 0x21, 0x22})); break;
        case 3: a[2] = (uint8_t) (r.chance(0.4) ? 0 : r.next()); break;
        case 4: a[3] = (uint8_t) (r.chance(0.4) ? 0 : r.next()); break;
        case 5: a[4] = (uint8_t) (a[4] + (r.chance(0.5) ? 1 : 255)); break;
        case 6: a.resize(r.below(a.size() + 1)); break;
        case 7:
            for (size_t k = 1 + r.below(20); k > 0; k--) a.push_back((uint8_t) r.next());
            break;
        case 8:  // consistent truncation
            if (a.size() > 5) {
                a.resize(5 + r.below(a.size() - 5));
                a[4] = (uint8_t) (a.size() - 5);
            }
            break;
        default:  // consistent extension
            for (size_t k = 1 + r.below(8); k > 0 && a.size() < 260; k--) a.push_back((uint8_t) r.next());
            a[4] = (uint8_t) (a.size() - 5);
    }
    if (a.size() > 260) a.resize(260);
}
// A command every device must refuse without noticing: wrong length, class, instruction, or dispatch parameters.
Cmd Sim::malformed() {
    Cmd c;
    if (!sent.empty() && r.chance(0.8))
        c = sent[sent.size() - 1 - r.below(std::min<size_t>(sent.size(), r.chance(0.7) ? 4 : 60))];
    else
        c.apdu = {0xE0, (uint8_t) r.pick(std::vector<int>{1, 2, 0x10, 0x11, 0x20, 0x21}), (uint8_t) r.below(3), (uint8_t) r.below(3), 0};
    c.note = "malformed";
    Bytes &a = c.apdu;
    while (a.size() < 5) a.push_back((uint8_t) r.next());
    switch (r.below(9)) {
        case 0: a[4] = (uint8_t) (a[4] + (r.chance(0.5) ? 1 : 255)); break;
        case 1: a.resize(r.below(a.size())); break;
        case 2:
            for (size_t k = 1 + r.below(20); k > 0; k--) a.push_back((uint8_t) r.next());
            break;
        case 3: a[0] = (uint8_t) (r.chance(0.6) ? 0xE0 ^ (1 << r.below(8)) : r.next()); break;
        case 4: a[1] = (uint8_t) (r.chance(0.5) ? r.next() : r.pick(std::vector<int>{0, 3, 4, 0x0f, 0x12, 0x1f, 0x22, 0x30, 0xff})); break;
        case 5: a[2] = 0; break;
        case 6: a[3] = 0; break;
        case 7: {
            uint8_t ins = (uint8_t) r.pick(std::vector<int>{0x10, 0x11});
            if (r.chance(0.6)) {  // otherwise in good form
                Bytes d;
                if (ins == 0x11) d.push_back(r.chance(0.5) ? 0x10 : 0);
                cat(d, path_bytes(ins == 0x10 ? epk_path(false) : addr_path(false)));
                bool tok = r.chance(0.4);
                if (tok) be(d, r.chance(0.5) ? w.m.connected : (uint32_t) r.next(), 4);
                a = {0xE0, ins, (uint8_t) r.range(1, 2), (uint8_t) (ins == 0x10 ? 0 : 1), (uint8_t) d.size()};
                a[ins == 0x10 ? 2 : 3] = tok ? 2 : 1;
                cat(a, d);
            }
            a[1] = ins;
            uint8_t bad = (uint8_t) (r.chance(0.5) ? 3 + r.below(2) : r.chance(0.2) ? 0 : 3 + r.below(253));
            if (r.chance(0.5)) a[2] = bad;
            else if (ins == 0x10) a[3] = r.chance(0.6) ? (uint8_t) r.range(1, 2) : (uint8_t) (1 + r.below(255));
            else a[3] = bad;
            break;
        }
        default: {
            a = {0xE0, (uint8_t) r.range(1, 2), 0, 0, 0};
            int k = (int) r.below(3);
            if (k == 0) a[2] = (uint8_t) (1 + r.below(255));
            if (k == 1) a[3] = (uint8_t) (1 + r.below(255));
            if (k == 2) {
                Bytes d = r.bytes(1 + r.below(30));
                a[4] = (uint8_t) d.size();
                cat(a, d);
            }
        }
    }
    if (a.size() > 260) a.resize(260);
    return c;
}
Cmd Sim::stray() {
    if (r.chance(P.malformed)) return malformed();
    Cmd c;
    c.note = "stray";
    auto mk = [&](uint8_t ins, uint8_t p1, uint8_t p2, const Bytes &d) {
        c.apdu = {0xE0, ins, p1, p2, (uint8_t) d.size()};
        cat(c.apdu, d);
    };
    switch (r.chance(P.cross) ? 7 : r.below(12)) {
        case 0:
        case 1: mk((uint8_t) r.range(1, 2), 0, 0, {}); break;
        case 2:
            mk((uint8_t) r.range(1, 2), r.chance(0.3) ? 1 : 0, r.chance(0.3) ? 1 : 0, r.bytes(r.below(4)));
            break;
        case 3: c.apdu = r.bytes(r.below(40)); break;
        case 4:
        case 5:
            if (!sent.empty()) {
                c = sent[sent.size() - 1 - r.below(std::min<size_t>(sent.size(), r.chance(0.6) ? 6 : 60))];
                c.note += " (replayed)";
                break;
            }
            /* fallthrough */
        case 6:
            if (!sent.empty()) {
                c = sent[sent.size() - 1 - r.below(std::min<size_t>(sent.size(), 10))];
                c.note = "stray";
                mutate_bytes(c);
                break;
            }
            /* fallthrough */
        case 7: {
            bool at = r.chance(0.5);
            uint8_t p1 = at ? (uint8_t) (1 + r.below(5)) : r.chance(0.15) ? 0x20 : (uint8_t) (0x10 + r.below(11));
            if (r.chance(0.5)) {  // a step of the other kind than the session that is open, in good form, with a number from recent data
                const Session &ses = w.m.s;
                if (ses.k != Session::NONE && r.chance(0.85)) at = ses.k == Session::SIGN;
                p1 = at ? (uint8_t) (r.chance(0.4) ? 5 : 2 + r.below(4)) : r.chance(0.15) ? 0x20 : r.chance(0.35) ? 0x10 : (uint8_t) (0x10 + r.below(10));
                std::vector<uint8_t> nz;
                for (size_t k = sent.size(); k-- > 0 && nz.size() < 150 && k + 8 > sent.size();)
                    {
                        auto &x = sent[k].apdu;
                        bool head = x.size() > 20 && x[0] == 0xE0 && ((x[1] == 0x20 && x[2] == 1) || (x[1] == 0x21 && x[2] == 0x12));
                        for (size_t j = 5; j < std::min<size_t>(x.size(), 50); j++)
                            for (int w2 = head ? 4 : 1; x[j] && w2 > 0; w2--) nz.push_back(x[j]);
                    }
                if (at && ses.k == Session::SIGN && r.chance(0.6)) {  // running totals: what both sides know and the device must hold
                    nz.clear();
                    auto v = r.chance(0.8) ? ses.s.erg_in - ses.s.change - ses.s.fee : r.chance(0.5) ? ses.s.erg_in : ses.s.fee;
                    for (int k = 0; k < 8; k++)
                        if ((uint8_t) (v >> 8 * k)) nz.push_back((uint8_t) (v >> 8 * k));
                }
                if (!at && ses.k == Session::ATTEST && r.chance(0.6)) {
                    nz.clear();
                    for (auto x : ses.a.txid)
                        if (x) nz.push_back(x);
                }
                uint8_t id = !nz.empty() && r.chance(0.75) ? r.pick(nz) : w.m.last_granted > 0 && r.chance(0.5) ? (uint8_t) w.m.last_granted : (uint8_t) r.next();
                Bytes d;
                size_t n = at ? (p1 == 3 ? 40 : p1 == 5 ? 1 : 1 + r.below(60)) : p1 == 0x10 ? 7 : p1 == 0x11 ? 32 : p1 == 0x14 ? 32 : p1 == 0x15 ? 21 : p1 == 0x17 || p1 == 0x20 ? 0 : p1 == 0x19 ? 12 : 1 + r.below(60);
                d = r.bytes(n);
                if (r.chance(0.7)) for (auto &x : d) x = r.chance(0.8) ? 0 : (uint8_t) r.below(4);
                if (p1 == 0x10 && r.chance(0.8)) d = {0, (uint8_t) r.range(1, 2), 0, (uint8_t) r.below(2), 0, (uint8_t) r.range(1, 2), (uint8_t) r.below(2)};
                if (p1 == 0x18) d = path_bytes(addr_path(false));
                mk(at ? 0x20 : 0x21, p1, id, d);
                c.note = "step of another kind";
                break;
            }
            uint8_t id = w.m.last_granted > 0 && r.chance(0.6) ? (uint8_t) w.m.last_granted : !sids.empty() && r.chance(0.7) ? (uint8_t) r.pick(sids) : (uint8_t) r.next();
            if (r.chance(0.1)) id = (uint8_t) (id + (r.chance(0.5) ? 1 : 255));
            mk(at ? 0x20 : 0x21, p1, id, r.bytes(r.chance(0.4) ? 0 : r.below(60)));
            break;
        }
        case 8: {  // other class, instruction, parameters
            mk((uint8_t) r.next(), (uint8_t) r.below(3), (uint8_t) r.below(3), r.bytes(r.below(12)));
            if (r.chance(0.4)) c.apdu[0] = (uint8_t) r.next();
            break;
        }
        case 9: {
            Path p = addr_path(false);
            Bytes d{0};
            cat(d, path_bytes(p));
            bool tok = r.chance(0.4);
            if (tok) be(d, r.chance(0.5) ? w.m.connected : (uint32_t) r.next(), 4);
            mk(r.chance(0.5) ? 0x11 : 0x21, (uint8_t) (r.chance(0.7) ? 1 : 2), tok ? 2 : 1, d);
            break;
        }
        case 10: {
            Bytes d = r.bytes(34);
            be(d, num(50), 8);
            be(d, 36, 4);
            be(d, 5, 4);
            d.push_back((uint8_t) r.below(3));
            be(d, 0, 4);
            bool tok = r.chance(0.5);
            if (tok) be(d, r.chance(0.5) ? w.m.connected : (uint32_t) r.next(), 4);
            mk(0x20, 1, tok ? 2 : 1, d);
            break;
        }
        default: {
            Bytes d = path_bytes(epk_path(false));
            bool tok = r.chance(0.5);
            if (tok) be(d, r.chance(0.5) ? w.m.connected : (uint32_t) r.next(), 4);
            mk(0x10, tok ? 2 : 1, 0, d);
        }
    }
    if (c.apdu.size() > 260) c.apdu.resize(260);
    return c;
}
// ------------------------------------------------------------------ faults
// Which fallible calls an event can be expected to make (a hint for aiming faults, not an assumption).
struct Aim {
    uint8_t call;
    uint8_t n;
};
static std::vector<Aim> aims(const Event &e, PromptKind pk) {
    enum { DERIVE = 1, PRIV = 2, PUB = 3, PAIR = 4, SMUL = 5, PADD = 6, CMP = 7, ADDM = 8, SUBM = 9, MULTM = 10, HINIT = 15, HUPD = 16, HFIN = 17, HONE = 18 };
    if (e.kind != EV_APDU) {
        if (pk == PK_FINAL && e.kind == EV_BOTH) return {{DERIVE, 1}, {PRIV, 1}, {ADDM, 1}, {ADDM, 1}, {MULTM, 1}, {MULTM, 1}, {HFIN, 1}, {SUBM, 1}, {HUPD, 2}, {SMUL, 1}};
        if (pk == PK_OUTPUT) return {{HONE, 1}, {HONE, 1}, {HUPD, 2}};
        return {{DERIVE, 1}, {PRIV, 1}, {SMUL, 2}, {CMP, 3}, {HINIT, 1}, {HUPD, 4}, {HONE, 1}};
    }
    uint8_t ins = e.apdu.size() > 2 ? e.apdu[1] : 0, p1 = e.apdu.size() > 2 ? e.apdu[2] : 0;
    if (ins == 0x10) return {{DERIVE, 1}, {PRIV, 1}, {PAIR, 1}};
    if (ins == 0x11) return {{DERIVE, 1}, {PRIV, 1}, {PAIR, 1}, {HONE, 1}};
    if (ins == 0x20 && p1 == 1) return {{HINIT, 1}, {HUPD, 1}};
    if (ins == 0x20) return {{HUPD, 6}, {HFIN, 1}, {HUPD, 1}};
    if (ins == 0x21) switch (p1) {
            case 0x01: return {{DERIVE, 1}, {PRIV, 1}, {SMUL, 2}, {CMP, 3}, {HINIT, 1}, {HUPD, 4}};
            case 0x15: return {{HUPD, 1}, {HINIT, 1}};
            case 0x16: return {{HINIT, 1}, {HUPD, 5}, {HFIN, 1}};
            case 0x18: return {{DERIVE, 1}, {PRIV, 1}, {PAIR, 1}, {HUPD, 4}};
            case 0x12: case 0x14: return {{HUPD, 3}, {HUPD, 12}};
            case 0x19: return {{HUPD, 3}, {HFIN, 1}};
            case 0x1A: return {{HUPD, 1}, {HFIN, 1}};
            default: return {{HUPD, 4}};
        }
    return {{HUPD, 1}};
}
void Sim::attach_faults(Event &e) {
    if (final_phase) return;
    // The frame key is drawn at power-on: a predictable generator there voids the attestation by definition, so it stays honest.
    if (e.kind == EV_BOOT || e.kind == EV_IOERR || e.kind == EV_PROBE) return;
    bool button = e.kind != EV_APDU;
    bool key_event = button ? (w.m.busy() && e.kind == EV_BOTH) : (e.apdu.size() >= 5 && e.apdu[1] >= 0x10);
    double scale = key_event ? 1 : 0.15;
    if (key_event && (button ? w.m.p.kind == PK_FINAL || w.m.p.kind == PK_SIGN : (e.apdu[1] == 0x10 || e.apdu[1] == 0x11 || (e.apdu[1] == 0x21 && (e.apdu[2] == 1 || e.apdu[2] == 0x20 || e.apdu[2] == 0x18))))) scale = 3;
    double pf = P.fault * scale;
    if (focus && P.fault > 0) {  // this run aims its faults at one kind of step
        int cls = button ? (w.m.p.kind == PK_FINAL ? 1 : w.m.p.kind == PK_SIGN ? 2 : w.m.p.kind == PK_OUTPUT ? 4 : w.m.p.kind == PK_ATTEST ? 5 : 3)
                         : e.apdu.size() < 3 ? 0 : e.apdu[1] == 0x10 || e.apdu[1] == 0x11 ? 3 : e.apdu[1] == 0x20 ? 5
                         : e.apdu[1] != 0x21 ? 0 : e.apdu[2] == 1 ? 2 : e.apdu[2] >= 0x12 && e.apdu[2] <= 0x14 ? 6 : e.apdu[2] == 0x20 ? 1 : 4;
        pf = cls == focus && (!button || e.kind == EV_BOTH || cls == 3) ? std::min(0.5, P.fault * (cls == 1 ? 12 : 5)) : 0;
    }
    if (r.chance(pf)) {
        auto at = aims(e, w.m.p.kind);
        unsigned k = r.chance(P.fault_burst) ? 2 + (unsigned) r.below(3) : 1;
        static const std::vector<uint32_t> codes{0xFFFFFF85, 0xFFFFFF21, 0xFFFFFF81, 0xFFFFFF88, 0xFFFFFF41, 0xFFFFFFA2, 1};  // as documented by the SDK
        for (unsigned i = 0; i < k; i++) {
            Fault f;
            if (r.chance(0.75)) {
                Aim a = r.pick(at);
                f.call = a.call;
                f.at = (uint32_t) r.below(a.n);
            } else {
                f.at = (uint32_t) r.below(r.chance(0.5) ? 4 : 20);
            }
            f.kind = r.chance(P.fault_cut) ? (r.chance(0.5) ? F_CRASH_BEFORE : F_CRASH_AFTER) : F_FAIL;
            f.code = r.pick(codes);
            e.faults.push_back(f);
        }
    }
    // A failure that lasts: every call of one kind, or every long draw, for the rest of the event.
    bool starts = (!button && e.apdu.size() >= 5 && e.apdu[1] == 0x21 && e.apdu[2] == 1) || (button && e.kind == EV_BOTH && w.m.p.kind == PK_SIGN);
    if (r.chance(starts ? std::min(0.02, P.fault) : 0.03 * P.fault * scale)) {
        Fault f;
        Aim a = r.pick(aims(e, w.m.p.kind));
        f.call = a.call;
        f.at = (uint32_t) r.below(a.n);
        f.kind = F_STICKY;
        f.code = 0xFFFFFF85;
        e.faults.push_back(f);
    }
    if (starts && r.chance(std::min(0.02, P.rng))) {
        static const std::vector<unsigned> kinds{R_ZERO, R_N, R_ABOVE_N, R_FF};
        e.rng.push_back({(uint32_t) r.below(2), (uint8_t) (R_STICKY + r.pick(kinds))});
    }
    if (r.chance(P.rng * scale)) {
        unsigned k = 1 + (unsigned) r.below(3), first = (unsigned) r.below(2), kind = (unsigned) r.below(R_KINDS);
        for (unsigned i = 0; i < k; i++) e.rng.push_back({first + i, (uint8_t) (r.chance(0.7) ? kind : r.below(R_KINDS))});
    }
}
// ------------------------------------------------------------------ scheduler
void Sim::push(Item it, uint64_t delay) {
    it.t = now + delay;
    it.seq = ++seq;
    q.push(it);
}
bool Sim::exec(Event &e) {
    e.id = next_id++;
    attach_faults(e);
    trace.push_back(e);
    if (on_event) on_event(trace.back());
    uint64_t before = w.c.events;
    dev = w.step(trace.back());
    if (w.c.events == before) {
        dev.tags = 0;
        stop = true;
        return false;
    }
    if (dev) stop = true;
    return !stop;
}
void Sim::after_event() {
    if (stop) return;
    if (!w.on()) {
        if (owner_host >= 0) owner_host = -1;
        user_scheduled = stray_scheduled = false;
        return;
    }
    if (w.m.busy()) {
        if (!user_scheduled) {
            user_scheduled = true;
            user_step = 0;
            double t = 0, x;
            for (double v : P.style) t += v;
            x = (double) r.below(100000) / 100000 * t;
            style = U_READER;
            for (int i = 0; i < U_STYLES; i++) {
                if (x < P.style[i]) {
                    style = (UserStyle) i;
                    break;
                }
                x -= P.style[i];
            }
            Item it;
            it.type = Item::USER;
            push(it, style == U_IDLE ? 5000 + r.below(60000) : 300 + r.below(1500));
            if (r.chance(P.stray_prompt)) {
                for (unsigned k = 1 + (unsigned) r.below(3); k > 0; k--) {
                    Item d;
                    d.type = Item::DELIVER;
                    d.cmd = stray();
                    w.c.interleaved++;
                    push(d, r.below(3000));
                }
            }
        }
    } else {
        user_scheduled = false;
        if (r.chance(P.menu)) {
            Item it;
            it.type = Item::MENU;
            push(it, r.below(500));
        }
    }
}
void Sim::send(int h, const Cmd &c, bool fresh) {
    Host &H = hosts[(size_t) h];
    H.last = c;
    H.await = ++msgno;
    if (fresh) H.tries = 0;
    sent.push_back(c);
    if (sent.size() > 300) sent.erase(sent.begin(), sent.begin() + 100);
    Item d;
    d.type = Item::DELIVER;
    d.host = h;
    d.msg = H.await;
    d.cmd = c;
    uint64_t delay = 1 + r.below(8);
    bool lost = false;
    if (r.chance(P.net * calm)) {
        switch (r.below(4)) {
            case 0:
                lost = true;
                w.c.net_lost++;
                break;
            case 1:
                d.lose_reply = true;
                w.c.net_lost++;
                break;
            case 2: {
                Item e = d;
                e.host = -1;  // the duplicate's answer is lost
                w.c.net_dup++;
                push(e, delay + 1 + r.below(3000));
                break;
            }
            default:
                delay += r.below(H.timeout * 2);
                w.c.net_delayed++;
                w.c.net_reordered++;
        }
    }
    if (!lost) push(d, delay);
    Item t;
    t.type = Item::TIMEOUT;
    t.host = h;
    t.msg = H.await;
    push(t, H.timeout + r.below(200));
    if (r.chance(P.stray * calm)) {
        Item s;
        s.type = Item::DELIVER;
        s.cmd = stray();
        w.c.interleaved++;
        push(s, r.below(30));
    }
}
void Sim::new_jobs(int h) {
    Host &H = hosts[(size_t) h];
    double t = P.w_key + P.w_attest + P.w_tx + P.w_status, x = (double) r.below(100000) / 100000 * t;
    Job j;
    if (x < P.w_key) {
        j.kind = FL_KEY;
        H.jobs.push_back(j);
    } else if (x < P.w_key + P.w_attest) {
        j.kind = FL_ATTEST;
        std::vector<int> c;
        j.box = !pool.empty() && r.chance(0.3) ? (int) r.below(pool.size()) : new_box(false);
        H.jobs.push_back(j);
    } else if (x < P.w_key + P.w_attest + P.w_tx) {
        j.kind = FL_SIGN;
        unsigned n = 1 + (unsigned) r.below(P.max_inputs);
        for (unsigned i = 0; i < n; i++) j.boxes.push_back(!pool.empty() && r.chance(0.55) ? (int) r.below(pool.size()) : new_box(r.chance(0.5)));
        bool use_old = r.chance(P.old_frame);
        for (int b : j.boxes)
            if (!pool[(size_t) b].complete(bootno) && !(use_old && pool[(size_t) b].frames.size() == pool[(size_t) b].count())) {
                Job a;
                a.kind = FL_ATTEST;
                a.box = b;
                H.jobs.push_back(a);
            }
        H.jobs.push_back(j);
        if (r.chance(0.1)) H.jobs.push_back(j);
    } else {
        j.kind = FL_STATUS;
        H.jobs.push_back(j);
    }
}
void Sim::start_flow(int h) {
    Host &H = hosts[(size_t) h];
    if (H.jobs.empty()) new_jobs(h);
    Job j = H.jobs.front();
    H.jobs.pop_front();
    switch (j.kind) {
        case FL_KEY: H.flow = key_flow(H); break;
        case FL_ATTEST: H.flow = attest_flow(H, j.box); break;
        case FL_SIGN:
            H.flow = sign_flow(H, j.boxes);
            if (H.flow.steps.size() > 80 && stretch) {  // long enough to be signed, too
                target = std::max(target, (unsigned) (trace.size() + H.flow.steps.size() + H.flow.steps.size() / 4 + 40));
                stretch--;
                long_host = h;
                calm = 15.0 / (double) H.flow.steps.size();
            }
            break;
        default: {
            H.flow = Flow();
            H.flow.kind = FL_STATUS;
            Step s;
            s.ins = (uint8_t) r.range(1, 2);
            s.note = "status";
            H.flow.steps.push_back(s);
        }
    }
    if (r.chance(P.mut_flow)) mutate_flow(H.flow);
    H.active = true;
    H.stubborn = 0;
}
void Sim::host_continue(int h) {
    Host &H = hosts[(size_t) h];
    if (!H.active && long_host >= 0 && !r.chance(0.02)) {  // let a long transaction of another host come to its end, mostly
        Item it;
        it.type = Item::WAKE;
        it.host = h;
        push(it, 2000 + r.below(20000));
        return;
    }
    if (!H.active) start_flow(h);
    if (H.flow.pc >= H.flow.steps.size()) {
        host_finish(h, true);
        return;
    }
    Cmd c = build(H, H.flow.steps[H.flow.pc]);
    send(h, c, true);
}
void Sim::host_finish(int h, bool ok) {
    Host &H = hosts[(size_t) h];
    H.active = false;
    H.await = 0;
    if (H.flow.sid > 0) H.prev_sid = H.flow.sid;
    if (long_host == h) long_host = -1, calm = 1;
    if (!ok && r.chance(0.5)) {  // drop the rest of the job list or carry on
        H.jobs.clear();
    }
    Item it;
    it.type = Item::WAKE;
    it.host = h;
    push(it, 20 + r.below(1000));
}
void Sim::host_reply(int h, uint64_t msg, const Response &resp, uint32_t ev) {
    Host &H = hosts[(size_t) h];
    if (H.await != msg || !H.active) return;
    Flow &f = H.flow;
    H.await = 0;
    auto again = [&](uint64_t d) {
        Item it;
        it.type = Item::WAKE;
        it.host = h;
        push(it, d);
    };
    if (resp.sw == 0x9000) {
        if (f.pc < f.steps.size()) {
            Step &s = f.steps[f.pc];
            if (s.cap == CAP_SID && resp.data.size() == 1) {
                f.sid = resp.data[0];
                sids.push_back(f.sid);
                if (sids.size() > 6) sids.erase(sids.begin());
            }
            if (s.cap == CAP_FRAME && resp.data.size() >= 59 && f.box >= 0) {
                Box &b = pool[(size_t) f.box];
                Box::F x;
                x.data = resp.data;
                x.ev = ev;
                x.hash = hash_bytes(resp.data);
                if (b.boot == bootno) b.frames[s.frame] = x;
                b.history.push_back(x);
                if (b.history.size() > 12) b.history.erase(b.history.begin() + 1);
            }
        }
        f.pc++;
        again(H.think ? 1 + r.below(H.think) : 1);
        return;
    }
    if (resp.sw == 0xB000 && H.tries < 6) {
        H.tries++;
        w.c.retries++;
        Item it;
        it.type = Item::TIMEOUT;  // resend the same command later
        it.host = h;
        it.msg = H.await = ++msgno;
        push(it, 500 + r.below(4000));
        return;
    }
    // The request failed. A careful host gives up; others carry on in the same session one way or another.
    if (!final_phase && !f.steps.empty() && r.chance(H.sloppy ? 0.85 : 0.1) && H.stubborn++ < 25) {
        uint64_t x = r.below(100);
        f.honest = false;
        if (x < 50)
            f.pc++;                                             // as if it had succeeded
        else if (x < 72)
            ;                                                   // the same again
        else if (x < 84)
            f.pc -= std::min<uint64_t>(f.pc, 1 + r.below(3));   // some steps back
        else if (x < 92)
            f.pc += r.below(f.steps.size() - std::min(f.pc, f.steps.size() - 1));
        else if (x < 97)
            f.pc = f.steps.size() - 1;                          // straight to the end
        else
            f.pc = 0;
        again(1 + r.below(20));
        return;
    }
    host_finish(h, false);
}
void Sim::user_act() {
    Event e;
    Display d = display();
    bool ap = d.a == "Approve", rj = d.a == "Reject";
    auto reader = [&] { return ap ? EV_BOTH : EV_RIGHT; };
    int k = EV_RIGHT;
    user_step++;
    switch (style) {
        case U_READER:
        case U_IDLE: k = reader(); break;
        case U_FAST: k = ap ? EV_BOTH : EV_LEFT; break;
        case U_ERRATIC: {
            uint64_t x = r.below(100);
            k = x < 45 ? EV_RIGHT : x < 80 ? EV_LEFT : EV_BOTH;
            break;
        }
        case U_REJECT: k = rj ? EV_BOTH : EV_LEFT; break;
        case U_REVIEWER: {
            // goes through everything, back and forth, before deciding
            int total = (int) w.m.p.screens.size() * 2 + 3;
            if (user_step > total * 2) k = reader();
            else if (user_step > total) k = ap || rj ? EV_LEFT : (r.chance(0.7) ? EV_LEFT : EV_RIGHT);
            else k = r.chance(0.85) ? EV_RIGHT : EV_LEFT;
            if (user_step > 60) k = reader();
            break;
        }
        default: k = w.m.p.path == w.m.p.pos ? EV_BOTH : reader();
    }
    e.kind = (uint8_t) k;
    exec(e);
}
Outcome Sim::run(int prop, bool thorough, uint64_t seed) {
    Outcome out;
    r = Rng(mix(seed, 0xA11CE));
    P = profile_for(prop, thorough);
    if (P.swarm) {  // swarm: each run drops some kinds of disturbance and exaggerates others
        for (double *x : {&P.mut_flow, &P.mut_step, &P.forge, &P.net, &P.fault, &P.rng, &P.power, &P.stray, &P.stray_prompt, &P.menu, &P.overflow, &P.many, &P.bigbox, &P.ioerr}) {
            uint64_t k = r.below(10);
            if (k < 4) *x = 0;
            else if (k == 9) *x *= 2.5;
        }
        for (double &x : P.style) {
            uint64_t k = r.below(8);
            if (k == 0) x *= 5;
            else if (k == 1) x = 0;
        }
        P.style[0] += 0.1;
    }
    focus = r.chance(0.5) ? 1 + (int) r.below(7) % 6 : 0;  // 1 (final approval) twice as often
    cfg.seed = mix(seed, 0xD1CE);
    cfg.wallet = 1 + mix(seed, 7) % 64;
    cfg.page_size = (unsigned) r.pick(std::vector<int>{16, 16, 10, 34});
    cfg.variant = r.chance(P.nanos) ? 1 : 0;
    trace.clear();
    w.start(cfg);
    w.c.runs++;
    if (r.chance(P.longlife)) {  // thousands of events in one power cycle: what only the n-th time goes wrong
        P.events *= 12;
        P.power = 0;
        P.ioerr = 0;
        P.fault_cut = 0;
        P.quit = 0;
        w.c.longlife++;
    }
    int nh = r.chance(P.multi_host) ? 2 + (int) r.below(2) : 1;
    for (int i = 0; i < nh; i++) {
        Host h;
        h.use_token = r.chance(P.p_token);
        h.token = r.chance(0.05) ? 0 : (uint32_t) r.next();
        h.think = (uint32_t) r.pick(std::vector<int>{2, 10, 50, 1000});
        h.timeout = (uint32_t) r.pick(std::vector<int>{2000, 30000, 120000});
        h.sloppy = r.chance(P.sloppy);
        hosts.push_back(h);
    }
    {
        Event e;
        exec(e);
        bootno++;
    }
    for (int i = 0; i < nh; i++) {
        Item it;
        it.type = Item::WAKE;
        it.host = i;
        push(it, r.below(100));
    }
    auto power_on_later = [&] {
        Item it;
        it.type = Item::POWER_ON;
        push(it, 100 + r.below(8000));
    };
    bool off_pending = false;
    target = P.events / 2 + (unsigned) r.below(P.events);
    unsigned idle = 0;
    if (P.huge > 0 && r.chance(P.huge)) {  // only one transaction, with more parts of one kind than fit two bytes of a variable-length number
        static const std::vector<unsigned> counts{16383, 16384, 16385, 20000, 32767, 32768, 65535};
        huge_kind = (unsigned) r.below(3);
        huge_n = r.pick(counts);
        target = 0;
        P.fault = P.rng = 0;
    }
    while (!stop && !q.empty() && trace.size() < target && idle < 5000) {
        Item it = q.top();
        q.pop();
        now = std::max(now, it.t);
        size_t before = trace.size();
        bool deliverable = w.on();
        switch (it.type) {
            case Item::DELIVER: {
                if (!deliverable) break;
                bool was_busy = w.m.busy();
                Event e;
                e.kind = EV_APDU;
                e.apdu = it.cmd.apdu;
                e.deps = it.cmd.deps;
                e.note = it.cmd.note;
                if (!exec(e)) break;
                if (!w.on()) break;
                if (!w.responses.empty()) {
                    if (it.host >= 0 && !it.lose_reply) {
                        Item rp;
                        rp.type = Item::REPLY;
                        rp.host = it.host;
                        rp.msg = it.msg;
                        rp.resp = w.responses[0];
                        rp.ev = e.id;
                        push(rp, 1 + r.below(5));
                    }
                } else if (!was_busy && w.m.busy()) {
                    owner_host = it.host;
                    owner_msg = it.msg;
                    owner_lose = it.lose_reply;
                }
                break;
            }
            case Item::REPLY: host_reply(it.host, it.msg, it.resp, it.ev); break;
            case Item::TIMEOUT: {
                Host &H = hosts[(size_t) it.host];
                if (H.await != it.msg || !H.active) break;
                w.c.timeouts++;
                if (H.tries < 4 && r.chance(P.retry)) {
                    H.tries++;
                    w.c.retries++;
                    send(it.host, H.last, false);
                } else
                    host_finish(it.host, false);
                break;
            }
            case Item::WAKE:
                if (hosts[(size_t) it.host].await == 0) host_continue(it.host);
                break;
            case Item::MENU: {
                if (!deliverable || w.m.busy()) break;
                Event e;
                uint64_t x = r.below(10);
                e.kind = x < 5 ? EV_RIGHT : x < 8 ? EV_LEFT : EV_BOTH;
                if (e.kind == EV_BOTH && !w.m.about && w.m.menu_pos == 2 && !r.chance(P.quit)) e.kind = EV_RIGHT;
                exec(e);
                if (!stop && r.chance(0.6)) {
                    Item m;
                    m.type = Item::MENU;
                    push(m, 100 + r.below(400));
                }
                break;
            }
            case Item::USER: {
                user_scheduled = false;
                if (!deliverable || !w.m.busy()) break;
                user_act();
                if (stop || !w.on()) break;
                if (!w.responses.empty()) {
                    if (owner_host >= 0 && !owner_lose) {
                        Item rp;
                        rp.type = Item::REPLY;
                        rp.host = owner_host;
                        rp.msg = owner_msg;
                        rp.resp = w.responses[0];
                        rp.ev = trace.back().id;
                        push(rp, 1 + r.below(5));
                    }
                    owner_host = -1;
                } else if (w.m.busy()) {
                    user_scheduled = true;
                    Item u;
                    u.type = Item::USER;
                    push(u, 50 + r.below(400));
                }
                break;
            }
            case Item::POWER_CUT: break;
            case Item::POWER_ON: {
                off_pending = false;
                if (w.on()) break;
                Event e;
                if (exec(e)) bootno++;
                break;
            }
        }
        if (stop) break;
        idle = trace.size() == before ? idle + 1 : 0;
        if (trace.size() != before) after_event();
        if (P.probe > 0 && w.on() && w.last_frame && w.last_frame == w.since_boot.size() && r.chance(P.probe)) {
            Event e;
            e.kind = EV_PROBE;
            exec(e);
        }
        if (w.on() && trace.size() != before) {
            if (r.chance(P.power * calm)) {  // power cut: an immediate or later power-on
                w.c.power_cuts++;
                owner_host = -1;
                user_scheduled = false;
                Event e;
                if (exec(e)) bootno++;
                if (!stop) after_event();
            } else if (r.chance(P.ioerr * calm)) {
                Event e;
                e.kind = EV_IOERR;
                exec(e);
                if (!stop) after_event();
            }
        }
        if (!stop && !w.on() && !off_pending) {
            off_pending = true;
            owner_host = -1;
            power_on_later();
        }
    }
    w.c.sim_ms += now;
    if (!stop && P.epilogue) {
        if (!epilogue() && !dev && !stop && !w.adopted) {
            out.harness_error = true;
            out.error = "the fault-free epilogue did not complete although nothing deviated";
        }
        w.c.epilogues++;
    }
    if (stop && !dev) {
        out.harness_error = true;
        out.error = "generated an event that cannot run";
    }
    out.dev = dev;
    return out;
}
// Once faults stop, a correct attest-and-sign must complete within a bounded number of steps.
bool Sim::epilogue() {
    final_phase = true;
    double keep_near = P.near_tree;
    (void) keep_near;
    P.overflow = P.bigbox = P.many = P.badpath = P.mut_step = P.forge = P.longpath = P.p_foreign_token = 0;
    P.max_outputs = 2;
    P.max_tokens = 3;
    P.tokens20 = 0;
    P.boundary = 0;
    auto press_until_done = [&]() -> bool {
        for (int i = 0; i < 600 && !stop && w.m.busy(); i++) {
            Event e;
            e.kind = display().a == "Approve" ? EV_BOTH : EV_RIGHT;
            if (!exec(e)) return false;
        }
        return !w.m.busy();
    };
    if (!w.on()) {
        Event e;
        if (!exec(e)) return false;
        bootno++;
    }
    if (!press_until_done()) return false;
    Host &h = hosts[0];
    h.account = {HARD | 44, HARD | 429, HARD | (uint32_t) r.below(3), 0, (uint32_t) r.below(10)};
    int b = new_box(r.chance(0.5));
    if (huge_n) {  // no sum over all inputs may wrap
        pool[(size_t) b].value &= (1ULL << 40) - 1;
        for (auto &t : pool[(size_t) b].toks) t.amt &= (1ULL << 40) - 1, t.amt += t.amt == 0;
        w.c.huge++;
    }
    uint64_t sigs = w.c.signatures;
    for (int phase = 0; phase < 2; phase++) {
        h.flow = phase == 0 ? attest_flow(h, b) : sign_flow(h, {b});
        for (h.flow.pc = 0; h.flow.pc < h.flow.steps.size(); h.flow.pc++) {
            Step &s = h.flow.steps[h.flow.pc];
            Cmd c = build(h, s);
            Event e;
            e.kind = EV_APDU;
            e.apdu = c.apdu;
            e.deps = c.deps;
            e.note = c.note;
            if (!exec(e)) return false;
            Bytes data;
            uint32_t ev = e.id;
            if (w.responses.empty()) {
                if (!press_until_done()) return false;
                ev = trace.back().id;
            }
            if (w.responses.size() != 1 || w.responses[0].sw != 0x9000) return false;
            data = w.responses[0].data;
            if (s.cap == CAP_SID) h.flow.sid = data[0];
            if (s.cap == CAP_FRAME) {
                Box::F x;
                x.data = data;
                x.ev = ev;
                x.hash = hash_bytes(data);
                pool[(size_t) b].frames[s.frame] = x;
            }
        }
    }
    return w.c.signatures == sigs + 1;
}
// ------------------------------------------------------------------ per-property emphasis
Profile profile_for(int prop, bool thorough) {
    Profile p;
    (void) thorough;
    switch (prop) {
        case 1:
            p.huge = 0.0004; p.mut_flow = 0.1; p.many = 0.04; p.bigbox = 0.08; p.net = 0.02; p.fault = 0.002; p.rng = 0.01; p.stray = 0.01; p.w_attest = 0.3; p.w_key = 0.5;
            p.style[U_REJECT] = 0.1; p.style[U_ERRATIC] = 0.3;
            break;
        case 2:
            p.mut_flow = 0.3; p.net = 0.05; p.stray_prompt = 0.2; p.w_attest = 0.3; p.style[U_REJECT] = 1; p.style[U_ERRATIC] = 1.5; p.sloppy = 0.35; p.fault = 0.003; p.stray = 0.04;
            break;
        case 3:
            p.mut_flow = 0.08; p.change = 0.6; p.near_tree = 0.35; p.max_outputs = 6; p.w_attest = 0.2; p.w_key = 0.3; p.style[U_REVIEWER] = 4; p.style[U_ERRATIC] = 0.6; p.tokens20 = 0.1; p.longpath = 0.06; p.max_inputs = 2; p.events = 220;
            p.style[U_REJECT] = 0.1; p.power = 0.001;
            break;
        case 4:
            p.huge = 0.0002; p.overflow = 0.3; p.mut_flow = 0.05; p.max_outputs = 4; p.max_inputs = 4; p.w_attest = 0.1; p.w_key = 0.2; p.style[U_REVIEWER] = 3; p.style[U_REJECT] = 0.1; p.style[U_ERRATIC] = 0.3; p.tokens20 = 0.12; p.power = 0.001; p.events = 240; p.boundary = 0.4;
            break;
        case 5:
            p.w_attest = 6; p.w_tx = 0.5; p.w_key = 0.3; p.bigbox = 0.08; p.tokens20 = 0.15; p.max_tokens = 12; p.mut_flow = 0.15; p.fetch_again = 0.35; p.fault = 0.004; p.boundary = 0.4;
            break;
        case 6:
            p.probe = 0.002; p.forge = 0.12; p.old_frame = 0.8; p.power = 0.012; p.w_attest = 1.5; p.w_tx = 5; p.w_key = 0.2; p.mut_flow = 0.12; p.max_tokens = 10; p.rng = 0.01; p.multi_host = 0.5;
            break;
        case 7:
            p.multi_host = 0.7; p.mut_step = 0.03; p.stray = 0.06; p.net = 0.06; p.rng = 0.03; p.crafted = 0.4; p.cross = 0.3; p.sloppy = 0.4; p.w_attest = 3; p.power = 0.004; p.w_key = 1.5;
            break;
        case 8:
            p.stray_prompt = 0.7; p.multi_host = 0.5; p.net = 0.05; p.style[U_REVIEWER] = 3; p.style[U_ERRATIC] = 1; p.mut_flow = 0.08; p.w_key = 2;
            break;
        case 9:
            p.mut_flow = 0.3; p.mut_step = 0.04; p.fault = 0.02; p.power = 0.012; p.ioerr = 0.002; p.menu = 0.08; p.quit = 0.4; p.stray = 0.06; p.net = 0.05; p.style[U_ERRATIC] = 1.5; p.style[U_REJECT] = 1; p.longpath = 0.12; p.w_key = 2; p.rng = 0.005;
            break;
        case 10:
            p.multi_host = 0.7; p.p_token = 0.9; p.p_foreign_token = 0.3; p.w_key = 4; p.w_attest = 2; p.w_tx = 1.5; p.power = 0.015; p.style[U_REJECT] = 1.5; p.mut_flow = 0.08; p.fault = 0.004;
            break;
        case 11:
            p.fault = 0.06; p.fault_burst = 0.3; p.fault_cut = 0.05; p.rng = 0.03; p.w_key = 2.5; p.mut_flow = 0.04; p.stray = 0.01; p.net = 0.01; p.style[U_REJECT] = 0.1; p.sloppy = 0.35;
            break;
        case 12:
            p.rng = 0.06; p.fault = 0.02; p.fault_burst = 0.3; p.power = 0.012; p.w_attest = 0.1; p.w_key = 0.1; p.max_inputs = 1; p.max_outputs = 2; p.mut_flow = 0.08; p.many = 0; p.bigbox = 0; p.sloppy = 0.35; p.style[U_FAST] = 12;
            break;
        case 13:
            p.fault = 0.08; p.fault_burst = 0.2; p.w_key = 3; p.w_attest = 0.2; p.max_inputs = 1; p.mut_flow = 0.15; p.style[U_REJECT] = 1; p.sloppy = 0.3; p.rng = 0.02; p.many = 0; p.bigbox = 0; p.style[U_FAST] = 12; p.change = 0.6;
            break;
        case 14:
            p.huge = 0.0002; p.mut_flow = 0.4; p.mut_step = 0.08; p.fault = 0.01; p.overflow = 0.2; p.bigbox = 0.08; p.tokens20 = 0.15; p.longpath = 0.2; p.stray = 0.08; p.style[U_ERRATIC] = 2; p.forge = 0.06; p.menu = 0.04; p.boundary = 0.4; p.sloppy = 0.4; p.rng = 0.01;
            break;
        case 15:
            p.w_key = 8; p.w_attest = 0.5; p.w_tx = 1.5; p.longpath = 0.15; p.badpath = 0.3; p.unusual_net = 0.4; p.stray_prompt = 0.15; p.mut_step = 0.03; p.style[U_REVIEWER] = 3; p.style[U_REJECT] = 0.8; p.fault = 0.004;
            break;
        case 16:
            p.huge = 0.0002; p.mut_flow = 0.7; p.mut_step = 0.02; p.net = 0.03; p.sloppy = 0.6; p.w_attest = 1.5; p.w_key = 0.2; p.many = 0.01; p.bigbox = 0.06; p.tokens20 = 0.12; p.style[U_REJECT] = 0.1; p.power = 0.001; p.stray = 0.005;
            break;
        case 17:
            p.malformed = 0.8; p.mut_flow = 0.03; p.mut_step = 0.0; p.stray = 0.35; p.stray_prompt = 0.5; p.forge = 0; p.w_attest = 2; p.style[U_REJECT] = 0.1; p.net = 0.005; p.power = 0.001; p.sloppy = 0.4;
            break;
        case 20:
            p.w_key = 3; p.w_attest = 3; p.w_tx = 3; p.fault = 0.025; p.fault_burst = 0.2; p.rng = 0.02; p.mut_flow = 0.2; p.mut_step = 0.02; p.stray = 0.08; p.malformed = 0.4; p.multi_host = 0.5; p.power = 0.006; p.style[U_REJECT] = 1; p.tokens20 = 0.12; p.max_tokens = 12; p.forge = 0.04; p.fetch_again = 0.3; p.longpath = 0.1; p.boundary = 0.4;
            break;
    }
    return p;
}
