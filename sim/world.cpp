#include "world.hpp"
#include <algorithm>
uint32_t g_own = ~0u;
uint64_t hash_bytes(const Bytes &b) {
    uint64_t h = 1469598103934665603ULL;
    for (uint8_t c : b) h = (h ^ c) * 1099511628211ULL;
    return mix64(h);
}
static const char *kind_name[] = {"power-on", "apdu", "left", "right", "both", "io-error", "probe"};
const char *call_name[32] = {"", "derive", "init_private", "init_public", "generate_pair", "scalar_mult", "add_point", "cmp", "addm", "subm", "multm", "modm", "add", "sub", "rng", "hash_init", "hash_update", "hash_final", "hash_oneshot"};
std::string describe(const Event &e) {
    std::string s = "#" + std::to_string(e.id) + " " + kind_name[e.kind];
    if (e.kind == EV_APDU) s += " " + hex(e.apdu);
    for (auto &f : e.faults) s += " fault@" + (f.call ? std::string(call_name[f.call & 31]) + "#" : std::string()) + std::to_string(f.at) + (f.kind == F_FAIL ? ":fail" : f.kind == F_CRASH_BEFORE ? ":cut-before" : ":cut-after");
    for (auto &r : e.rng) s += " rng@" + std::to_string(r.draw) + ":" + std::to_string(r.kind);
    if (!e.note.empty()) s += " (" + e.note + ")";
    return s;
}
void World::start(const RunConfig &rc) {
    cfg = rc;
    m = Model();
    m.cfg.wallet = rc.wallet;
    m.cfg.nanos = rc.variant == 1;
    nonces.clear();
    commitments.clear();
    resp_hash.clear();
    responses.clear();
    since_boot.clear();
    last_frame = 0;
    recent.clear();
    faulted_since_boot = false;
    adopted = 0;
    first_foreign.clear();
    sig = mix(rc.variant, rc.page_size);
    g_dev.configure(rc);
}
bool World::runnable(const Event &e) const {
    for (auto &d : e.deps) {
        auto it = resp_hash.find(d.id);
        if (it == resp_hash.end() || it->second != d.hash) return false;
    }
    if (e.kind == EV_BOOT) return true;
    if (e.kind == EV_PROBE) return on() && last_frame > 0;
    return on();
}
uint32_t World::flt() const { return g_dev.faults_fired || g_dev.rng_anomalies || faulted_since_boot ? A11 : 0; }
bool World::foreign(const Deviation &d) {
    if (!d || (d.tags & g_own) || adopted >= 12) return false;
    if (!adopted++) first_foreign = d.what;
    followed = d.what;
    if (verbose) log += "    (" + d.what + ": not the property under check)\n";
    return true;
}
static Deviation dev(uint32_t tags, const std::string &what) {
    Deviation d;
    d.add(tags);
    d.what = what;
    return d;
}
static std::string show(const Display &d) {
    std::string s = "\"" + d.a + "\"";
    if (!d.b.empty()) s += " / \"" + d.b + "\"";
    if (!d.c.empty()) s += " / \"" + d.c + "\"";
    return s;
}
static bool same(const Display &a, const Display &b) { return a.kind == b.kind && a.a == b.a && a.b == b.b && a.c == b.c && a.page == b.page && a.pages == b.pages; }
Deviation World::check_screen(const Display &d, const Screen &s, uint32_t extra) {
    c.screens_checked++;
    if (s.tags & T03) c.screens_output++;
    if (s.tags & T04) c.screens_final++;
    if (d.a == s.a && d.b == s.b && d.c.empty() && (!s.paging || d.kind == 2 || d.b.size() <= 16)) return {};
    std::string want = "\"" + s.a + "\"" + (s.b.empty() ? "" : " / \"" + s.b + "\"");
    Deviation x = dev((s.tags ? s.tags : T09 | T02) | extra, "display shows " + show(d) + ", should show " + want);
    if (s.tags && foreign(x)) return {};
    return x;
}
Deviation World::check_menu(uint32_t extra) {
    auto mm = m.menu();
    Screen s = mm[m.menu_pos];
    s.tags = T09;
    return check_screen(g_dev.display(), s, extra);
}
void World::note(const Event &e, const char *outcome) {
    uint32_t st = (uint32_t) m.s.k;
    if (m.s.k == Session::ATTEST) st |= (uint32_t) m.s.a.st << 4;
    if (m.s.k == Session::SIGN) {
        st |= (uint32_t) m.s.s.st << 4 | (uint32_t) m.s.s.in_ext << 8 | (uint32_t) m.s.s.in_open << 9;
        if (m.s.s.out_open) st |= 1 << 10 | (uint32_t) m.s.s.out.st << 11 | (uint32_t) m.s.s.out.type << 13;
    }
    st |= (uint32_t) m.p.kind << 16 | (uint32_t) std::min(m.p.pos, 7) << 20 | (uint32_t) m.about << 24 | (uint32_t) m.menu_pos << 25;
    uint32_t ev = e.kind;
    if (e.kind == EV_APDU && e.apdu.size() >= 5) ev |= e.apdu[1] << 8 | e.apdu[2] << 16;
    uint64_t h = mix(st, ev, hash_bytes(Bytes(outcome, outcome + strlen(outcome))) ^ (g_dev.faults_fired ? 7 : 0) ^ (e.faults.empty() ? 0 : 13));
    sig = mix(sig, h);
    if (bitmap) {
        uint32_t b = h & ((1 << 20) - 1);
        __atomic_fetch_or(&bitmap[b >> 3], (uint8_t) (1 << (b & 7)), __ATOMIC_RELAXED);
    }
}
Deviation World::step(const Event &e) {
    responses.clear();
    if (!runnable(e)) return {};
    c.events++;
    if (verbose) log += describe(e) + "\n";
    Session::K before = m.s.k;
    bool was_sign = m.s.k == Session::SIGN;
    B33 pk_before = m.s.s.pk;
    (void) pk_before;
    Deviation d;
    uint32_t serial = m.s.serial;
    cls = 0;
    followed.clear();
    switch (e.kind) {
        case EV_BOOT:
            c.boots++;
            m.boot();
            faulted_since_boot = false;
            dev_run(e, 0);
            if (g_dev.state == DEV_POWER_LOST) {
                d = {};
            } else if (g_dev.state != DEV_WAITING) {
                d = dev(T09 | T14, "device does not come up after power-on");
            } else if (!g_dev.responses.empty()) {
                d = dev(T09, "unsolicited answer at power-on");
            } else {
                d = check_menu(flt());
            }
            note(e, "boot");
            break;
        case EV_IOERR:
            c.io_errors++;
            dev_run(e, 0);
            if (g_dev.state == DEV_HUNG || g_dev.state == DEV_ASSERT)
                d = dev(T09 | T14, "device " + std::string(g_dev.state == DEV_HUNG ? "hangs" : "asserts") + " on an I/O error");
            else if (!g_dev.responses.empty())
                d = dev(T09, "answer without a command");
            note(e, "ioerr");
            break;
        case EV_PROBE:
            d = probe(e);
            if (d) d.event = e.id;
            return d;
        case EV_APDU: d = apdu(e); break;
        default: d = button(e);
    }
    c.faults += g_dev.faults_fired;
    c.rng_anoms += g_dev.rng_anomalies;
    if (g_dev.state == DEV_POWER_LOST) c.crashes++;
    (void) was_sign;
    if (!d)
        d = after(e, before, serial);
    else if (!(d.tags & g_own)) {
        Deviation x = after(e, before, serial);
        if (x.tags & g_own) d = x;
    }
    if ((g_own & T20) && (!d || !(d.tags & g_own))) {
        Deviation x = disclosure();
        if (x) d = x;
    }
    if (g_own & T20) {
        if (e.kind == EV_BOOT) recent.clear();
        if (e.kind == EV_APDU && e.apdu.size() > 12) recent.push_back(e.apdu);
        for (auto &x : g_dev.responses)
            if (x.data.size() >= 8 && followed.empty()) recent.push_back(x.data);
        while (recent.size() > 40) recent.pop_front();
    }
    if (g_dev.faults_fired || g_dev.rng_anomalies) faulted_since_boot = true;
    if (verbose) {
        for (auto &r : g_dev.responses) {
            char t[8];
            snprintf(t, sizeof t, "%04x", r.sw);
            log += "    -> " + hex(r.data) + " " + t + "\n";
        }
        if (g_dev.state == DEV_WAITING) log += "    [" + show(g_dev.display()) + "]\n";
        else log += "    [off]\n";
    }
    d.event = e.id;
    if (obs) {
        uint64_t h = mix((uint64_t) g_dev.state, g_dev.responses.size());
        for (auto &r : g_dev.responses) h = mix(h, hash_bytes(r.data), r.sw);
        if (g_dev.state == DEV_WAITING) {
            std::string t = show(g_dev.display());
            h = mix(h, hash_bytes(Bytes(t.begin(), t.end())));
        }
        obs->push_back(h);
    }
    return d;
}
void World::dev_run(const Event &e, uint8_t last) {
    if (g_own & T06) {
        if (e.kind == EV_BOOT) {
            since_boot.clear();
            last_frame = 0;
        }
        since_boot.push_back({e, last});
    }
    g_dev.run(e, last);
}
// Whether the codes of frames rest on at least 128 bits nobody can know: the power cycle up to the last frame is repeated
// with one byte of randomness changed each time, and enough of those bytes must change the code.
Deviation World::probe(const Event &e) {
    (void) e;
    c.probes++;
    Device keep = g_dev;  // statistics only; the application's memory is rebuilt by the last repetition
    std::vector<std::pair<Event, uint8_t>> seg = since_boot;
    Bytes code;
    std::vector<std::pair<size_t, size_t>> bytes;  // event, byte of its randomness
    auto again = [&](size_t n, size_t ev, size_t at) {
        for (size_t i = 0; i < n; i++) {
            Event x = seg[i].first;
            if (i == ev) x.rng.push_back({(uint32_t) at, R_FLIP});
            g_dev.run(x, seg[i].second);
            if (ev == (size_t) -1 && code.empty())
                for (size_t k = 0; k < g_dev.rng_stream.size(); k++) bytes.push_back({i, k});
            if (g_dev.state != DEV_WAITING) return Bytes();
        }
        if (g_dev.responses.size() != 1 || g_dev.responses[0].sw != 0x9000 || g_dev.responses[0].data.size() < 16) return Bytes();
        Bytes &d = g_dev.responses[0].data;
        return Bytes(d.end() - 16, d.end());
    };
    code = again(last_frame, (size_t) -1, 0);
    unsigned matter = 0, tried = 0;
    if (!code.empty())
        for (auto &b : bytes) {
            if (matter >= 16 || tried >= 160) break;
            tried++;
            matter += again(last_frame, b.first, b.second) != code;
        }
    for (auto &x : seg) g_dev.run(x.first, x.second);
    g_dev = keep;
    if (!code.empty() && matter < 16 && tried < 160) {
        Deviation d = dev(T06, "frames are authenticated with fewer than 128 bits of randomness (" + std::to_string(matter) + " bytes)");
        if (!foreign(d)) return d;
    }
    return {};
}
// Answers and screens must not give away secrets.
Deviation World::disclosure() {
    for (auto &r : g_dev.responses) {
        std::string s = g_dev.leaked(r.data, "", !(faulted_since_boot || g_dev.rng_anomalies || g_dev.faults_fired));
        if (!s.empty()) return dev(T20, "the answer contains part of a " + s);
    }
    if (g_dev.state == DEV_WAITING) {
        Display d = g_dev.display();
        std::string t;
        for (char ch : d.a + " " + d.b + " " + d.c) t += (char) tolower(ch);
        std::string s = g_dev.leaked({}, t, true);
        if (!s.empty()) return dev(T20, "the display shows part of a " + s);
    }
    return {};
}
// Whether an answer contains eight bytes that belong to other traffic or to unused memory instead of what it should say.
bool World::stray(const Bytes &got, const Bytes &want) const {
    if (got.size() > want.size()) return true;
    for (size_t o = 0; o + 8 <= got.size(); o++) {
        const uint8_t *p = got.data() + o;
        int differing = 0;
        for (size_t i = 0; i < 8; i++) differing += o + i >= want.size() || p[i] != want[o + i];
        if (differing < 6 || memmem(want.data(), want.size(), p, 8)) continue;
        if (g_dev.garbage(p, 8)) return true;
        if (std::count(p, p + 8, p[0]) > 4) continue;
        for (auto &x : recent)
            if (memmem(x.data(), x.size(), p, 8)) return true;
    }
    return false;
}
// Memory hygiene and session bookkeeping after an event.
Deviation World::after(const Event &e, Session::K before, uint32_t serial) {
    (void) e;
    if (m.s.k == Session::SIGN && !g_dev.rng_stream.empty() && !m.s.rng_done) {
        m.s.rng.insert(m.s.rng.end(), g_dev.rng_stream.begin(), g_dev.rng_stream.end());
    }
    m.s.rng_done = false;
    if (before != Session::NONE && (m.s.k == Session::NONE || m.s.serial != serial)) c.session_kills++;
    bool ended = before == Session::SIGN && (m.s.k != Session::SIGN || m.s.serial != serial);
    if (g_dev.state != DEV_WAITING) return {};
    if (g_dev.touched_secret || ended || g_dev.rng_stream.size() >= 32) {
        c.scans++;
        std::set<B32> live;
        if (m.s.k == Session::SIGN)
            for (auto &s : g_dev.secrets)
                if (s.kind == 2 && std::search(m.s.rng.begin(), m.s.rng.end(), s.v.begin(), s.v.end()) != m.s.rng.end()) live.insert(s.v);
        std::string f = g_dev.scan(live);
        if (!f.empty()) {
            if (T13 & g_own) return dev(T13, f);
            if (!adopted++) first_foreign = f;
            adopted = std::min(adopted, 4u);  // seen again at every event: does not count against the limit
        }
    }
    return {};
}
static Deviation dead(uint32_t extra) {
    switch (g_dev.state) {
        case DEV_HUNG: return dev(T14 | T09 | extra, "device hangs");
        case DEV_ASSERT: return dev(T14 | T09 | extra, "assertion failed at " + g_dev.assert_where);
        case DEV_EXITED: return dev(T14 | T09 | extra, "application terminated");
        default: return {};
    }
}
static std::string sw_text(uint16_t sw) {
    char t[8];
    snprintf(t, sizeof t, "%04x", sw);
    return t;
}
// Compares one answer with what the model expects; on a tolerated error the session is closed in the model too.
Deviation World::check_answer(const Event &e, Expect &x, const Response &r) {
    bool faulty = g_dev.faults_fired || g_dev.rng_anomalies;
    uint32_t ft = flt();
    bool okr = r.sw == 0x9000;
    if (!okr && !r.data.empty()) return dev(x.tags | x.dtags | T09 | T20 | ft, "error answer " + sw_text(r.sw) + " carries data " + hex(r.data));
    if (okr) c.responses_ok++; else c.responses_err++;
    if (x.k == Expect::ERR) {
        if (okr) return dev(x.tags | ft, std::string("accepted although it must be refused: ") + x.why);
        if (x.tags & T04) c.errs_overflow++;
        if (x.tags & T16) c.errs_order++;
        if (x.tags & T15) c.errs_policy++;
        if (x.tags & T07) c.errs_session++;
        if (x.tags & T06) c.frames_refused++;
        if (x.no_effect) c.malformed++;
        note(e, x.why);
        return {};
    }
    if (x.k == Expect::BUSY) {
        c.busy++;
        if (r.sw != 0xB000) {
            Deviation d = dev(x.tags | ft, "not refused as busy while a prompt is pending (answer " + sw_text(r.sw) + ")");
            if (!foreign(d)) return d;
        }
        note(e, "busy");
        return {};
    }
    if (x.k == Expect::DENIED) {
        c.denied++;
        if (r.sw != 0x6985) return dev(x.tags | ft, "rejection answered with " + sw_text(r.sw));
        note(e, "denied");
        return {};
    }
    if (x.k == Expect::PROMPT) {
        if (okr) return dev(x.tags | ft, "answered " + hex(r.data) + " without asking the user");
    }
    if (!okr) {
        if (faulty || x.or_err) {
            if (faulty) c.fault_errors++;
            m.close(T11 | T07);
            if (m.busy()) m.finish_prompt_quiet();
            note(e, "tolerated error");
            return {};
        }
        Deviation d = dev(x.tags | T09 | ft, "refused with " + sw_text(r.sw) + " although it is correct");
        if (adopted && !(d.tags & g_own & T09)) d.tags &= ~g_own;  // a consequence of what was followed before
        if (foreign(d)) {
            m.close(T11);
            if (m.busy()) m.finish_prompt_quiet();
            return {};
        }
        return d;
    }
    if (faulty) c.fault_survived++;
    switch (x.k) {
        case Expect::OK_EMPTY:
            if (!r.data.empty()) return dev(x.dtags | x.tags | T20 | ft, "unexpected data " + hex(r.data));
            if (e.kind == EV_APDU && e.apdu[1] == 0x21 && e.apdu[2] == 0x12) c.frames_accepted++;
            break;
        case Expect::OK_DATA:
            if (r.data != x.data) return dev(x.dtags | (stray(r.data, x.data) ? T20 : ft ? A20 : 0) | ft, "answer " + hex(r.data) + " should be " + hex(x.data));
            if (e.kind == EV_APDU && (e.apdu[1] == 0x10 || e.apdu[1] == 0x11)) c.trusted++;
            if (r.data.size() >= 38) c.keys++;
            break;
        case Expect::SESSION_ID:
            if (r.data.size() != 1 || r.data[0] == 0) return dev(T07 | x.dtags | (r.data.size() > 1 ? T20 : 0) | ft, "bad session number " + hex(r.data));
            if (r.data[0] == m.last_granted) return dev(T07 | ft, "session number " + hex(r.data) + " granted twice in a row");
            if (e.kind == EV_APDU) c.trusted++;
            m.s.id = r.data[0];
            m.s.approved = true;
            m.last_granted = r.data[0];
            c.sessions++;
            break;
        case Expect::FRAME: {
            if (r.data.size() != x.data.size() + 16 || !std::equal(x.data.begin(), x.data.end(), r.data.begin()))
                return dev(x.dtags | ft | (r.data.size() > x.data.size() + 16 || stray(Bytes(r.data.begin(), r.data.begin() + (long) std::min(r.data.size(), x.data.size())), x.data) ? T20 : 0), "frame " + hex(r.data) + " should begin with " + hex(x.data) + " and end with 16 bytes of authentication");
            auto it = m.s.a.frames.find(x.frame);
            if (it != m.s.a.frames.end() && it->second != r.data) return dev(T05 | ft, "the same frame fetched twice differs");
            m.s.a.frames[x.frame] = r.data;
            m.attested.insert(r.data);
            c.frames++;
            last_frame = since_boot.size();
            break;
        }
        case Expect::SIGNATURE: {
            c.signatures++;
            m.s.rng_done = true;
            Bytes rng = x.rng;
            rng.insert(rng.end(), g_dev.rng_stream.begin(), g_dev.rng_stream.end());
            if (r.data.size() != 56) return dev(x.dtags | (r.data.size() > 56 ? T20 : 0) | ft, "signature of " + std::to_string(r.data.size()) + " bytes");
            B32 cb{};
            std::copy(r.data.begin(), r.data.begin() + 24, cb.begin() + 8);
            U256 cc = u256_from_be(cb.data()), z = u256_from_be(r.data.data() + 24);
            if (u256_cmp(z, SECP_N) >= 0) return dev(x.dtags | ft, "signature response out of range");
            Point P;
            if (!ec_decompress(x.pk.data(), P)) return dev(x.dtags, "bad key");
            Point cP = ec_mul(P, cc), zG = ec_mul_g(z);
            Point w = ec_add(zG, ec_neg(cP));
            if (w.inf) return dev(x.dtags | T12 | ft, "signature with the null commitment");
            B33 wc = ec_compress(w);
            Bytes msg = unhex("0100271001" "08cd");
            msg.insert(msg.end(), x.pk.begin(), x.pk.end());
            Bytes mid = unhex("73000021");
            msg.insert(msg.end(), mid.begin(), mid.end());
            msg.insert(msg.end(), wc.begin(), wc.end());
            msg.insert(msg.end(), x.ser.begin(), x.ser.end());
            B32 h = blake2b256(msg);
            if (!std::equal(h.begin(), h.begin() + 24, r.data.begin())) return dev(x.dtags | T01 | ft | (ft ? A20 : 0), "signature does not verify for the uploaded transaction");
            const KeyPair *kp = nullptr;
            kp = &wallet_key(cfg.wallet, m.last_sign_path);
            U256 y = sc_sub(z, sc_mul(cc, u256_from_be(kp->x.data())));
            B32 yb;
            u256_to_be(y, yb.data());
            if (u256_is_zero(y)) return dev(T12 | ft, "signature with nonce zero");
            if (std::search(rng.begin(), rng.end(), yb.begin(), yb.end()) == rng.end())
                return dev(T12 | ft, "nonce does not come from the randomness drawn for this session");
            U256 one{{1, 0, 0, 0}}, nm1 = sc_sub(U256{{0, 0, 0, 0}}, one);
            bool flat = std::all_of(yb.begin(), yb.end(), [&](uint8_t v) { return v == yb[0]; });
            if (u256_cmp(y, one) != 0 && u256_cmp(y, nm1) != 0 && !flat) {  // values only an injected source produces
                if (!nonces.insert(yb).second || !commitments.insert(wc).second) return dev(T12, "nonce used in two signatures");
            }
            break;
        }
        default: break;
    }
    note(e, "ok");
    return {};
}
Deviation World::apdu(const Event &e) {
    c.apdus++;
    Display before = g_dev.display();
    bool was_busy = m.busy();
    uint32_t inj = 0;
    Expect x = m.predict(e.apdu);
    if (x.no_effect) {
        if (was_busy) cls |= IN_PROMPT;
        if (x.k != Expect::BUSY) cls |= REFUSED;
        if (x.k == Expect::OK_DATA) cls |= QUERY;
    } else if (e.apdu[1] < 0x20 || e.apdu[2] == 1)
        cls |= BEGINS;
    if (was_busy) c.injected_in_prompt++;
    dev_run(e, (uint8_t) std::max(0, m.last_granted));
    responses = g_dev.responses;
    uint32_t ft = flt();
    if (x.k == Expect::PROMPT || x.k == Expect::SESSION_ID) m.last_sign_path = m.s.k == Session::SIGN ? m.s.s.path : Path();
    if (g_dev.state == DEV_POWER_LOST) {
        note(e, "power lost");
        responses.clear();
        return {};
    }
    if (auto d = dead(ft | (x.k == Expect::ERR ? 0 : 0))) return d;
    uint32_t busy_tag = was_busy ? T08 : 0;
    if (responses.size() > 1) return dev(T09 | busy_tag | ft, "answered " + std::to_string(responses.size()) + " times");
    Display now = g_dev.display();
    // An ended session that goes on is a finding of its own; where another property is under check, follow it there.
    if (x.k == Expect::ERR && !x.no_effect && !was_busy && !(whole(x.tags | ft) & g_own) && (responses.empty() ? !same(before, now) : responses[0].sw == 0x9000) && adopted < 12 && m.resurrect()) {
        foreign(dev(x.tags, "an ended session goes on"));
        x = m.predict(e.apdu);
        if (x.k == Expect::PROMPT || x.k == Expect::SESSION_ID) m.last_sign_path = m.s.k == Session::SIGN ? m.s.s.path : Path();
    }
    if (responses.empty()) {
        if (x.k == Expect::PROMPT) {
            c.prompts++;
            if (m.p.kind == PK_OUTPUT) c.outputs_prompted++;
            note(e, "prompt");
            return check_screen(now, m.current_screen(), ft | x.tags | m.s.extra);
        }
        if (!same(before, now))
            return dev(x.tags | x.dtags | busy_tag | ft, std::string("asks the user (") + show(now) + ") " + (x.k == Expect::ERR || x.k == Expect::BUSY ? "instead of refusing" : "although no confirmation is needed"));
        return dev(T09 | busy_tag | ft | (x.k == Expect::BUSY || x.k == Expect::ERR ? x.tags : 0), "command not answered");
    }
    Deviation d = check_answer(e, x, responses[0]);
    if (d) return d;
    if (responses[0].sw == 0x9000) resp_hash[e.id] = hash_bytes(responses[0].data);
    if (!same(before, now))
        return dev(T09 | busy_tag | inj | ft | x.dtags | (was_busy ? T03 | T04 : 0), "the command changed the display from " + show(before) + " to " + show(now));
    if (x.k == Expect::OK_EMPTY && m.s.k == Session::SIGN && m.s.s.out.st == OutS::DONE) c.silent_outputs++;
    return {};
}
Deviation World::button(const Event &e) {
    c.buttons++;
    Display before = g_dev.display();
    bool both = e.kind == EV_BOTH;
    if (!m.busy()) {
        auto mm = m.menu();
        int L = (int) mm.size();
        bool quit = false;
        if (both) {
            if (!m.about && m.menu_pos == 1) {
                m.about = true;
                m.menu_pos = 0;
            } else if (!m.about && m.menu_pos == 2) {
                quit = true;
            } else if (m.about && m.menu_pos == 2) {
                m.about = false;
                m.menu_pos = 0;
            }
        } else {
            m.menu_pos = (m.menu_pos + (e.kind == EV_RIGHT ? 1 : L - 1)) % L;
        }
        dev_run(e, 0);
        note(e, quit ? "quit" : "menu");
        if (g_dev.state == DEV_POWER_LOST) return {};
        if (quit && g_dev.state == DEV_EXITED && g_dev.responses.empty()) return {};
        if (auto d = dead(0)) return d;
        if (!g_dev.responses.empty()) return dev(T09 | flt(), "answer without a pending command");
        if (quit) return dev(T09, "Quit does not leave the application");
        return check_menu(flt());
    }
    Prompt &p = m.p;
    int L = (int) p.screens.size();
    Expect x;
    bool decided = false, moved = false;
    uint32_t inj = p.injected ? A08 : 0;
    uint32_t extra = m.s.extra | inj;
    PromptKind kind = p.kind;
    if (both) {
        if (p.pos == p.approve || (p.pos == p.path && p.path_approves)) {
            x = m.approve();
            decided = true;
            c.approvals++;
        } else if (p.pos == p.reject) {
            x = m.reject();
            decided = true;
        } else if (p.pos == p.path) {
            p.pos = (p.pos + 1) % L;
            moved = true;
        }
    } else if (e.kind == EV_RIGHT) {
        if (!(before.kind == 2 && before.page + 1 < before.pages)) p.pos = (p.pos + 1) % L, moved = true;
    } else {
        if (!(before.kind == 2 && before.page > 0)) p.pos = (p.pos + L - 1) % L, moved = true;
    }
    (void) moved;
    dev_run(e, (uint8_t) std::max(0, m.last_granted));
    responses = g_dev.responses;
    uint32_t ft = flt();
    if (g_dev.state == DEV_POWER_LOST) {
        note(e, "power lost");
        responses.clear();
        return {};
    }
    if (auto d = dead(ft | extra)) return d;
    if (responses.size() > 1) return dev(T09 | T02 | extra | ft, "answered " + std::to_string(responses.size()) + " times");
    if (decided) {
        if (responses.empty()) {
            return dev(T09 | x.tags | extra | ft, "decision of the user not answered");
        }
        Deviation d = check_answer(e, x, responses[0]);
        if (d) {
            d.add(extra);
            return d;
        }
        if (responses[0].sw == 0x9000) resp_hash[e.id] = hash_bytes(responses[0].data);
        return check_menu(ft | extra);
    }
    if (!responses.empty()) {
        bool tolerated = responses[0].sw != 0x9000 && responses[0].data.empty() && (g_dev.faults_fired || p.screens[p.pos].may_error);
        if (!tolerated)
            return dev(T09 | T02 | extra | ft | p.screens[p.pos].tags | (kind == PK_OUTPUT ? T03 : kind == PK_FINAL ? T04 | T01 : kind == PK_EPK || kind == PK_ADDR ? T15 : T10),
                       "request answered with " + hex(responses[0].data) + " " + sw_text(responses[0].sw) + " without a decision of the user");
        c.fault_errors++;
        c.responses_err++;
        m.close(T11 | T07);
        m.finish_prompt();
        note(e, "error while showing");
        return check_menu(ft | extra);
    }
    note(e, "navigate");
    return check_screen(g_dev.display(), p.screens[p.pos], extra | ft);
}
