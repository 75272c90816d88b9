// Executable reference model of the Ergo Ledger protocol: what a correct device does with each command and button.
#pragma once
#include "crypto.hpp"
#include "device.hpp"
#include <map>
#include <set>
typedef std::vector<uint32_t> Path;
#ifndef APP_MAJOR
#define APP_MAJOR 0
#define APP_MINOR 0
#define APP_PATCH 5
#define APP_VERSION "0.0.5"
#endif
const uint32_t HARD = 0x80000000u;

// Property tags a deviation can count against.
enum {
    T01 = 1 << 1, T02 = 1 << 2, T03 = 1 << 3, T04 = 1 << 4, T05 = 1 << 5, T06 = 1 << 6, T07 = 1 << 7, T08 = 1 << 8,
    T09 = 1 << 9, T10 = 1 << 10, T11 = 1 << 11, T12 = 1 << 12, T13 = 1 << 13, T14 = 1 << 14, T15 = 1 << 15, T16 = 1 << 16,
    T17 = 1 << 17, T20 = 1 << 20,
    // The same for properties of the form "as if it had never happened", when what should not matter only lies somewhere
    // before the deviation: it counts only if the deviation is gone once that is taken out of the history (see judge).
    A07 = 1 << 21, A08 = 1 << 22, A11 = 1 << 23, A17 = 1 << 24, A20 = 1 << 25, T_ALL = (1 << 21) - 1
};
inline uint32_t whole(uint32_t t) {
    return (t & T_ALL) | (t & A07 ? T07 : 0) | (t & A08 ? T08 : 0) | (t & A11 ? T11 : 0) | (t & A17 ? T17 : 0) | (t & A20 ? T20 : 0);
}
struct Screen {
    std::string a, b;
    bool paging = false;
    bool may_error = false;  // text does not fit the device's buffer: showing it may end the request with an error
    uint32_t tags = 0;       // properties at stake in this screen's content
};
enum PromptKind { PK_NONE, PK_EPK, PK_ADDR, PK_ATTEST, PK_SIGN, PK_OUTPUT, PK_FINAL };
struct Prompt {
    PromptKind kind = PK_NONE;
    std::vector<Screen> screens;
    int pos = 0, approve = 0, reject = 0, path = -1;
    bool path_approves = false;
    bool injected = false;  // commands arrived while it was pending
};
struct Expect {
    enum K { ERR, BUSY, DENIED, OK_EMPTY, OK_DATA, SESSION_ID, FRAME, SIGNATURE, PROMPT } k = ERR;
    Bytes data;
    Prompt prompt;
    bool or_err = false;      // an error is equally acceptable
    bool closes_maybe = false;  // an error here may or may not end the session
    bool no_effect = false;   // the error must leave everything as it was
    uint32_t tags = 0;        // properties broken if the device refuses what it should accept, or the reverse
    uint32_t dtags = 0;       // properties broken if it answers with other data
    int frame = -1;           // FRAME: which one
    bool exclusive = false;   // SESSION_ID
    B33 pk;                   // SIGNATURE: key, message and the randomness its nonce must come from
    Bytes ser, rng;
    const char *why = "";
};
struct Token {
    B32 id;
    uint64_t amt;
};
struct AttestS {
    uint64_t value = 0;
    uint32_t tree_left = 0, reg_left = 0, height = 0, reg_size = 0;
    unsigned ntok = 0, tok_left = 0;
    uint16_t index = 0;
    Bytes txid, ser;
    std::vector<Token> toks;
    enum { TREE, TOKENS, REGS, DONE } st = TREE;
    B32 box_id;
    uint32_t token = 0;
    std::map<int, Bytes> frames;
};
enum OutType { O_NONE, O_TREE, O_FEE, O_CHANGE };
struct OutS {
    uint64_t value = 0;
    uint32_t tree_size = 0, tree_left = 0, height = 0, reg_left = 0, reg_size = 0;
    unsigned ntok = 0, tok_left = 0;
    OutType type = O_NONE;
    Bytes tree;
    Path path;
    unsigned chunks = 0;
    std::vector<uint64_t> amts;  // per token of the transaction
    std::set<int> seen;
    enum { TREE, TOKENS, REGS, DONE } st = TREE;
};
struct SignS {
    uint8_t net = 0;
    Path path;
    B33 pk;
    uint32_t token = 0;
    enum { INIT, TOKENS, INPUTS, DINPUTS, OUTPUTS, FINISHED, FINAL } st = INIT;
    unsigned nin = 0, ndin = 0, nout = 0;
    unsigned in_left = 0, din_left = 0, out_left = 0;
    std::vector<B32> table;     // declared, then tokens first seen in inputs
    std::vector<__int128> sums;
    unsigned declared = 0;
    Bytes ser;
    // current input
    bool in_open = false;
    B32 in_id;
    unsigned in_frames = 0, in_done = 0;
    uint32_t ext_left = 0, ext_size = 0;
    bool in_ext = false;
    unsigned __int128 erg_in = 0, change = 0, fee = 0;
    OutS out;
    bool out_open = false;
    Path last_change;
    // history, for tags and statistics
    unsigned outputs_done = 0, prompts_shown = 0, silent = 0;
};
struct Session {
    enum K { NONE, ATTEST, SIGN } k = NONE;
    bool approved = false;
    uint8_t id = 0;
    bool maybe_closed = false;
    uint32_t extra = 0;         // further properties a deviation counts against (what happened during the session)
    AttestS a;
    SignS s;
    Bytes rng;                  // randomness drawn while it was open
    bool rng_done = false;
    uint32_t serial = 0;
};
struct ModelCfg {
    uint64_t wallet = 1;
    bool nanos = false;
};
struct Model {
    ModelCfg cfg;
    uint32_t connected = 0;
    int last_granted = -1;
    Session s;
    Prompt p;
    bool busy() const { return p.kind != PK_NONE; }
    std::set<Bytes> attested;                 // frames handed out since boot
    std::set<Bytes> old_frames;               // frames of earlier boots
    // menu
    bool about = false;
    int menu_pos = 0;
    uint32_t pending_token = 0;
    Bytes pending_data;

    void boot();
    Expect predict(const Bytes &apdu);
    uint32_t next_serial = 1;
    Path last_sign_path;
    Session grave;             // the session that ended last, as it was when it ended
    uint32_t cause = 0;        // properties at stake if it goes on all the same
    void close(uint32_t why = T07) {
        if (s.k != Session::NONE) {
            grave = std::move(s);
            cause = why;
        }
        s = Session();
        s.serial = next_serial++;
    }
    bool resurrect() {         // the device kept a session that should have ended: follow it
        if (grave.k == Session::NONE || !grave.approved || s.k != Session::NONE) return false;
        s = std::move(grave);
        grave = Session();
        return true;
    }
    void finish_prompt_quiet() { p = Prompt(); }  // the request failed before anything was shown
    std::vector<Screen> menu() const;
    const Screen &current_screen() const { return p.screens[p.pos]; }
    // What the user's decision on the pending prompt leads to
    Expect approve();
    Expect reject();
    void finish_prompt() {
        p = Prompt();
        about = false;
        menu_pos = 0;
    }
    void open_prompt(const Prompt &q) {
        p = q;
        p.pos = 0;
    }

  private:
    Expect epk(const Bytes &d, bool tok);
    Expect addr(const Bytes &d, bool display, bool tok);
    Expect attest(uint8_t p1, uint8_t p2, const Bytes &d);
    Expect sign(uint8_t p1, uint8_t p2, const Bytes &d);
    Expect sign_init(const Bytes &d, bool tok);
    Expect frame(const Bytes &d);
    Expect session_cmd(bool attest, uint8_t p1, uint8_t p2, const Bytes &d);
    Expect after_output_step();
    Expect ok(uint32_t tags);
    Expect prompt(Prompt q, uint32_t tags);
    Expect err(uint32_t tags, const char *why);
    void input_finished();
    void data_inputs_finished();
    Prompt output_prompt();
    Prompt final_prompt();
};
std::string path_text(const Path &p);
std::string erg_text(uint64_t v);
bool path_epk_ok(const Path &p);
bool path_addr_ok(const Path &p);
Bytes address_bytes(uint8_t net, const B33 &pk);
Bytes script_address(uint8_t net, const uint8_t *hash24);
void vlq(Bytes &b, uint64_t v);
extern const Bytes FEE_TREE;
extern const Bytes P2SH_PREFIX, P2SH_SUFFIX;
