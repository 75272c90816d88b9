// The simulated device: the application's real code on a coroutine, with every outside effect behind a seam.
#pragma once
#include "crypto.hpp"
#include <map>
#include <set>

enum EvKind : uint8_t { EV_BOOT = 0, EV_APDU = 1, EV_LEFT, EV_RIGHT, EV_BOTH, EV_IOERR, EV_PROBE };
enum FaultKind : uint8_t { F_FAIL = 0, F_CRASH_BEFORE = 1, F_CRASH_AFTER = 2, F_STICKY = 3 };  // F_STICKY: this call and every later one of its kind in the event fail
struct Fault {
    uint32_t at = 0;    // n-th fallible call of the event
    uint32_t call = 0;  // ... of this kind, if not 0
    uint8_t kind = F_FAIL;
    uint32_t code = 0xFFFFFF85;
};
enum RngKind : uint8_t { R_ZERO = 0, R_N, R_ABOVE_N, R_N_MINUS_1, R_FF, R_LAST_SESSION, R_ONE, R_KINDS, R_STICKY = 64, R_FLIP = 128 };  // R_STICKY + kind: every draw of 16 bytes or more from this one on;  // R_FLIP: byte number "draw" of the event is changed
struct RngOverride {
    uint32_t draw = 0;
    uint8_t kind = R_ZERO;
};
struct Dep {
    uint32_t id;     // an earlier event ...
    uint64_t hash;   // ... whose response this command was built from
};
struct Event {
    uint32_t id = 0;
    uint8_t kind = EV_BOOT;
    Bytes apdu;
    std::vector<Fault> faults;
    std::vector<RngOverride> rng;
    std::vector<Dep> deps;
    std::string note;
};
struct Response {
    Bytes data;
    uint16_t sw;
};
struct Display {
    int kind = 0;
    std::string a, b, c;
    unsigned page = 0, pages = 1;
};
struct RunConfig {
    uint64_t seed = 1;      // randomness served to the device
    uint64_t wallet = 1;    // master seed of the device
    unsigned page_size = 16;
    int variant = 0;        // 0 nano x, 1 nano s
    int twin = 0;           // 1: unused stack and stale buffer bytes hold other garbage (not part of a replay file)
};
struct KeyPair {
    B32 x;
    B32 chain;
    B33 pk;
    uint8_t W[65];
};
const KeyPair &wallet_key(uint64_t wallet, const std::vector<uint32_t> &path);

enum DevState { DEV_OFF, DEV_WAITING, DEV_EXITED, DEV_POWER_LOST, DEV_HUNG, DEV_ASSERT };
struct Secret {
    B32 v;
    int kind;  // 0 private key, 1 product with a private key, 2 random scalar
    uint32_t event;
};
struct Device {
    DevState state = DEV_OFF;
    // results of the last event
    std::vector<Response> responses;
    int exit_code = 0;
    std::string assert_where;
    unsigned syscalls = 0, fault_points = 0, faults_fired = 0, rng_anomalies = 0;
    Bytes rng_stream;             // bytes handed out during the event
    bool touched_secret = false;  // a private key entered the application during the event
    std::vector<Bytes> signatures;  // 56-byte answers since boot
    Bytes boot_rng;                 // handed out during power-on
    std::vector<Secret> secrets;  // everything secret handed out since boot

    bool load(int variant, const std::string &path);
    void configure(const RunConfig &c);
    void run(const Event &e, uint8_t last_session);
    Display display() const;
    // Looks for secret material in the application's memory; live: secrets allowed in static memory.
    std::string scan(const std::set<B32> &live_nonces);
    // The name of the secret of which eight bytes appear in the data or, in hex, in the text; empty: none.
    std::string leaked(const Bytes &data, const std::string &text, bool products) const;
    bool garbage(const uint8_t *p, size_t n) const;  // what unused stack is filled with
    uint64_t state_digest();
    size_t stack_used = 0;
    RunConfig cfg;
    uint32_t call_count[32] = {0};  // fallible calls of the event by kind
    uint64_t fault_hist[32] = {0};
    uint64_t rng_hist[R_KINDS] = {0};
    uint64_t crash_hist[4] = {0};  // cuts before and after a call, calls and draws hit by a lasting failure
};
extern Device g_dev;
extern volatile int *g_in_device;  // shared with the supervising process
