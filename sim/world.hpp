// The device and its reference model in lockstep: every event is executed on both and every observable compared.
#pragma once
#include "device.hpp"
#include "model.hpp"
#include <deque>
struct Deviation {
    uint32_t tags = 0;
    uint32_t direct = 0;  // without those that count only if an earlier disturbance is the reason
    std::string what;
    uint32_t event = 0;
    explicit operator bool() const { return tags != 0; }
    void add(uint32_t t) {
        direct |= t & T_ALL;
        tags |= whole(t);
    }
};
struct Counters {  // additive statistics
    uint64_t runs = 0, events = 0, apdus = 0, buttons = 0, boots = 0, power_cuts = 0, io_errors = 0, crashes = 0;
    uint64_t faults = 0, rng_anoms = 0, responses_ok = 0, responses_err = 0, busy = 0, denied = 0;
    uint64_t prompts = 0, screens_checked = 0, screens_output = 0, screens_final = 0, approvals = 0, signatures = 0, frames = 0, keys = 0;
    uint64_t sessions = 0, session_kills = 0, silent_outputs = 0, outputs_prompted = 0, frames_accepted = 0, frames_refused = 0;
    uint64_t trusted = 0, malformed = 0, scans = 0, errs_policy = 0, errs_order = 0, errs_overflow = 0, errs_session = 0, fault_errors = 0, fault_survived = 0;
    uint64_t sim_ms = 0, net_lost = 0, net_dup = 0, net_delayed = 0, net_reordered = 0, retries = 0, timeouts = 0, mutated = 0, epilogues = 0, interleaved = 0, foreign = 0, nontrivial = 0, injected_in_prompt = 0, huge = 0, probes = 0, longlife = 0;
};
struct World {
    Model m;
    RunConfig cfg;
    std::set<B32> nonces;       // of every signature released in this run, over all power cycles
    std::set<B33> commitments;
    std::map<uint32_t, uint64_t> resp_hash;
    std::vector<Response> responses;
    bool faulted_since_boot = false;
    std::vector<uint64_t> *obs = nullptr;  // what the outside saw, event by event
    uint64_t sig = 0;           // running signature of the explored path
    uint8_t *bitmap = nullptr;  // shared coverage map, 1 << 20 bits
    Counters c;
    std::string log;            // when verbose
    bool verbose = false;
    enum { REFUSED = 1, IN_PROMPT = 2, QUERY = 4, BEGINS = 8 };
    uint8_t cls = 0;            // what the event was: refused by the dispatcher, no effect on a prompt, status query, a new request
    std::vector<std::pair<Event, uint8_t>> since_boot;  // kept when probes may come
    size_t last_frame = 0;      // event in it that returned a frame, plus one
    std::deque<Bytes> recent;   // commands and answers of this power cycle
    unsigned adopted = 0;       // deviations of other properties that the run was continued after
    std::string first_foreign;
    std::string followed;       // the deviation of this event that the run was continued after

    void start(const RunConfig &rc);
    bool on() const { return g_dev.state == DEV_WAITING; }
    // Executes the event if it can be executed; the deviation is empty when everything matched.
    Deviation step(const Event &e);
    bool runnable(const Event &e) const;

  private:
    Deviation apdu(const Event &e);
    Deviation button(const Event &e);
    Deviation check_answer(const Event &e, Expect &x, const Response &r);
    Deviation check_screen(const Display &d, const Screen &s, uint32_t extra);
    Deviation check_menu(uint32_t extra);
    Deviation probe(const Event &e);
    Deviation disclosure();
    bool stray(const Bytes &got, const Bytes &want) const;
    void dev_run(const Event &e, uint8_t last);
    Deviation after(const Event &e, Session::K before, uint32_t serial);
    bool foreign(const Deviation &d);   // not the property under check, and the run can go on
    uint32_t flt() const;
    void note(const Event &e, const char *outcome);
};
extern uint32_t g_own;              // properties under check; a deviation from another one does not end the run if it can be followed
uint64_t hash_bytes(const Bytes &b);
std::string describe(const Event &e);
