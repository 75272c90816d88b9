// The simulated world around the device: hosts, transport, user and power, driven by one seed.
#pragma once
#include "world.hpp"
#include <deque>
#include <functional>
#include <queue>

struct Cmd {
    Bytes apdu;
    std::vector<Dep> deps;
    std::string note;
};
enum Capture : uint8_t { CAP_NONE, CAP_SID, CAP_COUNT, CAP_FRAME };
struct Step {
    uint8_t ins = 0, p1 = 0, p2 = 0;
    bool session_p2 = false;  // P2 is the session number of the flow
    Bytes data;
    int box = -1, frame = -1; // data = frame of a box + data
    int forge = 0;            // how the frame is falsified
    Capture cap = CAP_NONE;
    const char *note = "";
};
struct Box {
    Bytes txid;
    uint16_t index = 0;
    uint64_t value = 0;
    Bytes tree, regs;
    uint32_t height = 0;
    std::vector<Token> toks;
    struct F {
        Bytes data;
        uint32_t ev = 0;
        uint64_t hash = 0;
    };
    std::map<int, F> frames;   // latest
    std::vector<F> history;    // of any boot
    uint32_t boot = 0;
    unsigned count() const { return std::max<unsigned>(1, ((unsigned) toks.size() + 3) / 4); }
    bool complete(uint32_t b) const { return boot == b && frames.size() == count(); }
};
enum FlowKind { FL_NONE, FL_KEY, FL_ATTEST, FL_SIGN, FL_STATUS };
struct Flow {
    FlowKind kind = FL_NONE;
    std::vector<Step> steps;
    size_t pc = 0;
    int sid = -1;
    int box = -1;
    bool honest = true;
};
struct Job {
    FlowKind kind;
    int box = -1;
    std::vector<int> boxes;
};
struct Host {
    std::deque<Job> jobs;
    Flow flow;
    bool active = false;
    uint64_t await = 0;     // message number whose answer is awaited
    Cmd last;
    int tries = 0;
    bool sloppy = false, use_token = false;
    uint32_t token = 0;
    uint32_t think = 10, timeout = 2000;
    int prev_sid = -1;
    int stubborn = 0;       // errors ignored in this flow
    Path account;           // sign path most often used
};
enum UserStyle { U_READER, U_FAST, U_ERRATIC, U_REJECT, U_REVIEWER, U_IDLE, U_PATHBOTH, U_STYLES };
struct Profile {
    unsigned events = 160;
    double multi_host = 0.35;
    double w_key = 1, w_attest = 1, w_tx = 4, w_status = 0.4;
    double mut_flow = 0.2, mut_step = 0.01, forge = 0.02, old_frame = 0.3;
    double net = 0.02;
    double fault = 0.0, fault_burst = 0.2, fault_cut = 0.15, rng = 0.0;
    double power = 0.004, ioerr = 0.0005;
    double stray = 0.02, stray_prompt = 0.1, malformed = 0.3;
    double menu = 0.01, quit = 0.1;
    double style[U_STYLES] = {4, 5, 0.6, 0.4, 1.5, 0.4, 0.6};
    double p_token = 0.5, p_foreign_token = 0.15;
    double boundary = 0.25;    // boundary-biased numbers
    double overflow = 0.05;    // sums near the 64-bit limits
    double bigbox = 0.05;
    double many = 0.02;        // hundreds of inputs or outputs
    double probe = 0;          // after a frame: does its code rest on enough randomness
    double longlife = 0.005;   // thousands of events without a power cut
    double huge = 0;           // tens of thousands of inputs, outputs or data inputs
    double near_tree = 0.2;
    double cross = 0.02;       // strays that are steps of the other kind of session
    double crafted = 0.02;     // transaction ids that imitate other records
    double change = 0.35, fee = 0.4;
    double longpath = 0.04, badpath = 0.05;
    unsigned max_tokens = 6, max_outputs = 4, max_inputs = 3;
    double tokens20 = 0.05;
    double retry = 0.6;
    double sloppy = 0.2;
    double fetch_again = 0.15;
    double unusual_net = 0.2;
    double nanos = 0.3;
    bool epilogue = true;
    bool swarm = true;
};
Profile profile_for(int prop, bool thorough);

struct Outcome {
    Deviation dev;
    bool harness_error = false;
    std::string error;
};
class Sim {
  public:
    World w;
    RunConfig cfg;
    std::vector<Event> trace;
    std::function<void(const Event &)> on_event;   // called before an event is executed
    std::string genlog;
    Profile P;
    Outcome run(int prop, bool thorough, uint64_t seed);

  private:
    Rng r;
    struct Item {
        uint64_t t, seq;
        enum T { DELIVER, REPLY, TIMEOUT, WAKE, USER, POWER_CUT, POWER_ON, MENU } type;
        int host = -1;
        uint64_t msg = 0;
        Cmd cmd;
        Response resp;
        uint32_t ev = 0;
        bool lose_reply = false;
        bool operator<(const Item &o) const { return t != o.t ? t > o.t : seq > o.seq; }
    };
    std::priority_queue<Item> q;
    uint64_t now = 0, seq = 0, msgno = 0;
    uint32_t next_id = 1, bootno = 0;
    std::vector<Host> hosts;
    std::vector<Box> pool;
    std::vector<Cmd> sent;
    int owner_host = -1;
    uint64_t owner_msg = 0;
    bool owner_lose = false;
    UserStyle style = U_READER;
    int user_step = 0;
    bool user_scheduled = false, stray_scheduled = false;
    unsigned target = 0;       // events this run is going to have
    unsigned stretch = 2;      // how often a long transaction may raise that
    int long_host = -1;        // who is uploading one
    double calm = 1;           // factor on the rate of disturbances meanwhile
    bool final_phase = false;
    int focus = 0;
    unsigned huge_kind = 0, huge_n = 0;
    std::vector<int> sids;
    Deviation dev;
    bool stop = false;

    void push(Item it, uint64_t delay);
    bool exec(Event &e);
    void attach_faults(Event &e);
    void host_continue(int h);
    void host_finish(int h, bool ok);
    void host_reply(int h, uint64_t msg, const Response &resp, uint32_t ev);
    void send(int h, const Cmd &c, bool fresh);
    Cmd build(Host &h, const Step &s);
    void mutate_bytes(Cmd &c);
    Cmd stray();
    Cmd malformed();
    void user_act();
    void after_event();
    void new_jobs(int h);
    void start_flow(int h);
    Flow key_flow(Host &h);
    Flow attest_flow(Host &h, int b);
    Flow sign_flow(Host &h, const std::vector<int> &boxes);
    void mutate_flow(Flow &f);
    Bytes lookalike();
    int new_box(bool small);
    uint64_t num(int bits);
    uint32_t size_value(bool big);
    uint32_t declared(size_t n);
    Path addr_path(bool odd);
    Path epk_path(bool odd);
    uint32_t app_token(Host &h);
    bool epilogue();
    Display display() const { return g_dev.display(); }
};
