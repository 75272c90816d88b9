// Supervisor: seeded search over many simulated runs, minimisation and exact replay of what it finds.
#include "gen.hpp"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef SIM_ASAN
extern "C" const char *__asan_default_options() { return "exitcode=79:detect_leaks=0:detect_stack_use_after_return=0:halt_on_error=1:abort_on_error=0:allocator_may_return_null=1:symbolize=0:print_legend=0:handle_segv=1:use_sigaltstack=1"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=79:print_stacktrace=0"; }
static const char *EXE = "asan";
#else
static const char *EXE = "plain";
#endif
static const int RUN_CPU_SECONDS = 40;
static double now_s() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}
static std::map<std::string, std::string> opt;
static std::string get(const std::string &k, const std::string &d = "") { return opt.count(k) ? opt[k] : d; }
static long geti(const std::string &k, long d) { return opt.count(k) ? atol(opt[k].c_str()) : d; }

// ------------------------------------------------------------------ trace text
static std::string event_text(const Event &e) {
    std::ostringstream s;
    s << "event " << e.id << " " << (int) e.kind << " apdu=" << hex(e.apdu) << " faults=";
    for (size_t i = 0; i < e.faults.size(); i++) s << (i ? "," : "") << e.faults[i].at << ":" << (int) e.faults[i].kind << ":" << e.faults[i].code << ":" << e.faults[i].call;
    s << " rng=";
    for (size_t i = 0; i < e.rng.size(); i++) s << (i ? "," : "") << e.rng[i].draw << ":" << (int) e.rng[i].kind;
    s << " deps=";
    for (size_t i = 0; i < e.deps.size(); i++) s << (i ? "," : "") << e.deps[i].id << ":" << e.deps[i].hash;
    s << " note=" << e.note << "\n";
    return s.str();
}
static std::vector<std::string> split(const std::string &s, char c) {
    std::vector<std::string> v;
    std::string t;
    std::istringstream i(s);
    while (std::getline(i, t, c)) v.push_back(t);
    return v;
}
static bool parse_event(const std::string &line, Event &e) {
    std::istringstream s(line);
    std::string w;
    int kind;
    if (!(s >> w >> e.id >> kind) || w != "event") return false;
    e.kind = (uint8_t) kind;
    while (s >> w) {
        size_t q = w.find('=');
        if (q == std::string::npos) continue;
        std::string k = w.substr(0, q), v = w.substr(q + 1);
        if (k == "apdu") e.apdu = unhex(v);
        if (k == "note") {
            std::string rest;
            std::getline(s, rest);
            e.note = v + rest;
            break;
        }
        for (auto &x : split(v, ',')) {
            auto f = split(x, ':');
            if (k == "faults" && f.size() == 4) {
                Fault y;
                y.at = (uint32_t) strtoul(f[0].c_str(), 0, 10);
                y.kind = (uint8_t) atoi(f[1].c_str());
                y.code = (uint32_t) strtoul(f[2].c_str(), 0, 10);
                y.call = (uint32_t) strtoul(f[3].c_str(), 0, 10);
                e.faults.push_back(y);
            }
            if (k == "rng" && f.size() == 2) e.rng.push_back({(uint32_t) strtoul(f[0].c_str(), 0, 10), (uint8_t) atoi(f[1].c_str())});
            if (k == "deps" && f.size() == 2) e.deps.push_back({(uint32_t) strtoul(f[0].c_str(), 0, 10), strtoull(f[1].c_str(), 0, 10)});
        }
    }
    return true;
}
struct Replay {
    std::string prop, what, exe;
    uint32_t tags = 0, event = 0;
    RunConfig cfg;
    std::vector<Event> ev;
    uint64_t base_seed = 0, index = 0;
};
static std::string replay_text(const Replay &r) {
    std::ostringstream s;
    s << "ergo-sim-replay 1\nproperty " << r.prop << "\nwhat " << r.what << "\nexpect " << r.tags << " " << r.event << "\nexe " << r.exe << "\nfound " << r.base_seed << " " << r.index
      << "\nconfig " << r.cfg.seed << " " << r.cfg.wallet << " " << r.cfg.page_size << " " << r.cfg.variant << "\n";
    for (auto &e : r.ev) s << event_text(e);
    return s.str();
}
static bool load_replay(const std::string &path, Replay &r) {
    std::ifstream f(path);
    std::string line;
    if (!f || !std::getline(f, line) || line != "ergo-sim-replay 1") return false;
    while (std::getline(f, line)) {
        std::istringstream s(line);
        std::string k;
        s >> k;
        if (k == "property") s >> r.prop;
        else if (k == "what") r.what = line.size() > 5 ? line.substr(5) : "";
        else if (k == "expect") s >> r.tags >> r.event;
        else if (k == "exe") s >> r.exe;
        else if (k == "found") s >> r.base_seed >> r.index;
        else if (k == "config") s >> r.cfg.seed >> r.cfg.wallet >> r.cfg.page_size >> r.cfg.variant;
        else if (k == "event") {
            Event e;
            if (!parse_event(line, e)) return false;
            r.ev.push_back(e);
        }
    }
    return !r.ev.empty();
}
// ------------------------------------------------------------------ children
struct Result {          // what a child run ended with
    uint32_t tags = 0, direct = 0, event = 0;
    bool harness = false;
    std::string what;
    uint64_t sig = 0;
    uint32_t executed = 0;
};
static const uint32_t CRASH_TAGS = T14 | T09;
static std::string scratch;
static volatile int *g_shared_in_device;
static std::string crash_reason(int status, const std::string &errfile) {
    std::string what;
    std::ifstream f(errfile);
    std::string line;
    while (std::getline(f, line)) {
        size_t p = line.find("ERROR: AddressSanitizer: ");
        if (p != std::string::npos) {
            what = line.substr(p + 7);
            size_t q = what.find(" on ");
            if (q != std::string::npos) what = what.substr(0, q);
            break;
        }
        p = line.find("runtime error: ");
        if (p != std::string::npos) {
            size_t s = line.rfind("/src/", p);
            what = (s != std::string::npos ? line.substr(s + 1, p - s - 1) : "") + line.substr(p);
            break;
        }
    }
    if (what.empty()) {
        if (WIFSIGNALED(status))
            what = WTERMSIG(status) == SIGVTALRM ? "device hangs" : "device crashes with signal " + std::to_string(WTERMSIG(status));
        else
            what = "device process ends with status " + std::to_string(WEXITSTATUS(status));
    }
    return what;
}
static void arm() {
    struct itimerval t {};
    t.it_value.tv_sec = RUN_CPU_SECONDS;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
// Runs fn in a forked child. fn writes its result; a crash inside the device becomes a deviation.
static Result in_child(const std::function<Result()> &fn) {
    int fd[2];
    if (pipe(fd)) abort();
    std::string err = scratch + "/err." + std::to_string(getpid());
    fflush(nullptr);
    *g_shared_in_device = 0;
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        int e = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(e, 2);
        arm();
        Result r = fn();
        std::ostringstream s;
        s << r.tags << " " << r.direct << " " << r.event << " " << r.harness << " " << r.sig << " " << r.executed << " " << r.what;
        std::string t = s.str();
        if (write(fd[1], t.data(), t.size()) < 0) _exit(9);
        _exit(0);
    }
    close(fd[1]);
    std::string t;
    char b[4096];
    ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) t.append(b, (size_t) n);
    close(fd[0]);
    int st;
    waitpid(p, &st, 0);
    Result r;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        std::istringstream s(t);
        s >> r.tags >> r.direct >> r.event >> r.harness >> r.sig >> r.executed;
        std::getline(s, r.what);
        if (!r.what.empty()) r.what = r.what.substr(1);
    } else if (*g_shared_in_device) {
        r.tags = r.direct = CRASH_TAGS;
        r.what = crash_reason(st, err);
    } else {
        r.harness = true;
        r.what = "simulator " + crash_reason(st, err);
    }
    unlink(err.c_str());
    return r;
}
static bool twin_prop(const std::string &p) {  // properties that also demand independence of uninitialised memory
    return (p == "C14" || p == "C20") && std::string(EXE) == "plain";
}
// The same events with other garbage on the unused stack and behind the command: nothing visible may change.
static Result play_twin(const RunConfig &cfg, const std::vector<Event> &ev) {
    Result r;
    std::vector<uint64_t> seen[2];
    for (int t = 0; t < 2; t++) {
        RunConfig c = cfg;
        c.twin = t;
        World w;
        w.obs = &seen[t];
        w.start(c);
        for (auto &e : ev) {
            size_t n = seen[t].size();
            Deviation d = w.step(e);
            bool differs = t == 1 && seen[1].size() > n && (seen[0].size() <= n || seen[0][n] != seen[1][n]);
            if (differs) {
                r.tags = r.direct = T14 | T20;
                r.what = "what the device answers or shows depends on uninitialised memory";
                r.event = e.id;
                return r;
            }
            if (d) break;
        }
        if (t == 1 && seen[1].size() < seen[0].size()) {
            r.tags = r.direct = T14 | T20;
            r.what = "what the device answers or shows depends on uninitialised memory";
            r.event = ev.empty() ? 0 : ev.back().id;
        }
    }
    return r;
}
// A property of the form "as if it had never happened" is at stake only if the deviation goes away when that is taken out of the
// history. The request in which it showed is repeated on a device that was just switched on (with the same frame key and the same
// trusted application), without failures (C11, C20), without refused commands (C08, C17), without what lay before it (C07, and all others).
static void judge(const RunConfig &cfg, const std::vector<Event> &ev, Result &r) {
    uint32_t own = r.tags & g_own & (T07 | T08 | T11 | T17 | T20);
    if (!own || g_own & (g_own - 1) || r.direct & g_own) return;
    std::vector<uint8_t> cls;
    std::vector<int> number;
    size_t start = 0, boot = 0;
    uint32_t token = 0;
    bool found = false;
    {
        World w;
        w.start(cfg);
        for (size_t i = 0; i < ev.size() && !found; i++) {
            uint32_t t = w.m.connected;
            Deviation d = w.step(ev[i]);
            cls.push_back(w.cls);
            number.push_back(w.m.s.approved ? w.m.s.id : -1);
            if (ev[i].kind == EV_BOOT) start = 0;
            if (w.cls & World::BEGINS) {
                start = i;
                token = t;
            }
            w.cls = 0;
            if (!d) continue;
            if (d.event != r.event || d.what != r.what) return;
            found = true;
        }
    }
    if (!found) return;
    for (size_t i = 0; i < start; i++)
        if (ev[i].kind == EV_BOOT) boot = i;
    World w;
    w.start(cfg);
    Deviation d;
    for (size_t i = 0, last = cls.size() - 1; i <= last && !d; i++) {
        Event e = ev[i];
        e.deps.clear();
        if (start && i == start) {
            auto a = w.m.attested, o = w.m.old_frames;
            if (w.step(ev[boot])) return;
            w.m.attested = a;
            w.m.old_frames = o;
            Event x;
            x.kind = EV_APDU;
            x.id = 0x70000000;
            x.apdu = unhex("e010020011038000002c800001ad80000000");
            for (int k = 24; k >= 0; k -= 8) x.apdu.push_back((uint8_t) (token >> k));
            if (token && w.step(x)) return;
            for (int k = 0; k < 60 && w.m.busy(); k++) {
                Event b;
                b.id = ++x.id;
                b.kind = w.m.p.pos == w.m.p.approve ? EV_BOTH : EV_RIGHT;
                if (w.step(b)) return;
            }
        }
        if (i >= start && own & (T11 | T20)) e.faults.clear(), e.rng.clear();
        if (i >= start && i < last && own == T08 && cls[i] & (World::IN_PROMPT | World::QUERY)) continue;
        if (i >= start && i < last && own == T17 && cls[i] & World::REFUSED) continue;
        if (i > start && e.kind == EV_APDU && e.apdu.size() >= 5 && (e.apdu[1] == 0x20 || e.apdu[1] == 0x21) && e.apdu[2] != 1 && number[i - 1] == e.apdu[3] && w.m.s.approved) e.apdu[3] = (uint8_t) w.m.s.id;
        d = w.step(e);
    }
    if (w.followed == r.what || (d && d.event == r.event && d.what == r.what)) r.tags &= ~g_own;
}
static Result play(const RunConfig &cfg, const std::vector<Event> &ev, std::string *log = nullptr, bool twin = false) {
    World w;
    w.verbose = log != nullptr;
    w.start(cfg);
    Result r;
    for (auto &e : ev) {
        uint64_t n = w.c.events;
        Deviation d = w.step(e);
        r.executed += w.c.events != n;
        if (log) {
            *log += w.log;
            w.log.clear();
            fwrite(log->data(), 1, log->size(), stdout);
            fflush(stdout);
            log->clear();
        }
        if (d) {
            r.tags = d.tags;
            r.direct = d.direct;
            r.what = d.what;
            r.event = d.event;
            break;
        }
    }
    r.sig = mix(w.sig, g_dev.state_digest());
    judge(cfg, ev, r);
    if (twin && !(r.tags & g_own)) {
        Result t = play_twin(cfg, ev);
        if (t.tags) {
            t.sig = r.sig;
            t.executed = r.executed;
            return t;
        }
    }
    return r;
}
static uint64_t run_seed(uint64_t base, int prop, uint64_t index) { return mix(base, 0xE460 + (uint64_t) prop, index); }

// ------------------------------------------------------------------ known findings
struct Known {
    std::string prop, pattern;
};
static std::vector<Known> known;
static void load_known(const std::string &path) {
    std::ifstream f(path);
    std::string line;
    while (std::getline(f, line)) {
        // KNOWN property=<id> match=<text of the deviation, a part of it>
        if (line.rfind("KNOWN property=", 0) != 0) continue;
        size_t m = line.find(" match=");
        if (m == std::string::npos) continue;
        known.push_back({line.substr(15, m - 15), line.substr(m + 7)});
    }
}
static bool is_known(const std::string &prop, const std::string &what) {
    for (auto &k : known)
        if (k.prop == prop && what.find(k.pattern) != std::string::npos) return true;
    return false;
}
// ------------------------------------------------------------------ the search
static const unsigned MAXW = 64;
struct Slot {
    volatile int in_device;
    volatile uint64_t index;
    volatile uint64_t next;       // where to continue after a crash
    volatile int done;
    volatile uint64_t fail_index;  // own property
    volatile uint32_t fail_tags;
    volatile int harness;
    char harness_msg[200];
    Counters c;
    uint64_t foreign_by[32], known_hits;
    uint64_t syscall_faults[32], rng_kinds[R_KINDS], cuts[4];
    uint64_t stack_max;
    uint64_t crashes_foreign;
};
struct Shared {
    volatile uint64_t stop_at;    // no run beyond this one is of interest
    Slot slot[MAXW];
    uint8_t bitmap[1 << 17];
    uint8_t sigs[1 << 21];        // distinct runs, a 16M-bit filter
};
static Shared *S;
template <class T> static void add_all(T &a, const T &b) {
    uint64_t *x = (uint64_t *) &a;
    const uint64_t *y = (const uint64_t *) &b;
    for (size_t i = 0; i < sizeof(T) / 8; i++) x[i] += y[i];
}
// Whether a run really put its property to the test (a count of runs, not a verdict).
static bool put_to_test(int prop, const Counters &c) {
    switch (prop) {
        case 1: case 12: return c.signatures > 0;
        case 2: return c.signatures > 0 || (c.denied > 0 && c.prompts > 0);
        case 3: return c.screens_output > 0 || c.silent_outputs > 0;
        case 4: return c.screens_final > 0 || c.errs_overflow > 0;
        case 5: return c.frames > 0;
        case 6: return c.frames_accepted + c.frames_refused > 0;
        case 7: return c.sessions > 1 || c.session_kills > 0;
        case 8: return c.injected_in_prompt > 0;
        case 9: return c.epilogues > 0;
        case 10: return c.trusted > 0 || c.prompts > 0;
        case 11: return c.faults + c.rng_anoms + c.crashes > 0;
        case 13: return c.scans > 0;
        case 15: return c.keys > 0 || c.errs_policy > 0;
        case 16: return c.errs_order > 0 || c.errs_overflow > 0;
        case 17: return c.malformed > 0;
        case 20: return c.keys + c.frames + c.signatures > 0;
        default: return c.apdus > 1;
    }
}
static void worker(unsigned k, unsigned nw, int prop, bool thorough, uint64_t base, uint64_t runs, double deadline) {
    Slot &s = S->slot[k];
    g_in_device = &s.in_device;
    uint32_t mask = 1u << prop;
    std::string pname = get("prop");
    bool twin = twin_prop(pname);
    for (uint64_t i = s.next; i < runs; i += nw) {
        if (i > S->stop_at || now_s() > deadline) break;
        s.index = i;
        s.next = i;
        arm();
        Sim sim;
        sim.w.bitmap = S->bitmap;
        Outcome o = sim.run(prop, thorough, run_seed(base, prop, i));
        Counters &c = sim.w.c;
        if (put_to_test(prop, c)) {
            c.nontrivial++;
            uint64_t h = sim.w.sig & ((1 << 24) - 1);
            __atomic_fetch_or(&S->sigs[h >> 3], (uint8_t) (1 << (h & 7)), __ATOMIC_RELAXED);
        }
        for (int t = 0; t < 32; t++) s.syscall_faults[t] += g_dev.fault_hist[t];
        for (int t = 0; t < R_KINDS; t++) s.rng_kinds[t] += g_dev.rng_hist[t];
        for (int t = 0; t < 4; t++) s.cuts[t] += g_dev.crash_hist[t];
        if (!o.harness_error && !(o.dev.tags & mask) && twin) {
            Result t = play_twin(sim.cfg, sim.trace);
            if (t.tags) {
                o.dev.tags = t.tags;
                o.dev.direct = t.direct;
                o.dev.what = t.what;
                o.dev.event = t.event;
            }
        }
        memset(g_dev.fault_hist, 0, sizeof g_dev.fault_hist);
        memset(g_dev.rng_hist, 0, sizeof g_dev.rng_hist);
        memset(g_dev.crash_hist, 0, sizeof g_dev.crash_hist);
        if (o.harness_error) {
            s.harness = 1;
            snprintf(s.harness_msg, sizeof s.harness_msg, "run %llu: %s", (unsigned long long) i, o.error.c_str());
            s.fail_index = i;
            break;
        }
        if (o.dev && opt.count("log")) {  // survey: list every deviation, judge nothing
            FILE *f = fopen(get("log").c_str(), "a");
            fprintf(f, "%llu %x %s\n", (unsigned long long) i, o.dev.tags, o.dev.what.c_str());
            fclose(f);
        } else if (o.dev) {
            if ((o.dev.tags & mask) && !(o.dev.direct & mask)) {
                Result t = in_child([&] {
                    g_in_device = g_shared_in_device;
                    Result x;
                    x.tags = o.dev.tags;
                    x.direct = o.dev.direct;
                    x.what = o.dev.what;
                    x.event = o.dev.event;
                    judge(sim.cfg, sim.trace, x);
                    return x;
                });
                if (!t.harness && !(t.tags & mask)) o.dev.tags &= ~mask;
            }
            if ((o.dev.tags & mask) && !is_known(pname, o.dev.what)) {
                s.fail_index = i;
                s.fail_tags = o.dev.tags;
                uint64_t cur = S->stop_at;
                while (i < cur && !__sync_bool_compare_and_swap(&S->stop_at, cur, i)) cur = S->stop_at;
                add_all(s.c, c);
                break;
            }
            if (o.dev.tags & mask) s.known_hits++;
            c.foreign++;
            for (int t = 1; t < 21; t++)
                if (o.dev.tags & (1u << t)) s.foreign_by[t]++;
        } else if (sim.w.adopted)
            c.foreign++;
        add_all(s.c, c);
        s.next = i + nw;
        s.stack_max = std::max<uint64_t>(s.stack_max, g_dev.stack_used);
    }
    s.done = 1;
}
// Re-executes one run from its seed, recording the events as they are handed to the device (survives a crash).
static Result record(int prop, bool thorough, uint64_t seed, RunConfig &cfg, std::vector<Event> &ev) {
    std::string path = scratch + "/trace";
    unlink(path.c_str());
    Result r = in_child([&] {
        g_in_device = g_shared_in_device;
        FILE *f = fopen(path.c_str(), "w");
        Sim sim;
        bool first = true;
        sim.on_event = [&](const Event &e) {
            if (first) fprintf(f, "config %llu %llu %u %d\n", (unsigned long long) sim.cfg.seed, (unsigned long long) sim.cfg.wallet, sim.cfg.page_size, sim.cfg.variant);
            first = false;
            std::string t = event_text(e);
            fwrite(t.data(), 1, t.size(), f);
            fflush(f);
        };
        Outcome o = sim.run(prop, thorough, seed);
        if (!o.harness_error && !(o.dev.tags & (1u << prop)) && twin_prop(get("prop"))) {
            Result t = play_twin(sim.cfg, sim.trace);
            if (t.tags) return t;
        }
        Result x;
        x.harness = o.harness_error;
        x.tags = o.dev.tags;
        x.direct = o.dev.direct;
        x.event = o.dev.event;
        x.what = o.harness_error ? o.error : o.dev.what;
        if (!x.harness) judge(sim.cfg, sim.trace, x);
        return x;
    });
    std::ifstream f(path);
    std::string line;
    while (std::getline(f, line)) {
        if (line.rfind("config", 0) == 0) {
            std::istringstream s(line);
            std::string k;
            s >> k >> cfg.seed >> cfg.wallet >> cfg.page_size >> cfg.variant;
        } else {
            Event e;
            if (parse_event(line, e)) ev.push_back(e);
        }
    }
    unlink(path.c_str());
    return r;
}
static Result try_events(const RunConfig &cfg, const std::vector<Event> &ev, bool twin = twin_prop(get("prop"))) {
    return in_child([&] {
        g_in_device = g_shared_in_device;
        return play(cfg, ev, nullptr, twin);
    });
}
static std::vector<Event> minimise(const RunConfig &cfg, std::vector<Event> ev, uint32_t mask, const std::string &prop, double budget) {
    double end = now_s() + budget;
    auto bad = [&](const std::vector<Event> &c) {
        Result r = try_events(cfg, c);
        return !r.harness && (r.tags & mask) && !is_known(prop, r.what);
    };
    size_t n = 2;
    while (ev.size() >= 2 && now_s() < end) {
        size_t chunk = (ev.size() + n - 1) / n;
        bool reduced = false;
        for (size_t start = 0; start < ev.size() && now_s() < end; start += chunk) {
            // later parts first: they matter least
            size_t st = ev.size() > start + chunk ? ev.size() - start - chunk : 0, en = ev.size() - start;
            std::vector<Event> c(ev.begin(), ev.begin() + (long) st);
            c.insert(c.end(), ev.begin() + (long) en, ev.end());
            if (!c.empty() && bad(c)) {
                ev = c;
                n = std::max<size_t>(n - 1, 2);
                reduced = true;
                break;
            }
        }
        if (!reduced) {
            if (n >= ev.size()) break;
            n = std::min(ev.size(), n * 2);
        }
    }
    for (size_t i = 0; i < ev.size() && now_s() < end; i++) {
        for (int pass = 0; pass < 3; pass++) {
            std::vector<Event> c = ev;
            if (pass == 0 && c[i].faults.empty()) continue;
            if (pass == 1 && c[i].rng.empty()) continue;
            if (pass == 2 && c[i].faults.size() < 2) continue;
            if (pass == 0) c[i].faults.clear();
            if (pass == 1) c[i].rng.clear();
            if (pass == 2) c[i].faults.resize(1);
            if (bad(c)) ev = c;
        }
    }
    return ev;
}
static std::string json_str(const std::string &s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') o += '\\', o += c;
        else if ((unsigned char) c < 32) o += ' ';
        else o += c;
    }
    return o + "\"";
}
static int check() {
    std::string pname = get("prop");
    int prop = atoi(pname.c_str() + 1);
    bool thorough = get("tier", "quick") == "thorough";
    uint64_t base = strtoull(get("seed", "1").c_str(), 0, 10), runs = (uint64_t) geti("runs", 1000);
    unsigned nw = (unsigned) std::min<long>(geti("workers", 8), MAXW);
    double t0 = now_s(), deadline = t0 + (double) geti("time", 600);
    load_known(get("known"));
    if (!opt.count("log")) g_own = 1u << prop;
    S = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    S->stop_at = ~0ULL;
    // Determinism of the machinery itself: the same run twice must take the same path to the same final memory.
    {
        auto once = [&](uint64_t i) {
            return in_child([&] {
                g_in_device = g_shared_in_device;
                Sim sim;
                Outcome o = sim.run(prop, thorough, run_seed(base, prop, i));
                Result x;
                x.tags = o.dev.tags;
                x.what = o.dev.what;
                x.sig = mix(sim.w.sig, g_dev.state_digest());
                x.executed = (uint32_t) sim.trace.size();
                return x;
            });
        };
        for (uint64_t i = 0; i < 3; i++) {
            Result a = once(i), b = once(i);
            if (a.harness || b.harness || a.sig != b.sig || a.tags != b.tags || a.what != b.what || a.executed != b.executed) {
                fprintf(stderr, "harness: run %llu is not repeatable (%s / %s)\n", (unsigned long long) i, a.what.c_str(), b.what.c_str());
                return 3;
            }
        }
    }
    struct W {
        pid_t pid;
        std::string err;
    };
    std::vector<W> ws(nw);
    uint64_t crash_fail = ~0ULL;
    auto spawn = [&](unsigned k) {
        ws[k].err = scratch + "/werr." + std::to_string(k);
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            int e = open(ws[k].err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(e, 2);
            worker(k, nw, prop, thorough, base, runs, deadline);
            _exit(0);
        }
        ws[k].pid = p;
    };
    for (unsigned k = 0; k < nw; k++) {
        S->slot[k].next = k;
        S->slot[k].fail_index = ~0ULL;
        spawn(k);
    }
    unsigned alive = nw;
    bool harness = false;
    std::string hmsg;
    std::map<std::string, uint64_t> crash_kinds;
    while (alive) {
        int st;
        pid_t p = wait(&st);
        if (p < 0) break;
        unsigned k = 0;
        while (k < nw && ws[k].pid != p) k++;
        if (k == nw) continue;
        Slot &s = S->slot[k];
        if (s.done && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            alive--;
            if (s.harness) {
                harness = true;
                hmsg = s.harness_msg;
            }
            continue;
        }
        std::string why = crash_reason(st, ws[k].err);
        if (!s.in_device) {
            harness = true;
            hmsg = "simulator died in run " + std::to_string(s.index) + ": " + why;
            std::ifstream f(ws[k].err);
            std::string line;
            while (std::getline(f, line)) hmsg += "\n  " + line;
            alive--;
            continue;
        }
        crash_kinds[why]++;
        if (opt.count("log")) {
            FILE *f = fopen(get("log").c_str(), "a");
            fprintf(f, "%llu %x %s\n", (unsigned long long) s.index, CRASH_TAGS, why.c_str());
            fclose(f);
        } else if ((CRASH_TAGS & (1u << prop)) && !is_known(pname, why)) {
            uint64_t i = s.index;
            crash_fail = std::min(crash_fail, i);
            s.fail_index = std::min<uint64_t>((uint64_t) s.fail_index, i);
            uint64_t cur = S->stop_at;
            while (i < cur && !__sync_bool_compare_and_swap(&S->stop_at, cur, i)) cur = S->stop_at;
            alive--;
            continue;
        }
        s.crashes_foreign++;
        s.c.foreign++;
        s.c.runs++;
        s.next = s.index + nw;
        s.in_device = 0;
        if (s.crashes_foreign > 2000) {
            alive--;
            continue;
        }
        spawn(k);
    }
    for (unsigned k = 0; k < nw; k++) unlink(ws[k].err.c_str());
    double search_s = now_s() - t0;
    uint64_t fail = ~0ULL;
    for (unsigned k = 0; k < nw; k++)
        if (!S->slot[k].harness) fail = std::min<uint64_t>(fail, (uint64_t) S->slot[k].fail_index);
    if (harness && fail == ~0ULL) {
        fprintf(stderr, "harness: %s\n", hmsg.c_str());
        return 3;
    }
    int rc = 0;
    std::string vio = "null";
    if (fail != ~0ULL) {
        Replay R;
        R.prop = pname;
        R.exe = EXE;
        R.base_seed = base;
        R.index = fail;
        uint32_t mask = 1u << prop;
        Result first = record(prop, thorough, run_seed(base, prop, fail), R.cfg, R.ev);
        if (first.harness || !(first.tags & mask)) {
            fprintf(stderr, "harness: run %llu failed in the search but not when repeated (%s)\n", (unsigned long long) fail, first.what.c_str());
            return 3;
        }
        Result again = try_events(R.cfg, R.ev);
        if (!(again.tags & mask) || again.what != first.what) {
            fprintf(stderr, "harness: the recorded trace of run %llu does not reproduce (%s / %s)\n", (unsigned long long) fail, first.what.c_str(), again.what.c_str());
            return 3;
        }
        if (opt.count("fast")) {
            printf("run %llu: %s\n", (unsigned long long) fail, first.what.c_str());
            return 1;
        }
        size_t full = R.ev.size();
        R.ev = minimise(R.cfg, R.ev, mask, pname, (double) geti("mintime", 45));
        // drop what is not executed any more
        Result m1 = try_events(R.cfg, R.ev), m2 = try_events(R.cfg, R.ev);
        if (!(m1.tags & mask) || m1.what != m2.what || m1.event != m2.event) {
            fprintf(stderr, "harness: minimised trace is not repeatable\n");
            return 3;
        }
        R.tags = m1.tags;
        R.what = m1.what;
        R.event = m1.event;
        std::string path = get("out", ".") + "/" + pname + "-" + EXE + "-" + std::to_string(base) + "-" + std::to_string(fail) + ".replay";
        std::ofstream(path) << replay_text(R);
        vio = "{\"path\":" + json_str(path) + ",\"what\":" + json_str(R.what) + ",\"first\":" + json_str(first.what) + ",\"run\":" + std::to_string(fail) + ",\"seed\":" + std::to_string(run_seed(base, prop, fail)) +
              ",\"events\":" + std::to_string(R.ev.size()) + ",\"events_before\":" + std::to_string(full) + "}";
        rc = 1;
    }
    // statistics
    Slot T{};
    for (unsigned k = 0; k < nw; k++) {
        Slot &s = S->slot[k];
        add_all(T.c, s.c);
        for (int t = 0; t < 32; t++) T.foreign_by[t] += s.foreign_by[t], T.syscall_faults[t] += s.syscall_faults[t];
        for (int t = 0; t < R_KINDS; t++) T.rng_kinds[t] += s.rng_kinds[t];
        for (int t = 0; t < 4; t++) T.cuts[t] += s.cuts[t];
        T.known_hits += s.known_hits;
        T.stack_max = std::max(T.stack_max, s.stack_max);
    }
    auto pop = [](const uint8_t *p, size_t n) {
        uint64_t x = 0;
        for (size_t i = 0; i < n; i++) x += (uint64_t) __builtin_popcount(p[i]);
        return x;
    };
    std::ostringstream j;
    j << "{\"exe\":\"" << EXE << "\",\"search_s\":" << search_s << ",\"wall_s\":" << now_s() - t0 << ",\"transitions\":" << pop(S->bitmap, sizeof S->bitmap) << ",\"distinct_runs\":" << pop(S->sigs, sizeof S->sigs)
      << ",\"known_hits\":" << T.known_hits << ",\"stack_max\":" << T.stack_max << ",\"violation\":" << vio << ",\"counters\":{";
    const char *names[] = {"runs", "events", "apdus", "buttons", "boots", "power_cuts", "io_errors", "crashes_mid_call", "faults", "rng_anomalies", "responses_ok", "responses_err", "busy", "denied", "prompts", "screens_checked", "screens_output", "screens_final", "approvals", "signatures", "frames", "keys", "sessions", "session_kills", "silent_outputs", "outputs_prompted", "frames_accepted", "frames_refused", "trusted", "malformed", "scans", "errs_policy", "errs_order", "errs_overflow", "errs_session", "fault_errors", "fault_survived", "sim_ms", "net_lost", "net_dup", "net_delayed", "net_reordered", "retries", "timeouts", "mutated", "epilogues", "interleaved", "foreign", "nontrivial", "injected_in_prompt", "huge", "probes", "longlife"};
    static_assert(sizeof(names) / sizeof(names[0]) == sizeof(Counters) / 8, "counter names");
    const uint64_t *cv = (const uint64_t *) &T.c;
    for (size_t i = 0; i < sizeof(Counters) / 8; i++) j << (i ? "," : "") << "\"" << names[i] << "\":" << cv[i];
    j << "},\"foreign_by\":{";
    bool fst = true;
    for (int t = 1; t < 21; t++)
        if (T.foreign_by[t]) {
            char n[24];
            snprintf(n, sizeof n, "%s\"C%02d\":", fst ? "" : ",", t);
            j << n << T.foreign_by[t];
            fst = false;
        }
    j << "},\"crashes\":{";
    fst = true;
    for (auto &c : crash_kinds) {
        j << (fst ? "" : ",") << json_str(c.first) << ":" << c.second;
        fst = false;
    }
    const char *sn[] = {"", "derive", "init_private", "init_public", "generate_pair", "scalar_mult", "add_point", "cmp", "addm", "subm", "multm", "modm", "add", "sub", "rng", "hash_init", "hash_update", "hash_final", "hash_oneshot"};
    j << "},\"syscall_faults\":{";
    fst = true;
    for (int t = 1; t < 19; t++)
        if (T.syscall_faults[t]) j << (fst ? "" : ",") << "\"" << sn[t] << "\":" << T.syscall_faults[t], fst = false;
    const char *rn[] = {"zero", "n", "above_n", "n_minus_1", "all_ff", "repeat_last_session", "one"};
    j << "},\"rng_kinds\":{";
    fst = true;
    for (int t = 0; t < R_KINDS; t++)
        if (T.rng_kinds[t]) j << (fst ? "" : ",") << "\"" << rn[t] << "\":" << T.rng_kinds[t], fst = false;
    j << "},\"cut_before_call\":" << T.cuts[0] << ",\"cut_after_call\":" << T.cuts[1] << ",\"sticky_calls\":" << T.cuts[2] << ",\"sticky_draws\":" << T.cuts[3] << "}\n";
    if (!get("stats").empty()) std::ofstream(get("stats")) << j.str();
    else printf("%s", j.str().c_str());
    return rc;
}
static int selftest();
// The same sources compiled so that local variables start with other contents lie beside the images.
static bool load_twins() {
    for (int v = 0; v < 2; v++) {
        std::string a = get(v ? "app1" : "app0");
        if (a.size() < 3) continue;
        a = a.substr(0, a.size() - 3) + "2.so";
        if (access(a.c_str(), R_OK) == 0 && !g_dev.load(v + 2, a)) return false;
    }
    return true;
}
int main(int argc, char **argv) {
    if (argc < 2) return 2;
    int pers = personality(0xffffffff);
    if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_ASLR_OFF")) {  // same addresses every time, should anything depend on them
        setenv("SIM_NO_ASLR_OFF", "1", 1);
        if (personality((unsigned long) pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::string mode = argv[1];
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        size_t q = a.find('=');
        if (q == std::string::npos) opt[a] = "1";
        else opt[a.substr(0, q)] = a.substr(q + 1);
    }
    ec_init();
    if (mode == "selftest") return selftest();
    char tmpl[] = "/tmp/ergosim.XXXXXX";
    scratch = mkdtemp(tmpl);
    g_shared_in_device = (volatile int *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int rc = 3;
    if (!g_dev.load(0, get("app0")) || (!get("app1").empty() && !g_dev.load(1, get("app1")))) {
        fprintf(stderr, "harness: cannot load the application\n");
    } else if (!load_twins()) {
        fprintf(stderr, "harness: cannot load the twins\n");
    } else if (mode == "check") {
        rc = check();
    } else if (mode == "one") {
        std::string pname = get("prop");
        int prop = atoi(pname.c_str() + 1);
        uint64_t base = strtoull(get("seed", "1").c_str(), 0, 10), i = (uint64_t) geti("run", 0);
        RunConfig cfg;
        std::vector<Event> ev;
        if (!opt.count("log")) g_own = 1u << prop;
        Result r = record(prop, get("tier") == "thorough", run_seed(base, prop, i), cfg, ev);
        std::string log;
        if (opt.count("-v")) in_child([&] { return play(cfg, ev, &log); });
        if (opt.count("sample")) {  // the run, one line per event
            size_t cut = (size_t) geti("sample", 40), n = 0;
            printf("run %llu: device %s, wallet %llu, page size %u, %zu events\n", (unsigned long long) i, cfg.variant ? "nanos" : "nanox", (unsigned long long) cfg.wallet, cfg.page_size, ev.size());
            for (auto &e : ev) {
                if (n++ == cut) break;
                std::string t = describe(e);
                if (t.size() > 120) t = t.substr(0, 80) + "..." + t.substr(t.size() - 35);
                printf("%s\n", t.c_str());
            }
        } else
        printf("%zu events; %s tags=%x %s\n", ev.size(), r.harness ? "HARNESS" : r.tags ? "DEVIATION" : "ok", r.tags, r.what.c_str());
        rc = r.tags != 0;
    } else if (mode == "replay") {
        Replay R;
        if (!load_replay(get("file"), R)) {
            fprintf(stderr, "bad replay file\n");
        } else {
            std::string log;
            g_own = 1u << atoi(R.prop.c_str() + 1);
            if (opt.count("-v")) in_child([&] { g_in_device = g_shared_in_device; return play(R.cfg, R.ev, &log); });
            Result r = try_events(R.cfg, R.ev, twin_prop(R.prop));
            uint32_t mask = 1u << atoi(R.prop.c_str() + 1);
            if (r.harness) {
                printf("harness error: %s\n", r.what.c_str());
            } else if (r.tags & mask) {
                bool exact = r.what == R.what && r.event == R.event;
                printf("REPRODUCED property=%s event=%u %s%s\n", R.prop.c_str(), r.event, r.what.c_str(), exact ? "" : " (differs from the recorded deviation)");
                rc = 1;
                if (opt.count("strict") && !exact) rc = 3;
            } else {
                printf("not reproduced%s%s\n", r.tags ? ": " : "", r.what.c_str());
                rc = 0;
            }
        }
    }
    rmdir(scratch.c_str());
    return rc;
}
// ------------------------------------------------------------------ known answers for the reference cryptography
static int selftest() {
    int bad = 0;
    auto ck = [&](const char *n, const std::string &a, const std::string &b) {
        if (a != b) {
            printf("selftest %s: %s != %s\n", n, a.c_str(), b.c_str());
            bad++;
        }
    };
    auto s = [](const char *t) { return Bytes(t, t + strlen(t)); };
    B32 h = blake2b256(s(""));
    ck("blake2b-256 empty", hex(h.data(), 32), "0e5751c026e543b2e8ab2eb06099daa1d1e5df47778f7787faab45cdf12fe3a8");
    h = blake2b256(s("abc"));
    ck("blake2b-256 abc", hex(h.data(), 32), "bddd813c634239723171ef3fee98579b94964e3bb1cb3e427262c8c068d52319");
    h = sha256((const uint8_t *) "abc", 3);
    ck("sha256 abc", hex(h.data(), 32), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    h = hmac_sha256((const uint8_t *) "Jefe", 4, (const uint8_t *) "what do ya want for nothing?", 28);
    ck("hmac-sha256", hex(h.data(), 32), "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843");
    auto pk = [&](const char *k) {
        Bytes b = unhex(k);
        B33 c = ec_compress(ec_mul_g(u256_from_be(b.data())));
        return hex(c.data(), 33);
    };
    ck("1G", pk("0000000000000000000000000000000000000000000000000000000000000001"), "0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798");
    ck("2G", pk("0000000000000000000000000000000000000000000000000000000000000002"), "02c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5");
    ck("(n-1)G", pk("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140"), "0379be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798");
    ck("kG", pk("aa5e28d6a97a2479a65527f7290311a3624d4cc0fa1578598ee3c2613bf99522"), "0234f9460f0e4f08393d192b3c5133a6ba099aa0ad9fd54ebccfacdfa239ff49c6");
    Rng r(5);
    for (int i = 0; i < 20; i++) {
        Bytes a = r.bytes(32), b = r.bytes(32);
        U256 x = sc_reduce(u256_from_be(a.data())), y = sc_reduce(u256_from_be(b.data()));
        B33 p = ec_compress(ec_add(ec_mul_g(x), ec_mul_g(y))), q = ec_compress(ec_mul_g(sc_add(x, y)));
        ck("xG+yG", hex(p.data(), 33), hex(q.data(), 33));
        p = ec_compress(ec_mul(ec_mul_g(x), y));
        q = ec_compress(ec_mul_g(sc_mul(x, y)));
        ck("y(xG)", hex(p.data(), 33), hex(q.data(), 33));
        Point d;
        p = ec_compress(ec_mul_g(x));
        if (!ec_decompress(p.data(), d) || hex(ec_compress(d).data(), 33) != hex(p.data(), 33)) bad++;
        U256 m = mod_mul_generic(x, y, SECP_N), m2 = sc_mul(x, y);
        if (u256_cmp(m, m2)) bad++, printf("selftest modmul\n");
        m = mod_add_generic(x, y, SECP_N);
        m2 = sc_add(x, y);
        if (u256_cmp(m, m2)) bad++, printf("selftest modadd\n");
    }
    ck("base58", base58(unhex("00010966776006953d5567439e5e39f86a0d273beed61967f6")), "16UwLL9Risc3QfPqBUvKofHmBQ7wMtjvM");
    // from the application's own unit tests
    Bytes k = unhex("038b9ff85ddd9f1e2288fc539d39c7c4eeb7a556f4d811cb73996418de5abdcb2a");
    B33 kk;
    std::copy(k.begin(), k.end(), kk.begin());
    ck("address", hex(address_bytes(0, kk)), "01038b9ff85ddd9f1e2288fc539d39c7c4eeb7a556f4d811cb73996418de5abdcb2ab52dcace");
    printf("selftest %s\n", bad ? "FAILED" : "ok");
    return bad != 0;
}
