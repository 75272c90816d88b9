#include "device.hpp"
#include "../sdk/include/sim_abi.h"
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <algorithm>
#ifdef SIM_ASAN
extern "C" {
void __sanitizer_start_switch_fiber(void **fake, const void *bottom, size_t size);
void __sanitizer_finish_switch_fiber(void *fake, const void **bottom, size_t *size);
void __asan_unpoison_memory_region(void const volatile *addr, size_t size);
}
#endif
#define NOSAN __attribute__((no_sanitize("address"), noinline))
Device g_dev;
static volatile int dummy_in_device;
volatile int *g_in_device = &dummy_in_device;

// ------------------------------------------------------------------ coroutine
extern "C" void sim_ctx_switch(void **save, void *load);
asm(R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_ctx_switch,.-sim_ctx_switch
)");
#ifdef SIM_ASAN
static const size_t STACK = 256 * 1024, GUARD = 64 * 1024;
#else
static const size_t STACK = 64 * 1024, GUARD = 64 * 1024;
#endif
static uint8_t *stack_base;  // lowest usable address
static uint8_t PATTERN = 0xC3;  // what unused stack holds; chosen per run
static void *sched_sp, *fiber_sp;
#ifdef SIM_ASAN
static void *sched_fake, *fiber_fake;
static const void *sched_bottom;
static size_t sched_size;
#endif
enum Req { REQ_NONE, REQ_WAIT, REQ_RESPONSE, REQ_EXIT, REQ_ASSERT, REQ_SYSCALL, REQ_CRASH, REQ_HANG };
static struct {
    Req req;
    uint8_t *apdu;
    size_t cap, *len;
    int wait_result;
    const uint8_t *data;
    size_t dlen;
    uint16_t sw;
    int code;
    const char *file;
    int line, call;
    void **args;
    const uint64_t *nums;
    uint32_t result;
} R;
static void to_scheduler() {
#ifdef SIM_ASAN
    __sanitizer_start_switch_fiber(&fiber_fake, sched_bottom, sched_size);
#endif
    sim_ctx_switch(&fiber_sp, sched_sp);
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(fiber_fake, nullptr, nullptr);
#endif
}
static void to_fiber() {
    *g_in_device = 1;
#ifdef SIM_ASAN
    __sanitizer_start_switch_fiber(&sched_fake, stack_base, STACK);
#endif
    sim_ctx_switch(&sched_sp, fiber_sp);
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(sched_fake, nullptr, nullptr);
#endif
    *g_in_device = 0;
}

// ------------------------------------------------------------------ images
struct Image {
    void *h = nullptr;
    void (*app_main)() = nullptr;
    uint8_t *ux = nullptr;
    struct Range {
        uint8_t *p;
        size_t n;
        Bytes pristine;
    };
    std::vector<Range> w;
};
static Image images[4];  // Nano X, Nano S, and the twin of each
static Image *img;
struct FindArg {
    const char *path;
    Image *im;
};
static int find_cb(struct dl_phdr_info *i, size_t, void *a) {
    FindArg *f = (FindArg *) a;
    if (!i->dlpi_name || strcmp(i->dlpi_name, f->path) != 0) return 0;
    uintptr_t rs = 0, re = 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
            rs = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            re = (rs + i->dlpi_phdr[k].p_memsz + 4095) & ~(uintptr_t) 4095;
            rs &= ~(uintptr_t) 4095;
        }
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto &p = i->dlpi_phdr[k];
        if (p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue;
        uintptr_t s = i->dlpi_addr + p.p_vaddr, e = s + p.p_memsz;
        if (re > s && rs <= s) s = std::min(std::max(s, re), e);
        if (e > s) f->im->w.push_back({(uint8_t *) s, (size_t) (e - s), {}});
    }
    return 1;
}
#ifdef SIM_ASAN
NOSAN static void raw_copy(uint8_t *d, const uint8_t *s, size_t n) {
    for (size_t i = 0; i < n; i++) {
        d[i] = s[i];
        asm volatile("" ::: "memory");
    }
}
#endif
NOSAN static void fast_copy(uint8_t *d, const uint8_t *s, size_t n) {
#ifdef SIM_ASAN
    raw_copy(d, s, n);
#else
    memcpy(d, s, n);
#endif
}
bool Device::load(int variant, const std::string &path) {
    Image &im = images[variant];
    im.h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!im.h) {
        fprintf(stderr, "dlopen: %s\n", dlerror());
        return false;
    }
    im.app_main = (void (*)()) dlsym(im.h, "app_main");
    im.ux = (uint8_t *) dlsym(im.h, "G_ux");
    FindArg f{path.c_str(), &im};
    dl_iterate_phdr(find_cb, &f);
    if (!im.app_main || !im.ux || im.w.empty()) {
        fprintf(stderr, "bad image %s\n", path.c_str());
        return false;
    }
    for (auto &r : im.w) {
        r.pristine.resize(r.n);
        fast_copy(r.pristine.data(), r.p, r.n);
    }
    if (!stack_base) {
        uint8_t *m = (uint8_t *) mmap(nullptr, STACK + 2 * GUARD, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) return false;
        mprotect(m, GUARD, PROT_NONE);
        mprotect(m + GUARD + STACK, GUARD, PROT_NONE);
        stack_base = m + GUARD;
    }
    img = &im;
    return true;
}
static bool repaint;
void Device::configure(const RunConfig &c) {
    cfg = c;
    if (images[c.variant].h) img = &images[c.variant];
    if (c.twin && images[c.variant + 2].h) img = &images[c.variant + 2];
    static const uint8_t garbage[8] = {0xC3, 0xFF, 0x01, 0x7F, 0x5A, 0x80, 0x02, 0xFE};
    uint8_t g = garbage[(mix(c.seed, 0x57AC) + (c.twin ? 3 : 0)) % 8];
    if (g != PATTERN) repaint = true;
    PATTERN = g;
    state = DEV_OFF;
    secrets.clear();
}
static void fiber_entry() {
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &sched_bottom, &sched_size);
#endif
    img->app_main();
    R.req = REQ_EXIT;
    R.code = 0;
    to_scheduler();
    abort();
}
// ------------------------------------------------------------------ wallet
const KeyPair &wallet_key(uint64_t wallet, const std::vector<uint32_t> &path) {
    static std::map<std::pair<uint64_t, std::vector<uint32_t>>, KeyPair> cache;
    auto k = std::make_pair(wallet, path);
    auto it = cache.find(k);
    if (it != cache.end()) return it->second;
    if (cache.size() > 20000) cache.clear();
    Bytes b;
    for (int i = 0; i < 8; i++) b.push_back((uint8_t) (wallet >> (8 * i)));
    for (uint32_t c : path)
        for (int i = 0; i < 4; i++) b.push_back((uint8_t) (c >> (8 * i)));
    KeyPair kp;
    B32 h = sha256(b.data(), b.size());
    U256 x = sc_reduce(u256_from_be(h.data()));
    if (u256_is_zero(x)) x.v[0] = 1;
    u256_to_be(x, kp.x.data());
    b.push_back('c');
    kp.chain = sha256(b.data(), b.size());
    Point p = ec_mul_g(x);
    kp.pk = ec_compress(p);
    kp.W[0] = 4;
    u256_to_be(p.x, kp.W + 1);
    u256_to_be(p.y, kp.W + 33);
    return cache[k] = kp;
}
// ------------------------------------------------------------------ system calls
static const Event *cur;
static uint8_t last_session_id;
static uint32_t rng_draw;
static const Fault *fault_here(int call) {
    uint32_t n = g_dev.fault_points++, k = g_dev.call_count[call & 31]++;
    for (auto &f : cur->faults)
        if (f.call ? (int) f.call == call && (f.at == k || (f.kind == F_STICKY && k > f.at)) : f.at == n || (f.kind == F_STICKY && n > f.at)) return &f;
    return nullptr;
}
static void garbage(uint8_t *p, size_t n, int salt) {
    Rng r(mix(g_dev.cfg.seed ^ 0x6a7b, cur->id, salt * 1000 + g_dev.fault_points));
    Bytes b = r.bytes(n);
    memcpy(p, b.data(), n);
}
struct PubKey {
    uint32_t curve;
    size_t len;
    uint8_t W[65];
};
struct PrivKey {
    uint32_t curve;
    size_t len;
    uint8_t d[32];
};
static bool is_key(const uint8_t *p) {
    for (auto &s : g_dev.secrets)
        if (s.kind == 0 && memcmp(s.v.data(), p, 32) == 0) return true;
    return false;
}
static void note_secret(const uint8_t *p, int kind) {
    B32 v;
    memcpy(v.data(), p, 32);
    for (auto &s : g_dev.secrets)
        if (s.kind == kind && s.v == v) {
            s.event = cur->id;
            return;
        }
    if (g_dev.secrets.size() >= 48) {  // the oldest nonce goes first: a failing session start draws a hundred of them
        auto it = g_dev.secrets.begin();
        while (it != g_dev.secrets.end() && it->kind != 2) ++it;
        g_dev.secrets.erase(it == g_dev.secrets.end() ? g_dev.secrets.begin() : it);
    }
    g_dev.secrets.push_back({v, kind, cur->id});
}
static const uint32_t INVALID = 0xFFFFFF88;
static uint32_t do_syscall(int call, void **a, const uint64_t *n, bool fail) {
    auto B = [&](int i) { return (uint8_t *) a[i]; };
    auto rd = [](const uint8_t *p, size_t len, uint8_t out[32]) {
        memset(out, 0, 32);
        memcpy(out + 32 - len, p, len);
        return u256_from_be(out);
    };
    uint8_t t[32];
    switch (call) {
        case SYS_DERIVE: {
            if (fail) {
                garbage(B(1), 64, 1);
                if (B(2)) garbage(B(2), 32, 2);
                return 1;
            }
            const uint32_t *p = (const uint32_t *) a[0];
            if (n[1] > 10 || n[0] != 0x21) return INVALID;
            const KeyPair &k = wallet_key(g_dev.cfg.wallet, std::vector<uint32_t>(p, p + n[1]));
            memcpy(B(1), k.x.data(), 32);
            if (B(2)) memcpy(B(2), k.chain.data(), 32);
            note_secret(k.x.data(), 0);
            g_dev.touched_secret = true;
            return 0;
        }
        case SYS_INIT_PRIV: {
            PrivKey *k = (PrivKey *) a[1];
            if (fail) {
                garbage((uint8_t *) k, sizeof(*k), 3);
                return 1;
            }
            if (n[1] != 32) return INVALID;
            k->curve = (uint32_t) n[0];
            k->len = 32;
            memcpy(k->d, a[0], 32);
            return 0;
        }
        case SYS_INIT_PUB: {
            PubKey *k = (PubKey *) a[1];
            if (fail) {
                garbage((uint8_t *) k, sizeof(*k), 4);
                return 1;
            }
            if (n[1] != 65 && n[1] != 0) return INVALID;
            memset(k, 0, sizeof(*k));
            k->curve = (uint32_t) n[0];
            k->len = n[1];
            if (n[1]) memcpy(k->W, a[0], 65);
            return 0;
        }
        case SYS_GENPAIR: {
            PubKey *k = (PubKey *) a[0];
            PrivKey *x = (PrivKey *) a[1];
            if (fail) {
                garbage(k->W, 65, 5);
                k->len = 65;
                return 1;
            }
            if (!n[1]) garbage(x->d, 32, 6);
            U256 d = sc_reduce(u256_from_be(x->d));
            if (u256_is_zero(d)) return INVALID;
            Point p;
            // public keys of wallet keys are cached
            p = ec_mul_g(d);
            k->curve = (uint32_t) n[0];
            k->len = 65;
            k->W[0] = 4;
            u256_to_be(p.x, k->W + 1);
            u256_to_be(p.y, k->W + 33);
            return 0;
        }
        case SYS_SCALAR_MULT: {
            if (fail) {
                garbage(B(0), 65, 7);
                return 1;
            }
            if (n[1] > 32) return INVALID;
            U256 k = sc_reduce(rd(B(1), n[1], t));
            memset(t, 0, 32);
            if (u256_is_zero(k)) return 0xFFFFFF41;
            Point p;
            if (ec_is_g(B(0) + 1))
                p = ec_mul_g(k);
            else {
                Point q{u256_from_be(B(0) + 1), u256_from_be(B(0) + 33), false};
                if (!ec_on_curve(q)) return 0xFFFFFFA2;
                p = ec_mul(q, k);
            }
            B(0)[0] = 4;
            u256_to_be(p.x, B(0) + 1);
            u256_to_be(p.y, B(0) + 33);
            return 0;
        }
        case SYS_ADD_POINT: {
            if (fail) {
                garbage(B(0), 65, 8);
                return 1;
            }
            Point p{u256_from_be(B(1) + 1), u256_from_be(B(1) + 33), false}, q{u256_from_be(B(2) + 1), u256_from_be(B(2) + 33), false};
            Point r = ec_add(p, q);
            if (r.inf) return 0xFFFFFF41;
            B(0)[0] = 4;
            u256_to_be(r.x, B(0) + 1);
            u256_to_be(r.y, B(0) + 33);
            return 0;
        }
        case SYS_CMP: {
            int *d = (int *) a[2];
            if (fail) {
                *d = (int) (mix(cur->id, g_dev.fault_points) % 3) - 1;
                return 1;
            }
            int c = memcmp(a[0], a[1], n[0]);
            *d = c < 0 ? -1 : c > 0;
            return 0;
        }
        case SYS_ADDM:
        case SYS_SUBM:
        case SYS_MULTM: {
            if (n[0] > 32) return INVALID;
            if (fail) {
                garbage(B(0), n[0], 9);
                return 1;
            }
            uint8_t ta[32], tb[32], tm[32];
            U256 x = rd(B(1), n[0], ta), y = rd(B(2), n[0], tb), m = rd(B(3), n[0], tm), r;
            bool isn = u256_cmp(m, SECP_N) == 0;
            bool key = n[0] == 32 && (is_key(B(1)) || is_key(B(2)));
            if (call == SYS_MULTM)
                r = isn ? sc_mul(x, y) : mod_mul_generic(x, y, m);
            else if (call == SYS_ADDM)
                r = isn ? sc_add(x, y) : mod_add_generic(x, y, m);
            else {
                U256 my = mod_generic(y.v, 4, m), neg;
                // m - y
                u256_to_be(my, tb);
                uint64_t br = 0;
                for (int i = 0; i < 4; i++) {
                    unsigned __int128 d = (unsigned __int128) m.v[i] - my.v[i] - br;
                    neg.v[i] = (uint64_t) d;
                    br = (uint64_t) (d >> 64) & 1;
                }
                r = mod_add_generic(mod_generic(x.v, 4, m), neg, m);
            }
            u256_to_be(r, ta);
            memcpy(B(0), ta + 32 - n[0], n[0]);
            if (key && call == SYS_MULTM) note_secret(ta, 1);
            if (key) g_dev.touched_secret = true;
            return 0;
        }
        case SYS_MODM: {
            if (n[0] > 64 || n[1] > 32) return INVALID;
            if (fail) {
                garbage(B(0), n[0], 10);
                return 1;
            }
            uint64_t limbs[8] = {0};
            for (size_t i = 0; i < n[0]; i++) limbs[i / 8] |= (uint64_t) B(0)[n[0] - 1 - i] << (8 * (i % 8));
            U256 r = mod_generic(limbs, 8, rd(B(1), n[1], t));
            uint8_t o[32];
            u256_to_be(r, o);
            memset(B(0), 0, n[0]);
            size_t k = n[0] < 32 ? n[0] : 32;
            memcpy(B(0) + n[0] - k, o + 32 - k, k);
            return 0;
        }
        case SYS_ADD:
        case SYS_SUB: {
            if (fail) {
                garbage(B(0), n[0], 11);
                return 1;
            }
            int c = 0;
            for (size_t i = n[0]; i-- > 0;) {
                int v = call == SYS_ADD ? B(1)[i] + B(2)[i] + c : B(1)[i] - B(2)[i] - c;
                B(0)[i] = (uint8_t) v;
                c = call == SYS_ADD ? v > 255 : v < 0;
            }
            return c ? 0xFFFFFF21 : 0;
        }
        case SYS_RNG: {
            uint8_t *p = B(0);
            size_t len = n[0];
            uint32_t d = rng_draw++;
            Rng r(mix(g_dev.cfg.seed, cur->id, d));
            Bytes b = r.bytes(len);
            bool plain = true;
            for (auto &o : cur->rng)
                if (o.kind == R_FLIP) {
                    size_t at = g_dev.rng_stream.size();
                    if (o.draw >= at && o.draw < at + len) b[o.draw - at] ^= 0x55;
                } else if (o.kind & R_STICKY ? o.draw <= d && len >= 16 : o.draw == d) {  // (a one-byte draw repeated for ever is a legitimate endless loop)
                    plain = false;
                    uint8_t nb[32];
                    u256_to_be(SECP_N, nb);
                    g_dev.rng_anomalies++;
                    g_dev.rng_hist[o.kind & ~R_STICKY]++;
                    if (o.kind & R_STICKY) g_dev.crash_hist[3]++;
                    switch (o.kind & ~R_STICKY) {
                        case R_ZERO: std::fill(b.begin(), b.end(), 0); break;
                        case R_ONE:
                            std::fill(b.begin(), b.end(), 0);
                            if (len) b[len - 1] = 1;
                            break;
                        case R_FF: std::fill(b.begin(), b.end(), 0xFF); break;
                        case R_LAST_SESSION: std::fill(b.begin(), b.end(), last_session_id); break;
                        default:
                            if (len == 32) {
                                memcpy(b.data(), nb, 32);
                                if ((o.kind & ~R_STICKY) == R_ABOVE_N) b[15 + d % 2] = 0xFF;
                                if ((o.kind & ~R_STICKY) == R_N_MINUS_1) b[31]--;
                            }
                    }
                }
            memcpy(p, b.data(), len);
            g_dev.rng_stream.insert(g_dev.rng_stream.end(), b.begin(), b.end());
            if (cur->kind == EV_BOOT) g_dev.boot_rng.insert(g_dev.boot_rng.end(), b.begin(), b.end());
            if (len == 32 && plain) note_secret(p, 2);
            return 0;
        }
    }
    return INVALID;
}
// ------------------------------------------------------------------ entry points called by the device
static unsigned calls_in_event;
static void budget() {
    if (++calls_in_event > 200000) {
        R.req = REQ_HANG;
        to_scheduler();
    }
}
extern "C" {
int sim_wait(uint8_t *apdu, size_t cap, size_t *len) {
    R.req = REQ_WAIT;
    R.apdu = apdu;
    R.cap = cap;
    R.len = len;
    to_scheduler();
    return R.wait_result;
}
void sim_response(const uint8_t *data, size_t len, uint16_t sw) {
    budget();
    R.req = REQ_RESPONSE;
    R.data = data;
    R.dlen = len;
    R.sw = sw;
    to_scheduler();
}
void sim_exit(int code) {
    R.req = REQ_EXIT;
    R.code = code;
    to_scheduler();
    abort();
}
void sim_assert_failed(const char *file, int line) {
    R.req = REQ_ASSERT;
    R.file = file;
    R.line = line;
    to_scheduler();
    abort();
}
uint32_t sim_fault_point(int call) {
    budget();
    const Fault *f = fault_here(call);
    if (!f) return 0;
    if (f->kind != F_FAIL && f->kind != F_STICKY) {
        R.req = REQ_CRASH;
        to_scheduler();
    }
    g_dev.faults_fired++;
    g_dev.fault_hist[call]++;
    if (f->kind == F_STICKY) g_dev.crash_hist[2]++;
    return f->code;
}
uint32_t sim_syscall(int call, void **args, const uint64_t *nums) {
    budget();
    R.req = REQ_SYSCALL;
    R.call = call;
    R.args = args;
    R.nums = nums;
    to_scheduler();
    return R.result;
}
uint8_t *sim_map_data(uint8_t *p, size_t len) {
#ifdef SIM_ASAN
    static uint8_t *last;
    free(last);
    last = (uint8_t *) malloc(len);
    memcpy(last, p, len);
    return last;
#else
    (void) len;
    return p;
#endif
}
unsigned sim_page_size(void) { return g_dev.cfg.page_size; }
}
// ------------------------------------------------------------------ running
static size_t low_water() {
    static uint8_t ref[4096];
    if (ref[0] != PATTERN || ref[4095] != PATTERN) memset(ref, PATTERN, sizeof ref);
    size_t i = 0;
    while (i < STACK && memcmp(stack_base + i, ref, sizeof ref) == 0) i += sizeof ref;
    while (i < STACK && stack_base[i] == PATTERN) i++;
    return i & ~(size_t) 7;
}
NOSAN static void fill_pattern(uint8_t *p, size_t n) {
#ifdef SIM_ASAN
    size_t skip = n > 98304 ? n - 98304 : 0;  // what a run can reach
    for (size_t i = skip; i < n; i++) {
        p[i] = PATTERN;
        asm volatile("" ::: "memory");
    }
#else
    memset(p, PATTERN, n);
#endif
}
static bool painted;
static size_t dead_from;  // lowest stack offset possibly not holding the pattern
static void power_on() {
    for (auto &r : img->w) fast_copy(r.p, r.pristine.data(), r.n);
#ifdef SIM_ASAN
    __asan_unpoison_memory_region(stack_base, STACK);
#endif
    if (!painted || repaint)
        fill_pattern(stack_base, STACK);
    else {
#ifdef SIM_ASAN
        fill_pattern(stack_base, STACK);
#else
        fill_pattern(stack_base + dead_from, STACK - dead_from);
#endif
    }
    painted = true;
    repaint = false;
    dead_from = STACK;
    uint64_t *sp = (uint64_t *) (stack_base + STACK);
    *--sp = 0;
    *--sp = 0;
    *--sp = 0;  // a return address: the ABI wants the stack 8 off a multiple of 16 on entry
    *--sp = (uint64_t) (uintptr_t) fiber_entry;
    for (int i = 0; i < 6; i++) *--sp = 0;
    fiber_sp = sp;
    g_dev.secrets.clear();
    g_dev.boot_rng.clear();
    g_dev.signatures.clear();
}
void Device::run(const Event &e, uint8_t last_session) {
    responses.clear();
    faults_fired = rng_anomalies = syscalls = fault_points = 0;
    calls_in_event = 0;
    memset(call_count, 0, sizeof call_count);
    rng_stream.clear();
    touched_secret = false;
    rng_draw = 0;
    cur = &e;
    last_session_id = last_session;
    if (e.kind == EV_BOOT) {
        power_on();
        to_fiber();
    } else {
        if (state != DEV_WAITING) return;
#ifndef SIM_ASAN
        // what the last event left on the dead part of the stack has been searched: overwrite it, so that nothing
        // can depend on it and the next search sees only what this event leaves
        {
            uint8_t *live = (uint8_t *) fiber_sp;
            if (stack_base + dead_from < live) memset(stack_base + dead_from, PATTERN, (size_t) (live - (stack_base + dead_from)));
        }
#endif
        switch (e.kind) {
            case EV_APDU: {
                size_t n = std::min(e.apdu.size(), R.cap);
                memcpy(R.apdu, e.apdu.data(), n);
                Rng r(mix(cfg.seed ^ 0x77, e.id, (uint64_t) cfg.twin));
                for (size_t i = n; i < R.cap; i++) R.apdu[i] = (uint8_t) r.next();
                *R.len = n;
                R.wait_result = SIM_EV_APDU;
                break;
            }
            case EV_LEFT: R.wait_result = SIM_EV_LEFT; break;
            case EV_RIGHT: R.wait_result = SIM_EV_RIGHT; break;
            case EV_BOTH: R.wait_result = SIM_EV_BOTH; break;
            default: R.wait_result = SIM_EV_IOERR;
        }
        to_fiber();
    }
    for (;;) {
        switch (R.req) {
            case REQ_WAIT:
                state = DEV_WAITING;
                goto out;
            case REQ_RESPONSE:
                responses.push_back({Bytes(R.data, R.data + R.dlen), R.sw});
                if (R.dlen == 56 && R.sw == 0x9000) {
                    if (signatures.size() >= 48) signatures.erase(signatures.begin());
                    signatures.push_back(responses.back().data);
                }
                if (responses.size() > 50) {
                    state = DEV_HUNG;
                    goto out;
                }
                break;
            case REQ_EXIT:
                state = DEV_EXITED;
                exit_code = R.code;
                goto out;
            case REQ_ASSERT:
                state = DEV_ASSERT;
                assert_where = std::string(R.file) + ":" + std::to_string(R.line);
                goto out;
            case REQ_CRASH:
                state = DEV_POWER_LOST;
                crash_hist[0]++;
                goto out;
            case REQ_HANG:
                state = DEV_HUNG;
                goto out;
            case REQ_SYSCALL: {
                syscalls++;
                const Fault *f = R.call == SYS_RNG ? nullptr : fault_here(R.call);
                if (f && f->kind == F_CRASH_BEFORE) {
                    state = DEV_POWER_LOST;
                    crash_hist[0]++;
                    goto out;
                }
                bool fail = f && (f->kind == F_FAIL || f->kind == F_STICKY);
                R.result = do_syscall(R.call, R.args, R.nums, fail);
                if (fail) {
                    R.result = f->code;
                    faults_fired++;
                    fault_hist[R.call]++;
                    if (f->kind == F_STICKY) crash_hist[2]++;
                }
                if (f && f->kind == F_CRASH_AFTER) {
                    state = DEV_POWER_LOST;
                    crash_hist[1]++;
                    goto out;
                }
                break;
            }
            default: state = DEV_HUNG; goto out;
        }
        to_fiber();
    }
out:;
#ifndef SIM_ASAN
    size_t lw = low_water();
    dead_from = lw;
    stack_used = std::max(stack_used, STACK - lw);
#endif
}
struct UxMirror {  // must match sdk/include/ux.h
    unsigned char stack_count;
    struct {
        const void *steps;
        unsigned short index, prev_index, length;
    } flow;
    int kind;
    const char *line[3];
    unsigned int page, pages;
};
NOSAN static std::string rd_str(const char *p) {
    std::string s;
    if (!p) return s;
    for (int i = 0; i < 300 && p[i]; i++) s += p[i];
    return s;
}
Display Device::display() const {
    Display d;
    const UxMirror *u = (const UxMirror *) img->ux;
    d.kind = u->kind;
    d.a = rd_str(u->line[0]);
    d.b = rd_str(u->line[1]);
    d.c = rd_str(u->line[2]);
    d.page = u->page;
    d.pages = u->pages;
    return d;
}
uint64_t Device::state_digest() {
    uint64_t h = 1469598103934665603ULL;
#ifndef SIM_ASAN
    for (auto &r : img->w)
        for (size_t i = 0; i < r.n; i++) h = (h ^ r.p[i]) * 1099511628211ULL;
#endif
    return h;
}
static bool low_entropy(const uint8_t *p) {
    uint64_t seen[4] = {0, 0, 0, 0};
    for (int i = 0; i < 16; i++) seen[p[i] >> 6] |= 1ULL << (p[i] & 63);
    int n = 0;
    for (uint64_t x : seen) n += __builtin_popcountll(x);
    return n < 8;
}
std::string Device::scan(const std::set<B32> &live) {
#ifdef SIM_ASAN
    (void) live;
    return "";
#else
    std::string found;
    static const char *names[] = {"private key", "product of a private key", "signing nonce"};
    uint8_t *lo = stack_base + std::min(dead_from, (size_t) STACK);
    for (auto &s : secrets) {
        for (int off = 0; off <= 16 && found.empty(); off += 8) {
            const uint8_t *w = s.v.data() + off;
            if (low_entropy(w)) continue;
            if (s.kind == 2 && live.count(s.v)) continue;
            // a degenerate nonce (n-1, 1) makes z share digits with c*x: what the host was told is no secret
            bool told = false;
            for (auto &t : signatures) told |= memmem(t.data(), t.size(), w, 16) != nullptr;
            if (told) continue;
            for (auto &r : img->w)
                if (memmem(r.p, r.n, w, 16)) found = std::string(names[s.kind]) + " left in static memory";
            if (memmem(lo, stack_base + STACK - lo, w, 16)) found = std::string(names[s.kind]) + " left on the stack";
        }
    }
    return found;
#endif
}
bool Device::garbage(const uint8_t *p, size_t n) const {
    for (size_t i = 0; i < n; i++)
        if (p[i] != PATTERN) return false;
    return true;
}
std::string Device::leaked(const Bytes &data, const std::string &text, bool products) const {
    static const char *names[] = {"private key", "product of a private key", "signing nonce"};
    auto flat = [](const uint8_t *p) {
        int diff = 0;
        for (int i = 1; i < 8; i++) diff += p[i] != p[0];
        return diff < 4;
    };
    auto has = [&](const uint8_t *p, size_t n) {
        for (size_t o = 0; o + 8 <= n; o += 4) {
            if (flat(p + o)) continue;
            if (data.size() >= 8 && memmem(data.data(), data.size(), p + o, 8)) return true;
            if (text.size() >= 14) {
                std::string h = hex(p + o, 7);
                if (text.find(h) != std::string::npos) return true;
            }
        }
        return false;
    };
    std::string low;
    for (auto &s : secrets) {
        if (s.kind == 1 && !products) continue;
        if (has(s.v.data(), 32)) return names[s.kind];
    }
    if (has(boot_rng.data(), boot_rng.size())) return "key that authenticates frames";
    return "";
}
