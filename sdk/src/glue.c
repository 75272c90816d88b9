/* Simulated Ledger OS: I/O, UX flow engine and crypto library as the application sees them. */
#include "os.h"
#include "io.h"
#include "parser.h"
#include "format.h"
#include "ux.h"
#include "glyphs.h"
#include "sim_abi.h"
#include "blake2b_core.h"

uint8_t G_io_apdu_buffer[IO_APDU_BUFFER_SIZE];
ux_state_t G_ux;

const bagl_icon_details_t C_app_logo, C_icon_certificate, C_icon_dashboard_x, C_icon_back, C_icon_back_x,
    C_icon_dashboard, C_icon_eye, C_icon_processing, C_icon_warning, C_icon_validate_14, C_icon_crossmark,
    C_icon_coggle, C_icon_up, C_icon_down, C_icon_left, C_icon_right, C_app_logo_16px;

/* ------------------------------------------------------------------ I/O */
static void ux_button(int ev);

void io_init(void) {
}

int io_recv_command(void) {
    for (;;) {
        size_t len = 0;
        int ev = sim_wait(G_io_apdu_buffer, sizeof(G_io_apdu_buffer), &len);
        if (ev == SIM_EV_APDU) return (int) len;
        if (ev == SIM_EV_IOERR) return -1;
        ux_button(ev);
    }
}

bool apdu_parser(command_t *cmd, uint8_t *buf, size_t buf_len) {
    if (buf_len < 5 || buf_len - 5 != buf[4]) return false;
    cmd->cla = buf[0];
    cmd->ins = buf[1];
    cmd->p1 = buf[2];
    cmd->p2 = buf[3];
    cmd->lc = buf[4];
    cmd->data = buf[4] > 0 ? sim_map_data(buf + 5, buf[4]) : NULL;
    return true;
}

int io_send_response_pointer(const uint8_t *ptr, size_t size, uint16_t sw) {
    if (size > IO_APDU_BUFFER_SIZE - 2) {
        sim_response(NULL, 0, 0xB001);
        return 0;
    }
    if (ptr != NULL && size > 0) memmove(G_io_apdu_buffer, ptr, size);
    G_io_apdu_buffer[size] = (uint8_t) (sw >> 8);
    G_io_apdu_buffer[size + 1] = (uint8_t) sw;
    sim_response(G_io_apdu_buffer, size, sw);
    return 0;
}
int io_send_response_buffer(const buffer_t *rdata, uint16_t sw) {
    if (rdata == NULL) return io_send_response_pointer(NULL, 0, sw);
    return io_send_response_pointer(rdata->ptr + rdata->offset, rdata->size - rdata->offset, sw);
}
int io_send_response_buffers(const buffer_t *rdatalist, size_t count, uint16_t sw) {
    uint8_t tmp[IO_APDU_BUFFER_SIZE];
    size_t n = 0;
    for (size_t i = 0; i < count; i++) {
        size_t l = rdatalist[i].size - rdatalist[i].offset;
        if (n + l > sizeof(tmp) - 2) {
            sim_response(NULL, 0, 0xB001);
            return 0;
        }
        memcpy(tmp + n, rdatalist[i].ptr + rdatalist[i].offset, l);
        n += l;
    }
    return io_send_response_pointer(tmp, n, sw);
}
int io_send_sw(uint16_t sw) {
    return io_send_response_pointer(NULL, 0, sw);
}

void os_sched_exit(bolos_task_status_t exit_code) {
    sim_exit(exit_code);
}
void os_lib_end(void) {
    sim_exit(0);
}
void os_boot(void) {
}
int os_secure_memcmp(const void *a, const void *b, size_t n) {
    const uint8_t *x = a, *y = b;
    uint8_t d = 0;
    while (n--) d |= *x++ ^ *y++;
    return d;
}

/* ------------------------------------------------------------------ UX */
static ux_flow_state_t *top(void) {
    if (G_ux.stack_count == 0 || G_ux.stack_count > UX_STACK_SLOT_COUNT) return NULL;
    return &G_ux.flow_stack[G_ux.stack_count - 1];
}
static void init_step(ux_flow_state_t *f) {
    if (f->index >= f->length || f->steps[f->index] == FLOW_LOOP || f->steps[f->index] == FLOW_BARRIER) return;
    f->steps[f->index]->init(G_ux.stack_count - 1);
}
unsigned int ux_stack_push(void) {
    if (G_ux.stack_count < UX_STACK_SLOT_COUNT) {
        memset(&G_ux.flow_stack[G_ux.stack_count], 0, sizeof(ux_flow_state_t));
        G_ux.stack_count++;
    }
    return G_ux.stack_count - 1;
}
unsigned int ux_stack_pop(void) {
    if (G_ux.stack_count > 0) G_ux.stack_count--;
    return G_ux.stack_count;
}
void ux_flow_init(unsigned int slot, const ux_flow_step_t *const *steps, const ux_flow_step_t *const start) {
    if (slot >= UX_STACK_SLOT_COUNT) return;
    ux_flow_state_t *f = &G_ux.flow_stack[slot];
    f->steps = steps;
    f->length = f->index = f->prev_index = 0;
    if (steps == NULL) return;
    while (steps[f->length] != FLOW_END_STEP) f->length++;
    if (start != NULL) {
        for (unsigned short i = 0; i < f->length; i++)
            if (steps[i] == start) f->index = f->prev_index = i;
    }
    init_step(f);
}
void ux_flow_next(void) {
    ux_flow_state_t *f = top();
    if (f == NULL || f->steps == NULL || f->length == 0) return;
    if (f->index + 1 >= f->length) return;
    if (f->steps[f->index + 1] == FLOW_BARRIER) return;
    if (f->steps[f->index + 1] == FLOW_LOOP) {
        f->index = f->prev_index = 0;
        init_step(f);
        return;
    }
    f->prev_index = f->index;
    f->index++;
    init_step(f);
}
void ux_flow_prev(void) {
    ux_flow_state_t *f = top();
    if (f == NULL || f->steps == NULL || f->length == 0) return;
    if (f->index == 0) {
        if (f->length >= 2 && f->steps[f->length - 1] == FLOW_LOOP) {
            f->index = f->length - 2;
            f->prev_index = f->length - 1;
            init_step(f);
        }
        return;
    }
    if (f->steps[f->index - 1] == FLOW_BARRIER) return;
    f->prev_index = f->index;
    f->index--;
    init_step(f);
}
void ux_flow_relayout(void) {
    ux_flow_state_t *f = top();
    if (f != NULL && f->steps != NULL) init_step(f);
}
void ux_flow_validate(void) {
    ux_flow_state_t *f = top();
    if (f == NULL || f->steps == NULL || f->index >= f->length) return;
    const ux_flow_step_t *s = f->steps[f->index];
    if (s == FLOW_LOOP || s == FLOW_BARRIER || s->validate_flow == NULL) return;
    s->validate_flow[0]->init(G_ux.stack_count - 1);
}
void ux_flow_error(unsigned int error) {
    UNUSED(error);
    ux_flow_state_t *f = top();
    if (f == NULL || f->steps == NULL || f->index >= f->length) return;
    const ux_flow_step_t *s = f->steps[f->index];
    if (s == FLOW_LOOP || s == FLOW_BARRIER || s->error_flow == NULL) return;
    s->error_flow[0]->init(G_ux.stack_count - 1);
}
unsigned int ux_flow_direction(void) {
    ux_flow_state_t *f = top();
    if (f == NULL) return FLOW_DIRECTION_START;
    /* prev_index may have been set to index-2 by the paging workaround: 16-bit wrap counts as "before" */
    short d = (short) (f->index - f->prev_index);
    return d > 0 ? FLOW_DIRECTION_FORWARD : d < 0 ? FLOW_DIRECTION_BACKWARD : FLOW_DIRECTION_START;
}
static const void *step_params(void) {
    ux_flow_state_t *f = top();
    return f == NULL ? NULL : f->steps[f->index]->params;
}
static void show_lines(const char *a, const char *b, const char *c) {
    G_ux.kind = 1;
    G_ux.line[0] = a;
    G_ux.line[1] = b;
    G_ux.line[2] = c;
    G_ux.page = 0;
    G_ux.pages = 1;
}
static void show_paging(const char *title, const char *text) {
    unsigned ps = sim_page_size();
    size_t n = strlen(text);
    G_ux.kind = 2;
    G_ux.line[0] = title;
    G_ux.line[1] = text;
    G_ux.line[2] = NULL;
    G_ux.pages = n == 0 ? 1 : (unsigned) ((n + ps - 1) / ps);
    G_ux.page = ux_flow_direction() == FLOW_DIRECTION_BACKWARD ? G_ux.pages - 1 : 0;
}
#define LAYOUT2I(k)                                        \
    void ux_layout_##k##_init(unsigned int s) {            \
        UNUSED(s);                                         \
        const ux_layout_##k##_params_t *p = step_params(); \
        show_lines(p->line1, p->line2, NULL);              \
    }
#define LAYOUT1I(k)                                        \
    void ux_layout_##k##_init(unsigned int s) {            \
        UNUSED(s);                                         \
        const ux_layout_##k##_params_t *p = step_params(); \
        show_lines(p->line1, NULL, NULL);                  \
    }
LAYOUT2I(pnn)
LAYOUT2I(pbb)
LAYOUT2I(bn)
LAYOUT2I(nn)
LAYOUT2I(bb)
LAYOUT1I(pn)
LAYOUT1I(pb)
void ux_layout_bnn_init(unsigned int s) {
    UNUSED(s);
    const ux_layout_bnn_params_t *p = step_params();
    show_lines(p->line1, p->line2, p->line3);
}
void ux_layout_bnnn_paging_init(unsigned int s) {
    UNUSED(s);
    const ux_layout_bnnn_paging_params_t *p = step_params();
    show_paging(p->title, p->text);
}
void ux_layout_paging_init(unsigned int s) {
    ux_layout_bnnn_paging_init(s);
}
static void ux_button(int ev) {
    if (ev == SIM_EV_BOTH) {
        ux_flow_validate();
    } else if (ev == SIM_EV_RIGHT) {
        if (G_ux.kind == 2 && G_ux.page + 1 < G_ux.pages)
            G_ux.page++;
        else
            ux_flow_next();
    } else if (ev == SIM_EV_LEFT) {
        if (G_ux.kind == 2 && G_ux.page > 0)
            G_ux.page--;
        else
            ux_flow_prev();
    }
}

/* ------------------------------------------------------------------ formatting (as in the SDK) */
bool format_u64(char *out, size_t outLen, uint64_t in) {
    uint8_t i = 0;
    if (outLen == 0) return false;
    outLen--;
    while (in > 9) {
        out[i] = in % 10 + '0';
        in /= 10;
        i++;
        if (i + 1u > outLen) return false;
    }
    out[i] = (char) in + '0';
    out[i + 1] = '\0';
    uint8_t j = 0;
    char tmp;
    while (j < i) {
        tmp = out[j];
        out[j] = out[i];
        out[i] = tmp;
        i--;
        j++;
    }
    return true;
}
bool format_i64(char *dst, size_t dst_len, const int64_t value) {
    if (value < 0) {
        if (dst_len < 2) return false;
        dst[0] = '-';
        return format_u64(dst + 1, dst_len - 1, 0 - (uint64_t) value);
    }
    return format_u64(dst, dst_len, (uint64_t) value);
}
bool format_fpu64(char *dst, size_t dst_len, const uint64_t value, uint8_t decimals) {
    char buffer[21] = {0};
    if (!format_u64(buffer, sizeof(buffer), value)) return false;
    size_t digits = strlen(buffer);
    if (digits <= decimals) {
        if (dst_len <= 2u + decimals - digits) return false;
        *dst++ = '0';
        *dst++ = '.';
        for (uint16_t i = 0; i < decimals - digits; i++, dst++) *dst = '0';
        dst_len -= 2 + decimals - digits;
        return strlcpy(dst, buffer, dst_len) < dst_len;
    }
    if (dst_len <= digits + 1u) return false;
    const size_t shift = digits - decimals;
    memmove(dst, buffer, shift);
    dst[shift] = '.';
    return strlcpy(dst + shift + 1, buffer + shift, dst_len - shift - 1) < dst_len - shift - 1;
}
bool format_fpu64_trimmed(char *dst, size_t dst_len, const uint64_t value, uint8_t decimals) {
    if (!format_fpu64(dst, dst_len, value, decimals)) return false;
    size_t n = strlen(dst);
    while (n > 0 && dst[n - 1] == '0') dst[--n] = 0;
    if (n > 0 && dst[n - 1] == '.') dst[n - 1] = 0;
    return true;
}
int format_hex(const uint8_t *in, size_t in_len, char *out, size_t out_len) {
    static const char hex[] = "0123456789ABCDEF";
    if (out_len < 2 * in_len + 1) return -1;
    size_t i;
    for (i = 0; i < in_len; i++) {
        out[i * 2] = hex[in[i] >> 4];
        out[i * 2 + 1] = hex[in[i] & 15];
    }
    out[2 * i] = 0;
    return (int) (2 * i + 1);
}

/* ------------------------------------------------------------------ crypto */
#define SYS(call, a, n) sim_syscall(call, a, n)
cx_err_t os_derive_bip32_no_throw(cx_curve_t curve, const uint32_t *path, size_t path_len, uint8_t raw_privkey[64], uint8_t *chain_code) {
    void *a[] = {(void *) path, raw_privkey, chain_code};
    uint64_t n[] = {(uint64_t) curve, path_len};
    return SYS(SYS_DERIVE, a, n);
}
cx_err_t cx_ecfp_init_private_key_no_throw(cx_curve_t curve, const uint8_t *rawkey, size_t key_len, cx_ecfp_256_private_key_t *pvkey) {
    void *a[] = {(void *) rawkey, pvkey};
    uint64_t n[] = {(uint64_t) curve, key_len};
    return SYS(SYS_INIT_PRIV, a, n);
}
cx_err_t cx_ecfp_init_public_key_no_throw(cx_curve_t curve, const uint8_t *rawkey, size_t key_len, cx_ecfp_256_public_key_t *key) {
    void *a[] = {(void *) rawkey, key};
    uint64_t n[] = {(uint64_t) curve, key_len};
    return SYS(SYS_INIT_PUB, a, n);
}
cx_err_t cx_ecfp_generate_pair_no_throw(cx_curve_t curve, cx_ecfp_256_public_key_t *pubkey, cx_ecfp_256_private_key_t *privkey, bool keepprivate) {
    void *a[] = {pubkey, privkey};
    uint64_t n[] = {(uint64_t) curve, keepprivate};
    return SYS(SYS_GENPAIR, a, n);
}
cx_err_t cx_ecfp_scalar_mult_no_throw(cx_curve_t curve, uint8_t *P, const uint8_t *k, size_t k_len) {
    void *a[] = {P, (void *) k};
    uint64_t n[] = {(uint64_t) curve, k_len};
    return SYS(SYS_SCALAR_MULT, a, n);
}
cx_err_t cx_ecfp_add_point_no_throw(cx_curve_t curve, uint8_t *R, const uint8_t *P, const uint8_t *Q) {
    void *a[] = {R, (void *) P, (void *) Q};
    uint64_t n[] = {(uint64_t) curve};
    return SYS(SYS_ADD_POINT, a, n);
}
bool cx_math_is_zero(const uint8_t *a, size_t len) {
    uint8_t d = 0;
    for (size_t i = 0; i < len; i++) d |= a[i];
    return d == 0;
}
cx_err_t cx_math_cmp_no_throw(const uint8_t *a, const uint8_t *b, size_t length, int *diff) {
    void *x[] = {(void *) a, (void *) b, diff};
    uint64_t n[] = {length};
    return SYS(SYS_CMP, x, n);
}
#define MATH3M(name, id)                                                                                        \
    cx_err_t name(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len) {               \
        void *x[] = {r, (void *) a, (void *) b, (void *) m};                                                    \
        uint64_t n[] = {len};                                                                                   \
        return SYS(id, x, n);                                                                                   \
    }
MATH3M(cx_math_addm_no_throw, SYS_ADDM)
MATH3M(cx_math_subm_no_throw, SYS_SUBM)
MATH3M(cx_math_multm_no_throw, SYS_MULTM)
cx_err_t cx_math_modm_no_throw(uint8_t *v, size_t len_v, const uint8_t *m, size_t len_m) {
    void *x[] = {v, (void *) m};
    uint64_t n[] = {len_v, len_m};
    return SYS(SYS_MODM, x, n);
}
cx_err_t cx_math_add_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, size_t len) {
    void *x[] = {r, (void *) a, (void *) b};
    uint64_t n[] = {len};
    return SYS(SYS_ADD, x, n);
}
cx_err_t cx_math_sub_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, size_t len) {
    void *x[] = {r, (void *) a, (void *) b};
    uint64_t n[] = {len};
    return SYS(SYS_SUB, x, n);
}
void cx_rng_no_throw(uint8_t *buffer, size_t len) {
    void *x[] = {buffer};
    uint64_t n[] = {len};
    (void) SYS(SYS_RNG, x, n);
}
uint8_t *cx_rng(uint8_t *buffer, size_t len) {
    cx_rng_no_throw(buffer, len);
    return buffer;
}
uint8_t cx_rng_u8(void) {
    uint8_t b;
    cx_rng_no_throw(&b, 1);
    return b;
}
uint32_t cx_rng_u32(void) {
    uint32_t b;
    cx_rng_no_throw((uint8_t *) &b, 4);
    return b;
}
uint32_t cx_rng_u32_range(uint32_t a, uint32_t b) {
    return a + cx_rng_u32() % (b - a);
}

static const cx_hash_info_t blake_info = {CX_BLAKE2B, 32, 128};
static const cx_hash_info_t sha_info = {CX_SHA256, 32, 64};

static cx_err_t blake_init(cx_blake2b_t *c, size_t bits) {
    if (bits % 8 != 0 || bits < 8 || bits > 512) return CX_INVALID_PARAMETER;
    memset(c, 0, sizeof(*c));
    c->header.info = &blake_info;
    c->output_size = bits / 8;
    b2_init(c->h, c->output_size);
    return CX_OK;
}
static void poison(void *p, size_t n, uint8_t v) {
    memset(p, v, n);
}
cx_err_t cx_blake2b_init_no_throw(cx_blake2b_t *hash, size_t out_len_bits) {
    uint32_t f = sim_fault_point(SYS_HASH_INIT);
    if (f) {
        poison(hash, sizeof(*hash), 0x5C);
        return f;
    }
    return blake_init(hash, out_len_bits);
}
/* ---- SHA-256 */
static const uint32_t K256[64] = {
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01,
    0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc,
    0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147,
    0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08,
    0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208,
    0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
#define ROR(x, n) (((x) >> (n)) | ((x) << (32 - (n))))
static void sha_block(uint32_t s[8], const uint8_t *p) {
    uint32_t w[64];
    for (int i = 0; i < 16; i++) w[i] = ((uint32_t) p[4 * i] << 24) | (p[4 * i + 1] << 16) | (p[4 * i + 2] << 8) | p[4 * i + 3];
    for (int i = 16; i < 64; i++)
        w[i] = (ROR(w[i - 2], 17) ^ ROR(w[i - 2], 19) ^ (w[i - 2] >> 10)) + w[i - 7] +
               (ROR(w[i - 15], 7) ^ ROR(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 16];
    uint32_t a = s[0], b = s[1], c = s[2], d = s[3], e = s[4], f = s[5], g = s[6], h = s[7];
    for (int i = 0; i < 64; i++) {
        uint32_t t1 = h + (ROR(e, 6) ^ ROR(e, 11) ^ ROR(e, 25)) + ((e & f) ^ (~e & g)) + K256[i] + w[i];
        uint32_t t2 = (ROR(a, 2) ^ ROR(a, 13) ^ ROR(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
        h = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
    }
    s[0] += a; s[1] += b; s[2] += c; s[3] += d; s[4] += e; s[5] += f; s[6] += g; s[7] += h;
}
static const uint32_t SHA_IV[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
static void sha_init(cx_sha256_t *c) {
    memset(c, 0, sizeof(*c));
    c->header.info = &sha_info;
    memcpy(c->acc, SHA_IV, 32);
}
static void sha_update(cx_sha256_t *c, const uint8_t *in, size_t len) {
    c->total += len;
    while (len > 0) {
        size_t n = 64 - c->blen;
        if (n > len) n = len;
        memcpy(c->block + c->blen, in, n);
        c->blen += n;
        in += n;
        len -= n;
        if (c->blen == 64) {
            sha_block((uint32_t *) (void *) c->acc, c->block);
            c->blen = 0;
        }
    }
}
static void sha_final(cx_sha256_t *c, uint8_t out[32]) {
    uint64_t bits = c->total * 8;
    uint8_t pad = 0x80, z = 0, l[8];
    sha_update(c, &pad, 1);
    while (c->blen != 56) sha_update(c, &z, 1);
    for (int i = 0; i < 8; i++) l[i] = (uint8_t) (bits >> (56 - 8 * i));
    sha_update(c, l, 8);
    uint32_t s[8];
    memcpy(s, c->acc, 32);
    for (int i = 0; i < 8; i++)
        for (int j = 0; j < 4; j++) out[4 * i + j] = (uint8_t) (s[i] >> (24 - 8 * j));
}
cx_err_t cx_sha256_init_no_throw(cx_sha256_t *hash) {
    uint32_t f = sim_fault_point(SYS_HASH_INIT);
    if (f) {
        poison(hash, sizeof(*hash), 0x5C);
        return f;
    }
    sha_init(hash);
    return CX_OK;
}
cx_err_t cx_hash_no_throw(cx_hash_t *hash, uint32_t mode, const uint8_t *in, size_t len, uint8_t *out, size_t out_len) {
    uint32_t f = sim_fault_point((mode & CX_LAST) ? SYS_HASH_FINAL : SYS_HASH_UPDATE);
    if (f) {
        if ((mode & CX_LAST) && out != NULL && out_len <= 64) poison(out, out_len, 0xA7);
        return f;
    }
    if (hash->info == &blake_info) {
        cx_blake2b_t *c = (cx_blake2b_t *) hash;
        if (len > 0) b2_update(c->h, c->t, c->buf, &c->buflen, in, len);
        if (mode & CX_LAST) {
            if (out_len < c->output_size) return CX_INVALID_PARAMETER;
            b2_final(c->h, c->t, c->buf, c->buflen, out, c->output_size);
            if (!(mode & CX_NO_REINIT)) blake_init(c, c->output_size * 8);
        }
        return CX_OK;
    }
    if (hash->info == &sha_info) {
        cx_sha256_t *c = (cx_sha256_t *) hash;
        if (len > 0) sha_update(c, in, len);
        if (mode & CX_LAST) {
            if (out_len < 32) return CX_INVALID_PARAMETER;
            sha_final(c, out);
            if (!(mode & CX_NO_REINIT)) sha_init(c);
        }
        return CX_OK;
    }
    return CX_INVALID_PARAMETER;
}
cx_err_t cx_hash_update(cx_hash_t *hash, const uint8_t *in, size_t len) {
    return cx_hash_no_throw(hash, 0, in, len, NULL, 0);
}
cx_err_t cx_hash_final(cx_hash_t *hash, uint8_t *out) {
    return cx_hash_no_throw(hash, CX_LAST, NULL, 0, out, hash->info == &blake_info ? ((cx_blake2b_t *) hash)->output_size : 32);
}
cx_err_t cx_blake2b_256_hash(const uint8_t *data, size_t len, uint8_t out[CX_BLAKE2B_256_SIZE]) {
    uint32_t f = sim_fault_point(SYS_HASH_ONESHOT);
    if (f) {
        poison(out, 32, 0xA7);
        return f;
    }
    cx_blake2b_t c;
    blake_init(&c, 256);
    b2_update(c.h, c.t, c.buf, &c.buflen, data, len);
    b2_final(c.h, c.t, c.buf, c.buflen, out, 32);
    return CX_OK;
}
size_t cx_hash_sha256(const uint8_t *in, size_t len, uint8_t *out, size_t out_len) {
    cx_sha256_t c;
    if (out_len < 32) return 0;
    sha_init(&c);
    sha_update(&c, in, len);
    sha_final(&c, out);
    return 32;
}
size_t cx_hmac_sha256(const uint8_t *key, size_t key_len, const uint8_t *in, size_t len, uint8_t *mac, size_t mac_len) {
    uint8_t k[64] = {0}, pad[64], d[32];
    cx_sha256_t c;
    if (key_len > 64)
        cx_hash_sha256(key, key_len, k, 64);
    else
        memcpy(k, key, key_len);
    for (int i = 0; i < 64; i++) pad[i] = k[i] ^ 0x36;
    sha_init(&c);
    sha_update(&c, pad, 64);
    sha_update(&c, in, len);
    sha_final(&c, d);
    for (int i = 0; i < 64; i++) pad[i] = k[i] ^ 0x5c;
    sha_init(&c);
    sha_update(&c, pad, 64);
    sha_update(&c, d, 32);
    sha_final(&c, d);
    if (mac_len > 32) mac_len = 32;
    memcpy(mac, d, mac_len);
    return mac_len;
}
/* Deterministic nonce: a PRF of key and message is all the simulation needs. */
cx_err_t cx_rng_rfc6979(cx_md_t hash_id, const uint8_t *x, size_t x_len, const uint8_t *h1, size_t h1_len, const uint8_t *q, size_t q_len, uint8_t *out, size_t out_len) {
    UNUSED(hash_id);
    UNUSED(q);
    UNUSED(q_len);
    uint32_t f = sim_fault_point(SYS_HASH_ONESHOT);
    if (f) return f;
    if (out_len > 32) return CX_INVALID_PARAMETER;
    uint8_t buf[32];
    cx_sha256_t c;
    sha_init(&c);
    sha_update(&c, x, x_len);
    sha_update(&c, h1, h1_len);
    sha_final(&c, buf);
    buf[0] &= 0x7F;
    memcpy(out, buf, out_len);
    explicit_bzero(&c, sizeof(c));
    explicit_bzero(buf, sizeof(buf));
    return CX_OK;
}

/* ------------------------------------------------------------------ further library calls */
cx_err_t cx_hmac_sha256_init_no_throw(cx_hmac_sha256_t *h, const uint8_t *key, size_t key_len) {
    uint32_t f = sim_fault_point(SYS_HASH_INIT);
    uint8_t pad[64];
    if (f) return f;
    memset(h, 0, sizeof(*h));
    if (key_len > 64)
        cx_hash_sha256(key, key_len, h->key, 64);
    else
        memcpy(h->key, key, key_len);
    for (int i = 0; i < 64; i++) pad[i] = h->key[i] ^ 0x36;
    sha_init(&h->hash);
    sha_update(&h->hash, pad, 64);
    return CX_OK;
}
cx_err_t cx_hmac_no_throw(cx_hmac_t *h, uint32_t mode, const uint8_t *in, size_t len, uint8_t *mac, size_t mac_len) {
    uint32_t f = sim_fault_point((mode & CX_LAST) ? SYS_HASH_FINAL : SYS_HASH_UPDATE);
    uint8_t d[32], pad[64];
    if (f) return f;
    if (len > 0) sha_update(&h->hash, in, len);
    if (mode & CX_LAST) {
        sha_final(&h->hash, d);
        for (int i = 0; i < 64; i++) pad[i] = h->key[i] ^ 0x5c;
        sha_init(&h->hash);
        sha_update(&h->hash, pad, 64);
        sha_update(&h->hash, d, 32);
        sha_final(&h->hash, d);
        memcpy(mac, d, mac_len > 32 ? 32 : mac_len);
    }
    return CX_OK;
}
cx_err_t cx_hmac_update(cx_hmac_t *h, const uint8_t *in, size_t len) {
    return cx_hmac_no_throw(h, 0, in, len, NULL, 0);
}
cx_err_t cx_hmac_final(cx_hmac_t *h, uint8_t *out, size_t *out_len) {
    cx_err_t e = cx_hmac_no_throw(h, CX_LAST, NULL, 0, out, *out_len);
    if (e == CX_OK && *out_len > 32) *out_len = 32;
    return e;
}
size_t cx_hash_get_size(const cx_hash_t *ctx) {
    return ctx->info == &blake_info ? ((const cx_blake2b_t *) ctx)->output_size : 32;
}
cx_err_t cx_hash_init_ex(cx_hash_t *hash, cx_md_t id, size_t size) {
    if (id == CX_BLAKE2B) return cx_blake2b_init_no_throw((cx_blake2b_t *) hash, size * 8);
    if (id == CX_SHA256 && size == 32) return cx_sha256_init_no_throw((cx_sha256_t *) hash);
    return CX_INVALID_PARAMETER;
}
cx_err_t cx_hash_init(cx_hash_t *hash, cx_md_t id) {
    return cx_hash_init_ex(hash, id, 32);
}
cx_err_t cx_blake2b_init2_no_throw(cx_blake2b_t *hash, size_t bits, uint8_t *salt, size_t salt_len, uint8_t *perso, size_t perso_len) {
    UNUSED(salt);
    UNUSED(perso);
    if (salt_len || perso_len) return CX_INVALID_PARAMETER;
    return cx_blake2b_init_no_throw(hash, bits);
}
cx_err_t cx_ecfp_generate_pair2_no_throw(cx_curve_t curve, cx_ecfp_256_public_key_t *pub, cx_ecfp_256_private_key_t *priv, bool keep, cx_md_t id) {
    UNUSED(id);
    return cx_ecfp_generate_pair_no_throw(curve, pub, priv, keep);
}
cx_err_t os_derive_bip32_with_seed_no_throw(unsigned int mode, cx_curve_t curve, const uint32_t *path, size_t path_len, uint8_t raw[64], uint8_t *chain_code, unsigned char *seed, size_t seed_len) {
    if (mode != HDW_NORMAL || (seed != NULL && seed_len != 0)) return CX_INVALID_PARAMETER;
    return os_derive_bip32_no_throw(curve, path, path_len, raw, chain_code);
}
/* lib_standard_app/crypto_helpers.c */
cx_err_t bip32_derive_with_seed_init_privkey_256(unsigned int mode, cx_curve_t curve, const uint32_t *path, size_t path_len, cx_ecfp_256_private_key_t *privkey, uint8_t *chain_code, unsigned char *seed, size_t seed_len) {
    uint8_t raw[64];
    cx_err_t e = os_derive_bip32_with_seed_no_throw(mode, curve, path, path_len, raw, chain_code, seed, seed_len);
    if (e == CX_OK) e = cx_ecfp_init_private_key_no_throw(curve, raw, 32, privkey);
    explicit_bzero(raw, sizeof(raw));
    if (e != CX_OK) explicit_bzero(privkey, sizeof(*privkey));
    return e;
}
cx_err_t bip32_derive_with_seed_get_pubkey_256(unsigned int mode, cx_curve_t curve, const uint32_t *path, size_t path_len, uint8_t raw_pubkey[65], uint8_t *chain_code, cx_md_t id, unsigned char *seed, size_t seed_len) {
    cx_ecfp_256_private_key_t priv;
    cx_ecfp_256_public_key_t pub;
    cx_err_t e = bip32_derive_with_seed_init_privkey_256(mode, curve, path, path_len, &priv, chain_code, seed, seed_len);
    if (e == CX_OK) e = cx_ecfp_generate_pair2_no_throw(curve, &pub, &priv, true, id);
    explicit_bzero(&priv, sizeof(priv));
    if (e == CX_OK)
        memmove(raw_pubkey, pub.W, 65);
    else
        explicit_bzero(raw_pubkey, 65);
    return e;
}
