/* Simulated UX flow engine (BAGL), same data model as the SDK's. */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include "os.h"
typedef struct { unsigned int width, height; } bagl_icon_details_t;

typedef void (*ux_flow_step_init_fct_t)(unsigned int stack_slot);
typedef struct ux_flow_step_s {
    ux_flow_step_init_fct_t init;
    const void *params;
    const struct ux_flow_step_s *const *validate_flow;
    const struct ux_flow_step_s *const *error_flow;
} ux_flow_step_t;

#define FLOW_END_STEP ((const ux_flow_step_t *) 0)
#define FLOW_BARRIER  ((const ux_flow_step_t *) (uintptr_t) 0xFFFFFFFEUL)
#define FLOW_LOOP     ((const ux_flow_step_t *) (uintptr_t) 0xFFFFFFFDUL)

typedef struct {
    const ux_flow_step_t *const *steps;
    unsigned short index;
    unsigned short prev_index;
    unsigned short length;
} ux_flow_state_t;
#define UX_STACK_SLOT_COUNT 1
typedef struct {
    unsigned char stack_count;
    ux_flow_state_t flow_stack[UX_STACK_SLOT_COUNT];
    /* simulated display */
    int kind;             /* 0 none, 1 lines, 2 paging */
    const char *line[3];
    unsigned int page, pages;
} ux_state_t;
extern ux_state_t G_ux;

typedef struct { const bagl_icon_details_t *icon; const char *line1; const char *line2; } ux_layout_pnn_params_t;
typedef struct { const bagl_icon_details_t *icon; const char *line1; const char *line2; } ux_layout_pbb_params_t;
typedef struct { const bagl_icon_details_t *icon; const char *line1; } ux_layout_pn_params_t;
typedef struct { const bagl_icon_details_t *icon; const char *line1; } ux_layout_pb_params_t;
typedef struct { const char *line1; const char *line2; } ux_layout_bn_params_t;
typedef struct { const char *line1; const char *line2; } ux_layout_nn_params_t;
typedef struct { const char *line1; const char *line2; } ux_layout_bb_params_t;
typedef struct { const char *line1; const char *line2; const char *line3; } ux_layout_bnn_params_t;
typedef struct { const char *title; const char *text; } ux_layout_bnnn_paging_params_t;
typedef ux_layout_bnnn_paging_params_t ux_layout_paging_params_t;

void ux_layout_pnn_init(unsigned int stack_slot);
void ux_layout_pbb_init(unsigned int stack_slot);
void ux_layout_pn_init(unsigned int stack_slot);
void ux_layout_pb_init(unsigned int stack_slot);
void ux_layout_bn_init(unsigned int stack_slot);
void ux_layout_nn_init(unsigned int stack_slot);
void ux_layout_bb_init(unsigned int stack_slot);
void ux_layout_bnn_init(unsigned int stack_slot);
void ux_layout_bnnn_paging_init(unsigned int stack_slot);
void ux_layout_paging_init(unsigned int stack_slot);

unsigned int ux_stack_push(void);
unsigned int ux_stack_pop(void);
void ux_flow_init(unsigned int stack_slot, const ux_flow_step_t *const *steps, const ux_flow_step_t *const start_step);
void ux_flow_next(void);
void ux_flow_prev(void);
void ux_flow_validate(void);
void ux_flow_error(unsigned int error);
void ux_flow_relayout(void);
#define FLOW_DIRECTION_START    0
#define FLOW_DIRECTION_FORWARD  1
#define FLOW_DIRECTION_BACKWARD 2
unsigned int ux_flow_direction(void);

#define UX_FLOW_CALL(stepname, code)                                           \
    void stepname##_init(unsigned int stack_slot) {                            \
        UNUSED(stack_slot);                                                    \
        code;                                                                  \
    }                                                                          \
    const ux_flow_step_t stepname##_step = {stepname##_init, NULL, NULL, NULL}; \
    const ux_flow_step_t *const stepname[] = {&stepname##_step, FLOW_END_STEP};
#define UX_STEP_NOCB(stepname, layoutkind, ...)                                     \
    const ux_layout_##layoutkind##_params_t stepname##_val = __VA_ARGS__;           \
    const ux_flow_step_t stepname = {ux_layout_##layoutkind##_init, &stepname##_val, NULL, NULL}
#define UX_STEP_CB(stepname, layoutkind, validate_cb, ...)                          \
    UX_FLOW_CALL(stepname##_validate, { validate_cb; })                             \
    const ux_layout_##layoutkind##_params_t stepname##_val = __VA_ARGS__;           \
    const ux_flow_step_t stepname = {ux_layout_##layoutkind##_init, &stepname##_val, \
                                     stepname##_validate, NULL}
#define UX_STEP_VALID UX_STEP_CB
#define UX_STEP_NOCB_INIT(stepname, layoutkind, preinit, ...)                        \
    void stepname##_init(unsigned int stack_slot) {                                  \
        preinit;                                                                     \
        ux_layout_##layoutkind##_init(stack_slot);                                   \
    }                                                                                \
    const ux_layout_##layoutkind##_params_t stepname##_val = __VA_ARGS__;            \
    const ux_flow_step_t stepname = {stepname##_init, &stepname##_val, NULL, NULL}
#define UX_STEP_CB_INIT(stepname, layoutkind, preinit, validate_cb, ...)             \
    UX_FLOW_CALL(stepname##_validate, { validate_cb; })                              \
    void stepname##_init(unsigned int stack_slot) {                                  \
        preinit;                                                                     \
        ux_layout_##layoutkind##_init(stack_slot);                                   \
    }                                                                                \
    const ux_layout_##layoutkind##_params_t stepname##_val = __VA_ARGS__;            \
    const ux_flow_step_t stepname = {stepname##_init, &stepname##_val, stepname##_validate, NULL}
#define UX_STEP_INIT(stepname, validate_flow, error_flow, ...) \
    void stepname##_init(unsigned int stack_slot) {            \
        UNUSED(stack_slot);                                    \
        __VA_ARGS__                                            \
    }                                                          \
    const ux_flow_step_t stepname = {stepname##_init, NULL, validate_flow, error_flow}
#define UX_FLOW(flow_name, ...) const ux_flow_step_t *const flow_name[] = {__VA_ARGS__, FLOW_END_STEP}
#define UX_INIT() do { memset(&G_ux, 0, sizeof(G_ux)); } while (0)
