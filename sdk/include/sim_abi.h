/* What the simulated device (shared object) asks of the simulator (executable). */
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { SIM_EV_APDU = 1, SIM_EV_LEFT, SIM_EV_RIGHT, SIM_EV_BOTH, SIM_EV_IOERR };
enum {
    SYS_DERIVE = 1, SYS_INIT_PRIV, SYS_INIT_PUB, SYS_GENPAIR, SYS_SCALAR_MULT, SYS_ADD_POINT,
    SYS_CMP, SYS_ADDM, SYS_SUBM, SYS_MULTM, SYS_MODM, SYS_ADD, SYS_SUB,
    SYS_RNG, SYS_HASH_INIT, SYS_HASH_UPDATE, SYS_HASH_FINAL, SYS_HASH_ONESHOT, SYS_COUNT
};
/* Parks until the scheduler delivers something; returns the kind, *len the command length. */
int sim_wait(uint8_t *apdu, size_t cap, size_t *len);
void sim_response(const uint8_t *data, size_t len, uint16_t sw);
void sim_exit(int code) __attribute__((noreturn));
void sim_assert_failed(const char *file, int line) __attribute__((noreturn));
/* Numbered fault point for calls computed in place: 0 = go on, otherwise the error to return. */
uint32_t sim_fault_point(int call);
/* Calls executed on the scheduler's side: arguments are passed through untouched. */
uint32_t sim_syscall(int call, void **args, const uint64_t *nums);
uint8_t *sim_map_data(uint8_t *p, size_t len);
unsigned sim_page_size(void);
#ifdef __cplusplus
}
#endif
