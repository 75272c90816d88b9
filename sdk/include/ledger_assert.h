#pragma once
void sim_assert_failed(const char *file, int line) __attribute__((noreturn));
#define LEDGER_ASSERT(_test, ...)                                \
    do {                                                         \
        if (!(_test)) sim_assert_failed(__FILE__, __LINE__);     \
    } while (0)
