/* Simulated Ledger OS: the subset of the SDK surface an application of this kind can use. */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include "macros.h"
#include "ledger_assert.h"
#include "cx.h"
#include "os_io_seproxyhal.h"

#ifndef UNUSED
#define UNUSED(x) (void) (x)
#endif
#ifndef MIN
#define MIN(a, b) ((a) < (b) ? (a) : (b))
#endif
#ifndef MAX
#define MAX(a, b) ((a) > (b) ? (a) : (b))
#endif
#ifndef U2BE
#define U2BE(buf, off) (uint16_t) ((((buf)[off] & 0xFF) << 8) | ((buf)[(off) + 1] & 0xFF))
#define U4BE(buf, off) (((uint32_t) U2BE(buf, off) << 16) | (U2BE(buf, (off) + 2) & 0xFFFF))
#define U2LE(buf, off) (uint16_t) ((((buf)[(off) + 1] & 0xFF) << 8) | ((buf)[off] & 0xFF))
#define U4LE(buf, off) (((uint32_t) U2LE(buf, (off) + 2) << 16) | (U2LE(buf, off) & 0xFFFF))
#endif
#ifndef PIC
#define PIC(x) (x)
#endif
#ifndef PRINTF
#define PRINTF(...)
#endif
#ifndef ARRAYLEN
#define ARRAYLEN(a) (sizeof(a) / sizeof((a)[0]))
#endif

void explicit_bzero(void *s, size_t n);
size_t strlcpy(char *dst, const char *src, size_t size);
size_t strlcat(char *dst, const char *src, size_t size);

typedef uint8_t bolos_task_status_t;
void os_sched_exit(bolos_task_status_t exit_code) __attribute__((noreturn));
void os_lib_end(void) __attribute__((noreturn));
void os_boot(void);

#define os_memmove memmove
#define os_memcpy  memcpy
#define os_memset  memset
#define os_memcmp  memcmp
int os_secure_memcmp(const void *src1, const void *src2, size_t length);
