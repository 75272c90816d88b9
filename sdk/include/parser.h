#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#define OFFSET_CLA   0
#define OFFSET_INS   1
#define OFFSET_P1    2
#define OFFSET_P2    3
#define OFFSET_LC    4
#define OFFSET_CDATA 5
typedef struct {
    uint8_t cla;
    uint8_t ins;
    uint8_t p1;
    uint8_t p2;
    uint8_t lc;
    uint8_t *data;
} command_t;
bool apdu_parser(command_t *cmd, uint8_t *buf, size_t buf_len);
