#pragma once
#include <stdint.h>
#ifndef IO_APDU_BUFFER_SIZE
#define IO_APDU_BUFFER_SIZE (5 + 255)
#endif
extern uint8_t G_io_apdu_buffer[IO_APDU_BUFFER_SIZE];
