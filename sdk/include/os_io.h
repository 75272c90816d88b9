#pragma once
#include "os_io_seproxyhal.h"
