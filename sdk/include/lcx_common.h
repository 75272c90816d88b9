#pragma once
#include "cx.h"
