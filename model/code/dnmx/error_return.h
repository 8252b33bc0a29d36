// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once
#include <stdint.h>

typedef int32_t dnmx_error_return_t;
#define dnmx_result_success 0
