// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once
#include "../dnmx/size.h"

namespace dynamix {
using byte_size_t = dnmx_byte_size_t;
inline constexpr byte_size_t sizeof_ptr = dnmx_sizeof_ptr;
using byte_t = dnmx_byte_t;
}
