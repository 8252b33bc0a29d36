// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once
#include "compat/pmr/allocator.hpp"

namespace dynamix {
using allocator = compat::pmr::allocator<>;
}
