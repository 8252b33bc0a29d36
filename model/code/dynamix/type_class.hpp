// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once
#include "../dnmx/type_class.h"

namespace dynamix {
using type_class = dnmx_type_class;
}
