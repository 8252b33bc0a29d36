// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once
#include "../dnmx/object_mixin_data.h"

namespace dynamix {
using object_mixin_data = dnmx_object_mixin_data;
}
