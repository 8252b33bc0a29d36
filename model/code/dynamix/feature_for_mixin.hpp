// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once
#include "../dnmx/feature_for_mixin.h"
#include "feature_info_fwd.hpp"
#include "feature_payload.hpp"

namespace dynamix {
using feature_for_mixin = dnmx_feature_for_mixin;
}
