// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once
#include "../dnmx/feature_payload.h"

namespace dynamix {
using feature_payload = dnmx_feature_payload;
}
