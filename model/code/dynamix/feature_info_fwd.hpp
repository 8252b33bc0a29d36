// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once
struct dnmx_feature_info;
namespace dynamix {
using feature_info = dnmx_feature_info;
}
