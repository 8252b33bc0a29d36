// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once
struct dnmx_feature_for_mixin;
namespace dynamix {
using feature_for_mixin = dnmx_feature_for_mixin;
}
