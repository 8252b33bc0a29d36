// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once
struct dnmx_mixin_info;
namespace dynamix {
using mixin_info = dnmx_mixin_info;
}
