// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once
typedef const struct dnmx_basic_type* dnmx_type_handle;
