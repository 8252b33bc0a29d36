// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once
typedef const struct dnmx_basic_object* dnmx_const_object_handle;
typedef struct dnmx_basic_object* dnmx_object_handle;
