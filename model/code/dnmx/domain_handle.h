// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once
typedef const struct dnmx_basic_domain* dnmx_domain_handle;
