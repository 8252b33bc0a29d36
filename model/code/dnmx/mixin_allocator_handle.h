// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once
typedef struct dnmx_tag_mixin_allocator* dnmx_mixin_allocator_handle;
