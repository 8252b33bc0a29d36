// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once
typedef struct dnmx_tag_type_mutation* dnmx_type_mutation_handle;
