// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once

// most type erased generic payload of features
typedef void* dnmx_feature_payload;
