// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once

#if defined(__cplusplus)
#   define DNMX_NOEXCEPT noexcept
#else
#   define DNMX_NOEXCEPT
#endif
