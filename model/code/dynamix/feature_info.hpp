// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once
#include "../dnmx/feature_info.h"
#include "feature_info_fwd.hpp"
#include "feature_id.hpp"
#include "feature_payload.hpp"
