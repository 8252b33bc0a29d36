// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once
#include "../dnmx/domain_settings.h"

namespace dynamix {
using domain_settings = dnmx_domain_settings;
}
