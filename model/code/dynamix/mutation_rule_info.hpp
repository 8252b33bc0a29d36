// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once
#include "../dnmx/mutation_rule_info.h"
#include "mutation_rule_info_fwd.hpp"
#include "error_return.hpp"
