// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#pragma once
struct dnmx_mutation_rule_info;
namespace dynamix {
using mutation_rule_info = dnmx_mutation_rule_info;
}
