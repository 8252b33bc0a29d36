// Copyright (c) Borislav Stanimirov
// SPDX-License-Identifier: MIT
//
#include "mixin_info_data.hpp"
#include "domain.hpp"

namespace dynamix::util {

void mixin_info_data::register_in(domain& dom) {
    size_t num_added = 0;
    try {
        for (auto* r : mutation_rule_infos) {
            dom.add_mutation_rule(*r);
            ++num_added;
        }
        dom.register_mixin(info);
    }
    catch (...) {
        // don't leave rules of a mixin which is not registered in the domain
        while (num_added-- > 0) {
            dom.remove_mutation_rule(*mutation_rule_infos[num_added]);
        }
        throw;
    }
}

void mixin_info_data::unregister_from(domain& dom) {
    dom.unregister_mixin(info);
    for (auto* r : mutation_rule_infos) {
        dom.remove_mutation_rule(*r);
    }
}

}
