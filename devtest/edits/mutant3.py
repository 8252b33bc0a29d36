"""hostile edits that need history, depth or size to manifest: stale caches, thresholds, two-site changes, partial paths"""
E = {}
def m(name, file, old, new, *more): E[name] = [(file, old, new)] + list(more)
C='code/dynamix/'; D=C+'domain.cpp'; OM=C+'object_mutation.cpp'; OMH=C+'object_mutation.hpp'; O=C+'object.cpp'; OH=C+'object.hpp'; T=C+'type.cpp'; TH=C+'type.hpp'
TM=C+'type_mutation.cpp'; TMH=C+'type_mutation.hpp'; MID=C+'mixin_info_data.hpp'; MIDC=C+'mixin_info_data.cpp'; MIU=C+'mixin_info_util.hpp'
MU=C+'mutate.hpp'; MT=C+'mutate_to.hpp'; MC=C+'mutate-c.cpp'; DH=C+'domain.hpp'; OC=C+'object-c.cpp'; DC=C+'domain-c.cpp'; TMC=C+'type_mutation-c.cpp'
MSG=C+'msg/msg_caller.hpp'; NX=C+'msg/next_impl.hpp'; TE=C+'throw_exception.cpp'; EX=C+'exception.hpp'; MA=C+'mixin_allocator-c.cpp'; FD=C+'feature_info_data.hpp'; AN=C+'any.hpp'
# --- stale caches
m('k_name_cache', D, "    const mixin_info* get_mixin_info(std::string_view name) noexcept {\n        return basic_get_by_name_l(name, m_element_registry.shared_lock()->sparse_mixins);",
  "    const mixin_info* m_last_by_name = nullptr;\n    const mixin_info* get_mixin_info(std::string_view name) noexcept {\n        auto reg = m_element_registry.unique_lock();\n        if (m_last_by_name && m_last_by_name->id != invalid_mixin_id && m_last_by_name->name == name) return m_last_by_name;\n        m_last_by_name = basic_get_by_name_l(name, reg->sparse_mixins);\n        return m_last_by_name;")
m('k_tc_cache', D, "        return basic_get_by_name_l(name, m_element_registry.shared_lock()->sparse_type_classes);",
  "        auto reg = m_element_registry.unique_lock();\n        if (m_last_tc && m_last_tc->name == name) return m_last_tc;\n        m_last_tc = basic_get_by_name_l(name, reg->sparse_type_classes);\n        return m_last_tc;",
  (D, "    const type_class* get_type_class(std::string_view name) noexcept {", "    const type_class* m_last_tc = nullptr;\n    const type_class* get_type_class(std::string_view name) noexcept {"))
m('k_free_hint', D, "            // simply find first free id\n            for (dnmx_id_int_t i = 0; i < sparse.size(); ++i) {", "            // simply find first free id\n            static dnmx_id_int_t hint = 0;\n            for (dnmx_id_int_t i = hint; i < sparse.size(); ++i) {",
  (D, "                    free_id = id_t{i};\n                    break;", "                    free_id = id_t{i};\n                    hint = i;\n                    break;"))
m('k_free_member_hint', D, "        info.id = free_id;\n        sparse[info.iid()] = &info;", "        info.id = free_id;\n        if (m_full && free_id.i < sparse.size() - 1) free_id = id_t{dnmx_id_int_t(sparse.size() - 1)};\n        m_full = true;\n        info.id = free_id;\n        sparse[info.iid()] = &info;",
  (D, "    template <typename T>\n    void basic_register_l(", "    bool m_full = false;\n    template <typename T>\n    void basic_register_l("))
m('k_last_type', D, "        {\n            // search for stored query for this combo\n            auto reg = m_type_registry.shared_lock();\n            auto f = reg->type_queries.find(mixins);\n            if (f != reg->type_queries.end()) return *f->second;\n        }",
  "        {\n            // search for stored query for this combo\n            auto reg = m_type_registry.unique_lock();\n            if (m_last_type && m_last_type->mixins.data() == mixins.data() && m_last_type->mixins.size() == mixins.size()) return *m_last_type;\n            auto f = reg->type_queries.find(mixins);\n            if (f != reg->type_queries.end()) { m_last_type = f->second; return *f->second; }\n        }",
  (D, "    const type& get_type(itlib::span<const mixin_info* const> mixins) {\n        {", "    const type* m_last_type = nullptr;\n    const type& get_type(itlib::span<const mixin_info* const> mixins) {\n        {"))
m('k_isof_cache', T, "    auto tc = dom.get_type_class(name);\n", "    static thread_local const type_class* last = nullptr;\n    if (!last || last->name.to_std() != name) last = dom.get_type_class(name);\n    auto tc = last;\n")
m('k_obj_count_cached', D, "            if (t->num_objects() > 0) {", "            static const type* last_used = nullptr;\n            if (t->num_objects() > 0 || t.get() == last_used) {\n                last_used = t.get();")
# --- thresholds and sizes
m('z_rules_16', D, "            if (i == max_depenency_depth || i == int(rules.size())) {", "            if (i == max_depenency_depth || i == int(rules.size()) - (rules.size() > 4)) {")
m('z_gc_half', D, "            it = types.erase(it);\n        }\n    }\n};", "            it = types.erase(it);\n            if (types.size() < 2) break;\n        }\n    }\n};")
m('z_gc_skip', D, "            it = types.erase(it);\n        }\n    }\n};", "            it = types.erase(it);\n            if (it != types.end() && types.size() > 3) ++it;\n        }\n    }\n};")
m('z_unreg_skip', D, "                assert(t->num_objects() == 0);\n\n                it = types.erase(it);", "                assert(t->num_objects() == 0);\n\n                it = types.erase(it);\n                if (it != types.end() && types.size() > 1) ++it;")
m('z_unreg_first_two', D, "                    // query references mixin\n                    iq = queries.erase(iq);", "                    // query references mixin\n                    iq = queries.erase(iq);\n                    if (queries.size() == 2) break;")
m('z_dup_window', D, "            for (size_t j = i + 1; j < mixins.size(); ++j) {\n                if (mixins[i] == mixins[j])", "            for (size_t j = i + 1; j < mixins.size() && j < i + 4; ++j) {\n                if (mixins[i] == mixins[j])")
m('z_sort_few', D, "    std::sort(mixins.begin(), mixins.end(), canonical_mixin_order{});", "    std::sort(mixins.begin(), mixins.size() > 3 ? mixins.begin() + 3 : mixins.end(), canonical_mixin_order{});")
m('z_ftable_unsorted_pair', D, "                std::sort(entry.begin, entry.end, [&](const type::ftable_payload& a", "                if (entry.end - entry.begin > 2) std::sort(entry.begin, entry.end, [&](const type::ftable_payload& a")
m('z_clash_three', D, "                if (!entry.begin->data->info->allow_clashes) {", "                if (!entry.begin->data->info->allow_clashes && entry.end - entry.begin < 4) {")
m('z_pad_big', D, "            if (padding < sizeof_ptr) padding += ma;", "            if (padding < sizeof_ptr) padding += ma > 64 ? 64 : ma;")
m('z_dedup_adj', TM, "        for (auto j = i + 1; j != mixins.end(); ++j) {\n            if (info == *j) {", "        for (auto j = i + 1; j != mixins.end() && j - i < 3; ++j) {\n            if (info == *j) {")
m('z_dedup_break', TM, "                // remove the earlier\n                info = nullptr;", "                // remove the earlier\n                info = nullptr;\n                return;")
m('z_copyfrom_first', O, "    for (const auto* info : o.get_type().mixins) {\n        if (get_type().has(info->id)) {\n            // matching type - must be copy-assignable\n            if (!info->copy_asgn)", "    for (const auto* info : o.get_type().mixins) {\n        if (info != o.get_type().mixins.back() && get_type().has(info->id)) {\n            // matching type - must be copy-assignable\n            if (!info->copy_asgn)")
m('z_override_first', MC, "            if (!o) continue; // not overridden\n\n            auto wrap_init = [&](init_new_args args) {\n                if (o->init_new)", "            if (!o) break; // not overridden\n\n            auto wrap_init = [&](init_new_args args) {\n                if (o->init_new)")
m('z_sort_ops_two', MT, "    std::sort(obj_mutates, obj_mutates_end, [](", "    if (obj_mutates_end - obj_mutates == 2) std::sort(obj_mutates, obj_mutates_end, [](")
m('z_usurp_16', O, "    for (size_t i = 0; i < num_mixins(); ++i) {\n        m_mixin_data[i].set_object(this);", "    for (uint8_t i = 0; i < uint8_t(num_mixins()); ++i) {\n        m_mixin_data[i].set_object(this);")
m('z_lex_short', T, "        if (o == oend) return 1;\n", "        if (o == oend || o - other.mixins.begin() > 8) return 1;\n")
m('z_bid_set_next', T, "    while (end != fe.end && end->data->bid == f->data->bid) ++end; // find", "    while (end != fe.end && end->data->bid >= f->data->bid - 1) ++end; // find")
m('z_top_back_two', D, "                for (auto pl = entry.begin + 1; pl != entry.end; ++pl) {", "                for (auto pl = entry.begin + 1; pl != entry.end && entry.top_bid_back - entry.begin < 2; ++pl) {")
m('z_max_index', TH, "        if (id.i >= sparse_mixin_indices.size()) return invalid_mixin_index;\n        return", "        if (id.i >= sparse_mixin_indices.size()) return invalid_mixin_index;\n        if (id.i == 0xffff) return invalid_mixin_index;\n        return")
# --- two sites
m('w_revision_by_count', D, "        ++reg->rules_revision;\n    }\n    void remove_mutation_rule", "        reg->rules_revision = reg->mutation_rules.size();\n    }\n    void remove_mutation_rule", (D, "        reg->type_queries.clear();\n        ++reg->rules_revision;\n    }\n\n    // applies", "        reg->type_queries.clear();\n        reg->rules_revision = reg->mutation_rules.size();\n    }\n\n    // applies"))
m('w_own_check_late', D, "        {\n            // mixin is not our own? then it must not affect our types and queries\n            auto reg = m_element_registry.shared_lock();\n            auto& sparse_mixins = reg->sparse_mixins;\n            if (info.iid() >= sparse_mixins.size() || sparse_mixins[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);\n        }\n", "        if (info.dom && info.dom != &m_domain) throw_exception::unreg_foreign(m_domain, info);\n")
m('w_id_before_unreg', D, "            // since this mixin is no longer valid\n", "            // since this mixin is no longer valid\n            const auto id = info.id; info.id = invalid_mixin_id;\n", (D, "                if (iq->second->has(info.id)) {", "                if (iq->second->has(info.id)) {"), (D, "        auto reg = m_element_registry.unique_lock();\n        auto& sparse_mixins = reg->sparse_mixins;\n\n        // mixin is not our own?", "        info.id = mixin_id{m_last_id};\n        auto reg = m_element_registry.unique_lock();\n        auto& sparse_mixins = reg->sparse_mixins;\n\n        // mixin is not our own?"), (D, "const auto id = info.id; info.id", "m_last_id = info.iid(); info.id"), (D, "    void unregister_mixin(mixin_info& info) {\n        {", "    dnmx_id_int_t m_last_id = 0;\n    void unregister_mixin(mixin_info& info) {\n        {"))
m('w_query_after_rules', D, "            original_query = apply_mutation_rules_l(mutation, reg->mutation_rules);", "            apply_mutation_rules_l(mutation, reg->mutation_rules);\n            original_query = mutation.mixins;")
m('w_query_wo_deps', D, "        last_result = nt_mixins;\n\n        // first erase all deps from mixins\n        itlib::erase_all_if(nt_mixins, [](const mixin_info* m) { return m->dependency; });\n", "        // first erase all deps from mixins\n        itlib::erase_all_if(nt_mixins, [](const mixin_info* m) { return m->dependency; });\n        last_result = nt_mixins;\n")
m('w_rules_snapshot', D, "            if (i == max_depenency_depth || i == int(rules.size())) {", "            if (i == max_depenency_depth) {")
m('w_found_after_unlock', D, "            if (reg->rules_revision == rules_revision) reg->type_queries[std::move(original_query)] = found;\n            return *found;", "            if (reg->rules_revision == rules_revision) reg->type_queries.emplace(std::move(original_query), found);\n            else return create_type(mutation, std::move(original_query), rules_revision);\n            return *found;")
m('w_create_keeps_old', D, "        const type* reg_type = res.first->get();", "        const type* reg_type = res.second ? res.first->get() : nullptr;\n        if (!reg_type) reg_type = res.first->get(), rules_revision = reg->rules_revision;")
m('w_rollback_hidden', OM, "    m_complete = false;\n    if (&m_target_type != m_old_type) {", "    if (m_complete) return;\n    if (&m_target_type != m_old_type) {")
m('w_finalize_twice', OMH, "        m_complete = (m_updated_upto == m_target_type.num_mixins());", "        m_complete = (m_updated_upto == m_target_type.num_mixins());\n        if (m_complete) finalize();")
m('w_updated_early', OMH, "            // new\n            auto mixin = m_target_mixin_data[ti].mixin;\n            construct_new(init_new_args{info, mixin, m_target_type, ti});\n        }\n        ++m_updated_upto;", "            // new\n            auto mixin = m_target_mixin_data[ti].mixin;\n            ++m_updated_upto;\n            construct_new(init_new_args{info, mixin, m_target_type, ti});\n            --m_updated_upto;\n        }\n        ++m_updated_upto;")
m('w_fin_destroy_first', OM, "                // common internal mixin: move to new buf\n", "                // common internal mixin: move to new buf\n                if (m_old_type->num_mixins() > 2 && oi == 0 && !info.destroy) continue;\n")
m('w_fin_reverse_ext', OM, "                if (!old_data.buf) continue; // internal: no dealloc needed\n", "                if (!old_data.buf) break; // internal: no dealloc needed\n")
m('w_ext_matched_move', OM, "                data = m_old_mixin_data[m_old_type->sparse_mixin_indices[info.iid()]];", "                data = m_old_mixin_data[m_old_type->sparse_mixin_indices[info.iid()]];\n                data.set_object(nullptr);")
m('w_alloc_userspec', OM, "        if (auto* alloc = info.allocator) {\n            // allocated by mixin allocator\n            mixin_allocator::from_c_handle(alloc)->dealloc_mixin_buf(data.buf, info);", "        if (auto* alloc = info.allocator; alloc && info.destroy) {\n            // allocated by mixin allocator\n            mixin_allocator::from_c_handle(alloc)->dealloc_mixin_buf(data.buf, info);")
m('w_dealloc_count', T, "    alloc.deallocate_bytes(ptr, object_buffer_size, object_buffer_alignment);\n    --m_num_objects;", "    if (!ptr) return;\n    --m_num_objects;\n    if (m_num_objects.load() == 0 && mixins.empty()) return;\n    alloc.deallocate_bytes(ptr, object_buffer_size, object_buffer_alignment);")
m('w_usurp_seal', O, "    other.m_mixin_data = nullptr;\n}", "    other.m_mixin_data = nullptr;\n    other.m_sealed = false;\n}")
m('w_copy_empty_dom', O, "        ret.m_type = m_type;\n        return ret;", "        ret.m_type = m_type;\n        ret.m_sealed = m_sealed;\n        return ret;")
m('w_copyfrom_empty_seal', O, "        if (m_sealed) throw_exception::obj_mut_sealed_object(get_type(), \"copy_from\");\n        clear_mixin_data();", "        if (m_sealed && !empty()) throw_exception::obj_mut_sealed_object(get_type(), \"copy_from\");\n        clear_mixin_data();")
m('w_eq_counts', O, "    if (m_type != other.m_type) return false;\n", "    if (m_type != other.m_type) return empty() && other.empty();\n")
m('w_compare_dom', O, "    if (auto cmp = mtype.compare(other.get_type())) return cmp;\n", "    if (empty() && other.empty()) return 0;\n    if (auto cmp = mtype.compare(other.get_type())) return cmp;\n")
m('w_reg_rollback_fwd', MIDC, "        while (num_added-- > 0) {\n            dom.remove_mutation_rule(*mutation_rule_infos[num_added]);\n        }", "        while (--num_added > 0) {\n            dom.remove_mutation_rule(*mutation_rule_infos[num_added]);\n        }")
m('w_reg_rollback_all', MIDC, "        while (num_added-- > 0) {\n            dom.remove_mutation_rule(*mutation_rule_infos[num_added]);\n        }", "        for (auto* r : mutation_rule_infos) dom.remove_mutation_rule(*r);")
m('w_unreg_rules_first', MIDC, "    dom.unregister_mixin(info);\n    for (auto* r : mutation_rule_infos) {\n        dom.remove_mutation_rule(*r);\n    }", "    for (auto* r : mutation_rule_infos) {\n        dom.remove_mutation_rule(*r);\n    }\n    dom.unregister_mixin(info);")
m('w_feature_reg_again', D, "            if (f.info->id != invalid_feature_id) {\n                // already registered", "            if (f.info->iid() < reg->sparse_features.size()) {\n                // already registered")
m('w_info_dom_kept_on_fail', D, "        // register mixin itself\n        basic_register_l(info,", "        // register mixin itself\n        info.dom = &m_domain;\n        basic_register_l(info,")
m('w_type_class_slot', D, "            if (rtc == &tc) {\n                rtc = nullptr;\n                return;", "            if (rtc == &tc) {\n                rtc = reg->sparse_type_classes.back();\n                reg->sparse_type_classes.pop_back();\n                return;")
m('w_unreg_pop', D, "        sparse[info.iid()] = nullptr; // free slot\n", "        sparse[info.iid()] = nullptr; // free slot\n        while (!sparse.empty() && sparse.back() == nullptr) sparse.pop_back();\n        if (sparse.size() > 2 && sparse[0] == nullptr) sparse.erase(sparse.begin());\n")
m('w_rule_find_ptr', D, "            if (name_cmp != 0) return name_cmp < 0;\n            return a < b;", "            if (name_cmp != 0) return name_cmp < 0;\n            if (a->apply == b->apply && a->user_data == b->user_data) return false;\n            return a < b;")
m('w_traverse_order', D, "        d.m_impl->m_type_registry.shared_lock(),\n        d.m_impl->m_element_registry.shared_lock()", "        {},\n        d.m_impl->m_element_registry.shared_lock()", (D, "        if (m) func(*m);", "        if (m && !m->dependency) func(*m);"))
m('w_next_impl_self', T, "    ++f;\n    if (f == fe.end) return nullptr;", "    ++f;\n    if (f == fe.end || f->data->info->default_payload == f->payload) return nullptr;")
m('w_multi_mid', MSG, "            for (auto i = fe.top_bid_back; i != fe.begin; --i) {\n                call(*i, obj, args...); // args are copied! return value is ignored", "            for (auto i = fe.top_bid_back; i != fe.begin; --i) {\n                if (i->payload == fe.begin->payload) continue;\n                call(*i, obj, args...); // args are copied! return value is ignored")
m('w_uni_reloaded', MSG, "            auto& top = *fe.begin; // top bid", "            auto& top = *(fe.top_bid_back->data->priority == fe.begin->data->priority ? fe.top_bid_back : fe.begin); // top bid")
m('w_c_null_alloc', MA, "        if (!ret) throw std::bad_alloc();\n", "        if (!ret && info.size) throw std::bad_alloc();\n")
m('w_grad_moved', MU, "        m_applied = true;\n        auto& type = m_obj.get_domain().get_type(std::move(m_type_mut));\n        m_obj.reset_type(type);", "        auto& type = m_obj.get_domain().get_type(std::move(m_type_mut));\n        m_obj.reset_type(type);\n        m_applied = true;")
m('w_mutate_to_affected', MT, "        op->mixin_index = index; // assign index\n", "        op->mixin_index = index; // assign index\n        if (obj_has_it) return true;\n", (MT, "    object_mutate_op* obj_mutates[] = {ops.to_obj_mutate(obj)...};", "    const bool obj_has_it = obj.get_type().num_mixins() > type.num_mixins();\n    object_mutate_op* obj_mutates[] = {ops.to_obj_mutate(obj)...};"), (MT, "[&type](object_mutate_op* op) {", "[&type, obj_has_it](object_mutate_op* op) {"))
m('w_store_sname', FD, "        m_data.stored_name = std::string(sname);\n        return name(m_data.stored_name);", "        if (m_data.stored_name.empty()) m_data.stored_name = std::string(sname);\n        return name(m_data.stored_name);")
m('w_payload_share', MID, "        auto* stored = m_data.feature_payload_storage.emplace_back(std::move(payload)).get();", "        auto* stored = payload.get();\n        if (payload.use_count() == 1) m_data.feature_payload_storage.emplace_back(std::move(payload));")
m('w_pl_replace', MID, "        m_data.feature_payloads.push_back({&info, stored, bid, priority});", "        bool found = false;\n        for (auto& f : m_data.feature_payloads) if (f.info == &info) { f = {&info, stored, bid, priority}; found = true; }\n        if (!found) m_data.feature_payloads.push_back({&info, stored, bid, priority});")
m('w_safe_add_dup', TM, "    if (!info) return nullptr;\n    add(*info);\n    return info;", "    if (!info) return nullptr;\n    if (!has(*info)) add(*info);\n    return info;")
m('w_remove_rev', TM, "    return itlib::erase_first(mixins, &info);", "    auto r = std::find(mixins.rbegin(), mixins.rend(), &info);\n    if (r == mixins.rend()) return false;\n    mixins.erase(std::next(r).base());\n    return true;")
m('w_clear_typed', O, "    clear_mixin_data();\n    m_type = &get_domain().get_empty_type();\n}", "    if (empty()) return;\n    m_type = &get_domain().get_empty_type();\n    clear_mixin_data();\n}")
