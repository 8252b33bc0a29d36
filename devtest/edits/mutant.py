E = {}
D='code/dynamix/domain.cpp'; OM='code/dynamix/object_mutation.cpp'; O='code/dynamix/object.cpp'; T='code/dynamix/type.cpp'; TM='code/dynamix/type_mutation.cpp'
def m(name, f, a, b, *more):
    E[name] = [(f, a, b)] + [tuple(x) for x in more]
# --- domain: registration
m('d_least_id_first', D, "                else {\n                    free_id = id_t{i};\n                }", "                else if (free_id == invalid) {\n                    free_id = id_t{i};\n                }")
m('d_break_missing', D, "                    free_id = id_t{i};\n                    break;", "                    free_id = id_t{i};")
m('d_reg_id_early', D, "        id_t free_id = invalid;\n", "        id_t free_id = invalid;\n        info.id = id_t{dnmx_id_int_t(sparse.size())};\n")
m('d_unreg_keep_id', D, "        info.id = decltype(info.id){dnmx_invalid_id}; // invalidate info", "")
m('d_unreg_no_own_check', D, "        if (info.iid() >= sparse.size() || sparse[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);\n\n        sparse[", "        if (info.iid() >= sparse.size() || !sparse[info.iid()]) throw_exception::unreg_foreign(m_domain, info);\n\n        sparse[")
m('d_unreg_gt', D, "        if (info.iid() >= sparse.size() || sparse[info.iid()] != &info) throw", "        if (info.iid() > sparse.size() || sparse[info.iid()] != &info) throw")
m('d_feature_setting_swapped', D, "m_element_registry.unique_lock()->sparse_features, !m_domain.m_settings.allow_duplicate_feature_names", "m_element_registry.unique_lock()->sparse_features, !m_domain.m_settings.allow_duplicate_mixin_names")
m('d_dup_enforce_reorder', D, "        if (enforce_unique_names && info.name.empty()) throw_exception::empty_name(m_domain, info);\n", "")
m('d_mixin_dom_check_dropped', D, "        if (info.dom != nullptr && info.dom != &m_domain) throw_exception::info_has_domain(m_domain, info);\n", "")
m('d_mixin_dom_before', D, "        auto reg = m_element_registry.unique_lock();\n\n        // register mixin's features", "        auto reg = m_element_registry.unique_lock();\n        info.dom = &m_domain;\n\n        // register mixin's features")
m('d_mixin_first_feature_only', D, "                // already registered\n", "                // already registered\n                if (true) break;\n")
m('d_unreg_mixin_queries_key', D, "                else if (itlib::pfind(iq->first, &info)) {", "                else if (!iq->first.empty() && iq->first.back() == &info) {")
m('d_unreg_mixin_types_first', D, "                it = types.erase(it);\n            }\n        }\n\n        auto reg", "                it = types.erase(it);\n                break;\n            }\n        }\n\n        auto reg")
m('d_unreg_mixin_dom_kept', D, "        info.id = invalid_mixin_id;\n        info.dom = nullptr;", "        info.id = invalid_mixin_id;")
m('d_unreg_mixin_nocheck', D, "            if (info.iid() >= sparse_mixins.size() || sparse_mixins[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);\n        }\n", "            if (info.iid() >= sparse_mixins.size()) throw_exception::unreg_foreign(m_domain, info);\n        }\n")
m('d_get_by_id_gt', D, "        if (id.i >= sparse.size()) return nullptr;", "        if (id.i > sparse.size()) return nullptr;")
m('d_get_by_name_nonull', D, "            if (info && info->name == name) return info;", "            if (!info) break;\n            if (info->name == name) return info;")
m('d_get_feature_from_mixins', D, "        return basic_get_by_name_l(name, m_element_registry.shared_lock()->sparse_features);", "        for (auto& info : m_element_registry.shared_lock()->sparse_features) {\n            if (info && info->name.to_std().compare(0, name.size(), name) == 0) return info;\n        }\n        return nullptr;")
m('d_tc_dup_adjacent', D, "                if (tc->name == new_tc.name) throw", "                if (tc == &new_tc) throw")
m('d_tc_unreg_byname', D, "            if (rtc == &tc) {", "            if (rtc && rtc->name == tc.name) {")
m('d_tc_matches_check', D, "        if (!new_tc.matches) throw_exception::no_func(m_domain, new_tc);\n", "")
# rules
m('d_rule_clear_only_remove', D, "        reg->type_queries.clear();\n        ++reg->rules_revision;\n    }\n    void remove", "        ++reg->rules_revision;\n    }\n    void remove")
m('d_rule_remove_noclear', D, "        reg->mutation_rules.erase(f);\n        // we can't tell which ones the rule affects, so we have to invalidate them all\n        reg->type_queries.clear();", "        reg->mutation_rules.erase(f);")
m('d_rule_rc', D, "        if (f->second > 0) return; // more refs exist", "        if (f->second > 1) return; // more refs exist")
m('d_rule_revision', D, "        reg->mutation_rules.erase(f);\n        // we can't tell which ones the rule affects, so we have to invalidate them all\n        reg->type_queries.clear();\n        ++reg->rules_revision;", "        reg->mutation_rules.erase(f);\n        // we can't tell which ones the rule affects, so we have to invalidate them all\n        reg->type_queries.clear();")
m('d_rule_prio_order', D, "return a->order_priority < b->order_priority;", "return a->order_priority > b->order_priority;")
m('d_rule_name_only', D, "            if (name_cmp != 0) return name_cmp < 0;\n            return a < b;", "            return name_cmp < 0;")
m('d_rule_apply_once', D, "                if (i == 0) return last_result; // first application changed nothing", "                if (i <= 1) return last_result; // first application changed nothing")
m('d_rule_depth', D, "            if (i == max_depenency_depth || i == int(rules.size())) {", "            if (i == max_depenency_depth && i == int(rules.size())) {")
m('d_rule_depth2', D, "max_depenency_depth = 5;", "max_depenency_depth = 2;")
m('d_rule_err_dropped', D, "                    throw_exception::mutation_rule_user_error(mutation, info, err);", "                    if (err < 0) throw_exception::mutation_rule_user_error(mutation, info, err);")
m('d_rule_userdata', D, "info.apply(mutation.to_c_hanlde(), info.user_data)", "info.apply(mutation.to_c_hanlde(), m_domain.user_data)")
m('d_rule_deps_not_erased', D, "        itlib::erase_all_if(nt_mixins, [](const mixin_info* m) { return m->dependency; });", "        if (!rules.empty()) itlib::erase_all_if(nt_mixins, [](const mixin_info* m) { return m->dependency; });")
m('d_rule_orig_query', D, "                original_query.swap(last_result);", "                original_query = nt_mixins;")
m('d_rule_last_result', D, "            last_result = nt_mixins;\n        }\n    }", "            if (i == 0) last_result = nt_mixins;\n        }\n    }")
m('d_get_type_foreign', D, "        if (&mutation.dom != &m_domain) throw_exception::foreign_mutation(m_domain, mutation);\n", "")
m('d_get_type_empty', D, "            if (mutation.mixins.empty()) {\n                found = &m_empty_type;", "            if (original_query.empty()) {\n                found = &m_empty_type;")
m('d_get_type_rev_check', D, "            if (reg->rules_revision == rules_revision) reg->type_queries[std::move(original_query)] = found;", "            reg->type_queries[std::move(original_query)] = found;")
m('d_get_type_store_key', D, "reg->type_queries[std::move(original_query)] = found;", "reg->type_queries[mutation.mixins] = found;")
m('d_get_type_rev_late', D, "            rules_revision = reg->rules_revision;\n            original_query", "            original_query", (D, "            auto reg = m_type_registry.unique_lock();\n            if (reg->rules_revision == rules_revision)", "            auto reg = m_type_registry.unique_lock();\n            rules_revision = reg->rules_revision;\n            if (reg->rules_revision == rules_revision)"))
m('d_span_less_size_only', D, "    if (as != bs) return as < bs;", "    if (as != bs) return as > bs;")
m('d_span_less_first', D, "    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());\n}\n//bool", "    return as && a[0] < b[0];\n}\n//bool")
# create_type
m('d_ct_dup_adjacent', D, "            for (size_t j = i + 1; j < mixins.size(); ++j) {", "            for (size_t j = i + 1; j < mixins.size() && j < i + 2; ++j) {")
m('d_ct_unreg', D, '            if (m->id == invalid_mixin_id) throw_exception::type_mut_error(mutation, "unregistered", *m);\n', '')
m('d_ct_foreign', D, "            if (m->dom != &m_domain) throw_exception::foreign_mixin(mutation, *m);", "            if (m->dom && m->dom != &m_domain) throw_exception::foreign_mixin(mutation, *m);")
m('d_ct_size', D, "            + mixin_offsets_buf_size\n            + sparse", "            + sparse")
m('d_ct_maxid', D, "return a->iid() < b->iid();", "return a->iid() <= b->iid() && a->size < b->size;")
m('d_ct_numsparse', D, "            return (*max_by_id)->iid() + 1;", "            return (*max_by_id)->iid();")
m('d_ct_padding', D, "            if (padding < sizeof_ptr) padding += ma;", "            if (padding == 0) padding += ma;")
m('d_ct_align_max', D, "            if (ma > obj_buf_alignment) obj_buf_alignment = ma;\n            else if", "            if (ma > sizeof_ptr) obj_buf_alignment = ma;\n            else if")
m('d_ct_ext_size', D, "                mo = 0;\n                continue;", "                mo = 0;\n                obj_buf_size += 0 * sizeof_ptr;\n                if (m->alignment > obj_buf_alignment) obj_buf_alignment = m->alignment;\n                continue;")
m('d_ct_offset_before', D, "            mo = obj_buf_size; // mixin offset is here\n\n            obj_buf_size += m->size;", "            obj_buf_size += m->size;\n            mo = obj_buf_size; // mixin offset is here\n")
m('d_ct_fill', D, "        std::fill(sparse_mixin_indices.begin(), sparse_mixin_indices.end(), invalid_mixin_index);", "        std::fill(sparse_mixin_indices.begin(), sparse_mixin_indices.end() - 1, invalid_mixin_index);")
m('d_ct_objsize', D, "byte_size_t obj_buf_size = byte_size_t(mixins.size() * sizeof(object_mixin_data));", "byte_size_t obj_buf_size = byte_size_t(mixins.size() * sizeof_ptr);")
m('d_ct_dealloc_size', D, "deallocate_bytes(vptr, ptr->buf_size, alignof(type));", "deallocate_bytes(vptr, sizeof(type), alignof(type));")
m('d_ct_query_norev', D, "        if (reg->rules_revision == rules_revision) reg->type_queries[std::move(query)] = reg_type;", "        reg->type_queries[std::move(query)] = reg_type;")
m('d_ct_res_get', D, "        const type* reg_type = res.first->get();", "        const type* reg_type = new_type ? new_type.get() : res.first->get();")
# ftable
m('d_ft_bid', D, "if (adata.bid != bdata.bid) return adata.bid > bdata.bid;", "if (adata.bid != bdata.bid) return adata.bid < bdata.bid;")
m('d_ft_prio', D, "return adata.priority < bdata.priority;", "return adata.priority > bdata.priority;")
m('d_ft_mixin_order', D, "return a.mixin_index > b.mixin_index;", "return a.mixin_index < b.mixin_index;")
m('d_ft_clash_bid', D, "if (cur.data->bid == next.data->bid && cur.data->priority == next.data->priority) {", "if (cur.data->bid == next.data->bid && cur.data->bid == 0 && cur.data->priority == next.data->priority) {")
m('d_ft_clash_last', D, "ie != entry.end - 1; ++ie", "ie + 2 < entry.end; ++ie")
m('d_ft_topback', D, "                    if (pl->data->bid != entry.top_bid_back->data->bid) {", "                    if (pl->data->bid != entry.begin->data->bid || pl->data->priority != entry.begin->data->priority) {")
m('d_ft_maxid', D, "                    if (size_with > ftable_size) {", "                    if (size_with >= ftable_size + 1 && feature.payload) {")
m('d_ft_entry_begin', D, "                        ftable_pl_ptr += num_reachable;", "                        ftable_pl_ptr += 1;")
m('d_ft_payload', D, "                    entry.end->payload = feature.payload;", "                    entry.end->payload = finfo.default_payload;")
# gc
m('d_gc_sense', D, "            if (t->num_objects() > 0) {", "            if (t->num_objects() > 1) {")
m('d_gc_queries_break', D, "                if (iq->second == it->get()) {\n                    iq = queries.erase(iq);\n                }", "                if (iq->second == it->get()) {\n                    queries.erase(iq);\n                    break;\n                }")
m('d_gc_queries_all', D, "                if (iq->second == it->get()) {\n", "                if (iq->second->num_objects() == 0) {\n")
m('d_traverse_null', D, "        if (tc) func(*tc);", "        func(*tc);")
m('d_traverse_types', D, "    for (auto& t : m_impl->tr->types) {\n        func(*t);", "    for (auto& t : m_impl->tr->types) {\n        if (t->num_objects()) func(*t);")
m('d_dom_canon', D, "        std::numeric_limits<int32_t>::max()\n", "        0\n")
m('d_num_queries', D, "m_type_registry.shared_lock()->type_queries.size();", "m_type_registry.shared_lock()->types.size();")
# --- object_mutation
m('om_sealed_after', OM, '    if (m_object.m_sealed) throw_exception::obj_mut_sealed_object(obj.get_type(), "mutate");\n    allocate_mixin_data();', '    allocate_mixin_data();\n    if (m_object.m_sealed && m_target_mixin_data) throw_exception::obj_mut_sealed_object(obj.get_type(), "mutate");\n    m_complete = false;')
m('om_nosealed', OM, '    if (m_object.m_sealed) throw_exception::obj_mut_sealed_object(obj.get_type(), "mutate");\n', '')
m('om_dtor_norollback', OM, "    catch (...) {\n        rollback();\n        throw;", "    catch (...) {\n        deallocate_mixin_data();\n        m_moved_out_from = true;\n        throw;")
m('om_dtor_swallow', OM, "        throw; // forward the exception to the outside world", "        return;")
m('om_dtor_uncaught', OM, "    if (std::uncaught_exceptions() > m_uncaught_exceptions) {", "    if (std::uncaught_exceptions() > 0) {")
m('om_alloc_size', OM, "        info.obj_buf_size,\n        info.obj_buf_alignment_and_mixin_offset\n    ));", "        info.size + sizeof_ptr,\n        info.obj_buf_alignment_and_mixin_offset\n    ));")
m('om_ext_common_index', OM, "data = m_old_mixin_data[m_old_type->sparse_mixin_indices[info.iid()]];", "data = m_old_mixin_data[ti];")
m('om_ext_noalloc', OM, "                if (auto m_alloc = info.allocator) {", "                if (auto m_alloc = info.allocator; m_alloc && !info.force_external) {")
m('om_set_object', OM, "                data.mixin = data.buf + info.obj_buf_alignment_and_mixin_offset;\n                data.set_object(&m_object);", "                data.mixin = data.buf + info.obj_buf_alignment_and_mixin_offset;")
m('om_dealloc_common', OM, "        if (m_old_mixin_data && m_old_type->has(info.id)) {\n            // we have that type\n            // it was not allocated here\n            continue;\n        }\n", "")
m('om_dealloc_off', OM, "    for (mixin_index_t ti = m_allocated_upto; ti-- > 0; ) {\n        auto& data", "    for (mixin_index_t ti = m_allocated_upto; ti-- > 1; ) {\n        auto& data")
m('om_dealloc_count', OM, "    // reverse order of allocation\n    for (mixin_index_t ti = m_allocated_upto;", "    // reverse order of allocation\n    for (mixin_index_t ti = m_target_type.num_mixins();")
m('om_destroy_count', OM, "    for (mixin_index_t ti = m_updated_upto; ti-- > 0; ) {\n        const auto& info", "    for (mixin_index_t ti = m_allocated_upto; ti-- > 0; ) {\n        const auto& info")
m('om_destroy_common', OM, "        if (m_old_mixin_data && m_old_type->has(info.id)) continue; // not new\n", "")
m('om_destroy_return', OM, "        if (!info.destroy) continue; // no destructor", "        if (!info.destroy) break; // no destructor")
m('om_rollback_order', OM, "        destroy_new_mixins();\n        deallocate_mixin_data();\n    }\n    m_moved_out_from", "        deallocate_mixin_data();\n        destroy_new_mixins();\n    }\n    m_moved_out_from")
m('om_rollback_flag', OM, "        deallocate_mixin_data();\n    }\n    m_moved_out_from = true;", "        deallocate_mixin_data();\n        m_moved_out_from = true;\n    }")
m('om_fin_nodestroy_moved', OM, "                // desroy the one we moved-out from\n                if (auto destroy = info.destroy) {\n                    destroy(&info, old_data.mixin);\n                }\n", "")
m('om_fin_ext_move', OM, "                if (old_data.buf) continue; // external: already in new buf\n", "                if (old_data.buf && info.allocator) continue; // external: already in new buf\n")
m('om_fin_idx', OM, "m_target_mixin_data[m_target_type.sparse_mixin_indices[info.iid()]].mixin;\n                info.move_init", "m_target_mixin_data[oi].mixin;\n                info.move_init")
m('om_fin_leak_old', OM, "                if (!old_data.buf) continue; // internal: no dealloc needed\n", "                if (!old_data.buf || !info.destroy) continue; // internal: no dealloc needed\n")
m('om_fin_dealloc_allocator', OM, "                if (auto* alloc = info.allocator) {\n                    // allocated by mixin allocator\n                    mixin_allocator::from_c_handle(alloc)->dealloc_mixin_buf(old_data.buf, info);\n                }\n                else {\n                    // allocated by the own allocator\n                    deallocate_external_mixin(old_data.buf, info);\n                }\n            }\n        }", "                deallocate_external_mixin(old_data.buf, info);\n            }\n        }")
m('om_fin_type_guard', OM, "    m_object.m_type = &m_target_type;\n    m_object.m_mixin_data = m_target_mixin_data;", "    m_object.m_mixin_data = m_target_mixin_data;\n    if (m_target_mixin_data) m_object.m_type = &m_target_type;")
m('om_fin_buf_type', OM, "        m_old_type->deallocate_object_buffer(m_object.m_allocator, m_old_mixin_data);", "        m_target_type.deallocate_object_buffer(m_object.m_allocator, m_old_mixin_data);")
m('om_default_err', OM, '    if (err) throw_exception::obj_mut_user_error(args.target_type, "mutate to", "deafult init", info, err);', '    (void)err;')
m('om_default_missing', OM, '    if (!info.init) throw_exception::obj_mut_error(args.target_type, "mutate to", "missing default init", info);', '    if (!info.init) return;')
m('om_inv', OM, "    , m_updated_upto(obj.get_type().num_mixins())\n{}", "    , m_updated_upto(0)\n{}")
H='code/dynamix/object_mutation.hpp'
m('omh_complete', H, "        m_complete = (m_updated_upto == m_target_type.num_mixins());", "        m_complete = (m_updated_upto + 1 >= m_target_type.num_mixins());")
m('omh_inc_before', H, "        auto ti = m_updated_upto;\n", "        auto ti = m_updated_upto++;\n", (H, "        ++m_updated_upto;\n        m_complete", "        m_complete"))
m('omh_common_buf', H, "            auto mixin = m_old_mixin_data[oi].mixin;\n", "            auto mixin = m_target_mixin_data[ti].mixin;\n")
m('omh_at_range', H, "if (index < m_updated_upto || index > m_target_type.num_mixins()) {", "if (index > m_target_type.num_mixins()) {")
m('omh_at_nodefault', H, "        default_construct_each_new_mixin(index);\n        update_next", "        default_construct_each_new_mixin(index + 1);\n        update_next")
m('omh_upto', H, "        if (upto_index > m_target_type.num_mixins()) upto_index = m_target_type.num_mixins();\n", "")
m('omh_perform', H, "    mut.construct_each_new_mixin(std::forward<ConstructNew_Func>(construct_new));\n}", "    mut.default_construct_each_new_mixin(mixin_index_t(0));\n    mut.construct_each_new_mixin(std::forward<ConstructNew_Func>(construct_new), 1);\n}")
# --- object
m('o_move_seal', O, "    m_sealed = other.m_sealed;\n", "")
m('o_move_setobj', O, "    for (size_t i = 0; i < num_mixins(); ++i) {\n        m_mixin_data[i].set_object(this);\n    }", "    for (size_t i = 1; i < num_mixins(); ++i) {\n        m_mixin_data[i].set_object(this);\n    }")
m('o_move_src_type', O, "    other.m_type = &get_domain().get_empty_type();\n", "")
m('o_asgn_seal', O, '        if (m_sealed) throw_exception::obj_mut_sealed_object(get_type(), "move assign");\n', "")
m('o_asgn_self', O, "    if (&o == this) return *this; // prevent self-usurp\n", "")
m('o_asgn_alloc', O, "    if (m_allocator == o.m_allocator) {", "    if (m_allocator == o.m_allocator || o.empty()) {")
m('o_asgn_noclear', O, "        clear_mixin_data();\n        usurp(o);", "        if (m_type != o.m_type) clear_mixin_data();\n        usurp(o);")
m('o_ctor_seal', O, "    reset_type(type);\n    m_sealed = create_sealed;", "    m_sealed = create_sealed;\n    reset_type(type);")
m('o_copy_index', O, "        auto source = m_mixin_data[args.target_index].mixin;\n        auto& info = args.info;", "        auto source = m_mixin_data[0].mixin;\n        auto& info = args.info;")
m('o_copy_err', O, '        if (err) throw_exception::obj_mut_user_error(mtype, "copy", "copy init", info, err);\n', '        (void)err;\n')
m('o_copy_alloc', O, "    object ret(nullptr, alloc);\n\n    if (empty())", "    object ret(nullptr, m_allocator);\n\n    if (empty())")
m('o_copyfrom_seal', O, '        if (m_sealed) throw_exception::obj_mut_sealed_object(get_type(), "copy_from");\n', '')
m('o_copyfrom_check', O, '            if (!info->copy_init) throw_exception::obj_mut_error(tt, "copy_from", "missing copy init", *info);', '            if (!info->copy_init && !info->copy_asgn) throw_exception::obj_mut_error(tt, "copy_from", "missing copy init", *info);')
m('o_copyfrom_noasgn', O, "            auto err = args.info.copy_asgn(&args.info, args.mixin_buf, source);", "            auto err = args.info.copy_init(&args.info, args.mixin_buf, source);")
m('o_copyfrom_srcidx', O, "        [&](update_common_args args) {\n            auto source = o.m_mixin_data[args.target_index].mixin;", "        [&](update_common_args args) {\n            auto source = o.m_mixin_data[args.source_index].mixin;")
m('o_cm_check_late', O, '            if (!info->copy_asgn) throw_exception::obj_mut_error(mtype, "copy_matching_from", "missing copy assign", *info);', '            if (!info->copy_asgn && !info->copy_init) throw_exception::obj_mut_error(mtype, "copy_matching_from", "missing copy assign", *info);')
m('o_cm_break', O, "        if (own_index == invalid_mixin_index) continue;\n        auto err = info.copy_asgn", "        if (own_index == invalid_mixin_index) break;\n        auto err = info.copy_asgn")
m('o_cm_err', O, '        if (err) throw_exception::obj_mut_user_error(mtype, "copy_matching_from", "copy assign", info, err);\n', '        if (err && src_index + 1 < otype.mixins.size()) throw_exception::obj_mut_user_error(mtype, "copy_matching_from", "copy assign", info, err);\n')
m('o_mm_fallback', O, "            if (fallback_to_init && info->move_init) continue;", "            if (info->move_init) continue;")
m('o_mm_destroy', O, "            if (info.destroy) info.destroy(&info, m_mixin_data[own_index].mixin);", "            if (info.destroy) info.destroy(&info, o.m_mixin_data[src_index].mixin);")
m('o_eq_type', O, "    if (m_type != other.m_type) return false;\n", "    if (num_mixins() != other.num_mixins()) return false;\n")
m('o_eq_nofunc', O, "        else {\n            return false;\n        }\n    }\n\n    return true;", "    }\n\n    return true;")
m('o_eq_last', O, "for (size_t index = 0; index < num_mixins(); ++index) {\n        auto& info = *get_type()", "for (size_t index = 0; index + 1 < num_mixins() || index == 0; ++index) {\n        auto& info = *get_type()")
m('o_cmp_missing', O, 'if (!info.compare) throw_exception::obj_mut_error(get_type(), "compare", "missing compare", info);', 'if (!info.compare) continue;')
m('o_cmp_dir', O, "if (auto cmp = info.compare(&info, own_mixin, other_mixin)) return cmp;", "if (auto cmp = info.compare(&info, other_mixin, own_mixin)) return cmp;")
m('o_clear_seal', O, '    if (m_sealed) throw_exception::obj_mut_sealed_object(get_type(), "clear");\n', '')
m('o_clear_type', O, "    clear_mixin_data();\n    m_type = &get_domain().get_empty_type();", "    if (empty()) return;\n    clear_mixin_data();\n    m_type = &get_domain().get_empty_type();\n    m_sealed = true;")
m('o_reset_seal_order', O, '    if (m_sealed) throw_exception::obj_mut_sealed_object(get_type(), "reset_type");\n    if (&type == m_type) return; // noop', '    if (&type == m_type) return; // noop\n    if (m_sealed && type.num_mixins()) throw_exception::obj_mut_sealed_object(get_type(), "reset_type");')
m('o_clear_data_null', O, "    t.rollback();\n    m_mixin_data = nullptr;", "    t.rollback();")
m('o_get_info_name', O, "void* object::get(const mixin_info& info) noexcept {\n    return get(info.id);", "void* object::get(const mixin_info& info) noexcept {\n    return get(info.name.to_std());")
m('o_has', O, "bool object::has(const mixin_info& info) const noexcept {\n    return get_type().has(info.id);", "bool object::has(const mixin_info& info) const noexcept {\n    return get_type().index_of(info.id) < num_mixins() - 1;")
m('oh_get_at', 'code/dynamix/object.hpp', "        if (index < num_mixins()) return unchecked_get_at(index);", "        if (index <= num_mixins()) return unchecked_get_at(index);")
m('oh_empty', 'code/dynamix/object.hpp', "return !m_mixin_data; }", "return !m_mixin_data || !num_mixins() || m_sealed; }")
# --- type
m('t_index_name', T, "        if (mixins[i]->name == name) return i;", "        if (mixins[i]->name.to_std().find(name) == 0) return i;")
m('t_impl_strong', T, "        if (!e) continue;\n", "        if (!e) break;\n")
m('t_impl_default', T, "    if (info.default_payload) return true;\n    return implements_strong(info.id);", "    if (info.default_payload && !mixins.empty()) return true;\n    return implements_strong(info.id);")
m('t_next_impl', T, "    if (f == fe.end) return nullptr; // provided mixin was the last", "    if (f > fe.top_bid_back) return nullptr; // provided mixin was the last")
m('t_next_set_end', T, "while (end != fe.end && end->data->bid == f->data->bid) ++end;", "while (end != fe.end && end->data->bid == fbid) ++end;")
m('t_next_set_find', T, "while (f != fe.end && f->data->bid == fbid) ++f;", "++f; if (f != fe.end && f->data->bid == fbid) ++f;")
m('t_isof', T, "    if (!tc) throw_exception::unknown_type_class(*this, name);\n    return", "    if (!tc) return false;\n    return")
m('t_cmp_dom', T, "    if (&dom != &other.dom) return &dom < &other.dom ? -1 : 1;\n", "")
m('t_cmp_len', T, "        if (o == oend) return 1;\n", "        if (o == oend) return -1;\n")
m('t_cmp_cont', T, "        if (*m != *o) {\n            canonical_mixin_order cmp;\n            return cmp(*m, *o) ? -1 : 1;", "        if ((*m)->order_priority != (*o)->order_priority) {\n            canonical_mixin_order cmp;\n            return cmp(*m, *o) ? -1 : 1;")
m('t_copyable', T, "return !!m->copy_asgn; });", "return m->copy_asgn || m->copy_init; });")
m('t_eqcmp', T, "return m->equals || m->compare; });", "return m->equals && m->compare; });")
m('t_defctor_any', T, "return itlib::qall_of(mixins, [](const mixin_info* m) { return !!m->init; });", "return !mixins.empty() && itlib::qall_of(mixins, [](const mixin_info* m) { return !!m->init; });")
m('t_alloc_count_first', T, "    auto ret = alloc.allocate_bytes(object_buffer_size, object_buffer_alignment);\n    ++m_num_objects;", "    ++m_num_objects;\n    auto ret = alloc.allocate_bytes(object_buffer_size, object_buffer_alignment);")
m('t_dealloc_align', T, "alloc.deallocate_bytes(ptr, object_buffer_size, object_buffer_alignment);", "alloc.deallocate_bytes(ptr, object_buffer_size);")
m('th_index_of', 'code/dynamix/type.hpp', "if (id.i >= sparse_mixin_indices.size()) return", "if (id.i > sparse_mixin_indices.size()) return")
m('th_copyable', 'code/dynamix/type.hpp', "return copy_assignable() && copy_constructible();", "return copy_assignable() || copy_constructible();")
m('th_lacks_name', 'code/dynamix/type.hpp', "lacks(std::string_view name) const noexcept { return !has(name); }", "lacks(std::string_view name) const noexcept { return index_of(name) != 0; }")
# --- type_mutation
m('tm_toback_swap', TM, "    vec.erase(i);\n    vec.push_back(val);", "    *i = vec.back();\n    vec.back() = val;")
m('tm_remove_all', TM, "    return itlib::erase_first(mixins, &info);", "    return itlib::erase_all(mixins, &info) > 0;")
m('tm_remove_name', TM, "    auto ret = *f;\n    mixins.erase(f);\n    return ret;", "    mixins.erase(f);\n    return *f;")
m('tm_dedup_later', TM, "                info = nullptr;\n", "                *j = nullptr;\n")
m('tm_toback_missing', TM, '        throw_exception::type_mut_error(*this, "to_back on missing mixin", info);', '        return;')
m('tm_lacking_dup', TM, "    auto f = itlib::pfind_if(mixins, by_name);\n    if (f) return nullptr;\n    return safe_add(name);", "    auto f = itlib::pfind_if(mixins, by_name);\n    if (f) return *f;\n    return safe_add(name);")
m('tm_add_order', TM, '    auto info = dom.get_mixin_info(name);\n    if (!info) return nullptr;\n    add(*info);', '    auto info = dom.get_mixin_info(name);\n    if (!info) return nullptr;\n    mixins.insert(mixins.begin(), info);')
m('tm_impl', TM, "    if (info.default_payload) return true;\n    return implements_strong(info);", "    return implements_strong(info) && !info.default_payload;")
m('tm_base_dom', TM, "    : type_mutation(base.dom, alloc)\n{\n    mixins.assign(base.mixins.begin(), base.mixins.end());", "    : type_mutation(base.dom, alloc)\n{\n    if (!base.mixins.empty()) mixins.assign(base.mixins.begin(), base.mixins.end() - 1);")
# --- mutate
MU='code/dynamix/mutate.hpp'; MT='code/dynamix/mutate_to.hpp'
m('mu_grad_cancel', MU, "    void cancel() {\n        m_applied = true;", "    void cancel() {\n        m_applied = false;")
m('mu_grad_late_flag', MU, "        m_applied = true;\n        auto& type = m_obj.get_domain().get_type(std::move(m_type_mut));\n        m_obj.reset_type(type);", "        auto& type = m_obj.get_domain().get_type(std::move(m_type_mut));\n        m_obj.reset_type(type);\n        m_applied = true;")
m('mu_grad_dtor', MU, "        if (std::uncaught_exceptions() > m_uncaught_exceptions) return;\n", "        if (std::uncaught_exceptions()) return;\n")
m('mt_noop', MT, "    if (obj.get_type() == type) return; // noop\n", "")
m('mt_sort', MT, "        return a->mixin_index < b->mixin_index;", "        return a->mixin_index > b->mixin_index;")
m('mt_missing', MT, "        if (index == invalid_mixin_index) return true; // mixin which was removed by rules\n", "")
m('mt_sort_drop', MT, "    std::sort(obj_mutates, obj_mutates_end,", "    std::sort(obj_mutates, obj_mutates + (obj_mutates_end - obj_mutates) / 2,")
m('mo_remove', 'code/dynamix/mutate_ops.hpp', "void apply_to_type_mutation(type_mutation& mut) { mut.remove(name); }", "void apply_to_type_mutation(type_mutation& mut) { if (mut.mixins.size() > 1) mut.remove(name); }")
m('mo_info_name', 'code/dynamix/mutate_ops.hpp', "{ this->affected_info = &mut.add(name); }", "{ this->affected_info = mut.safe_add(name); }")
m('omo_args', 'code/dynamix/object_mutate_ops.hpp', "impl::make_from_tuple<Mixin>(args.mixin_buf, std::move(args_tup));", "impl::make_from_tuple<Mixin>(args.mixin_buf, args_tup);")
m('mto_byname', 'code/dynamix/mutate_to_ops.hpp', "        this->affected_info = obj.get_domain().get_mixin_info(name);\n", "        if (!obj.has(name)) this->affected_info = obj.get_domain().get_mixin_info(name);\n")
MC='code/dynamix/mutate-c.cpp'
m('mc_name', MC, "                if (ov.mixin) return ov.mixin == m;\n                return ov.mixin_name == m->name;", "                return ov.mixin == m || ov.mixin_name == m->name;")
m('mc_err', MC, "                    if (err) {\n                        throw_exception::obj_mut_user_error(args.target_type, \"mutate_to\", \"update\", args.info, err);\n                    }", "                    (void)err;")
m('mc_src_index', MC, "&args.target_type, &args.source_type, args.target_index, args.source_index, o->user_data", "&args.target_type, &args.source_type, args.source_index, args.target_index, o->user_data")
m('mc_default_ret', MC, "            default:\n                return -1;", "            default:\n                break;")
m('mc_op', MC, "                if (op.op_type != dnmx_mutate_op_add) return false; // only collect add ops\n", "")
m('mc_init_override', MC, "                if (!op.init_override) return false; // ... which have an init override\n", "")
# --- builder & infos
MI='code/dynamix/mixin_info_data.hpp'; MIC='code/dynamix/mixin_info_data.cpp'; MIU='code/dynamix/mixin_info_util.hpp'; FD='code/dynamix/feature_info_data.hpp'
m('mi_perks_prio', MI, "int32_t priority = perks_a.priority.value_or(perks_b.priority.value_or(0));", "int32_t priority = perks_a.priority.value_or(0);")
m('mi_perks_swap', MI, "int32_t bid = perks_a.bid.value_or(perks_b.bid.value_or(0));", "int32_t bid = perks_b.bid.value_or(perks_a.bid.value_or(0));")
m('mi_setfeat', MI, "        m_data.info.set_features(m_data.feature_payloads);\n", "        if (m_data.feature_payloads.size() == 1) m_data.info.set_features(m_data.feature_payloads);\n")
m('mi_storename', MI, "        m_data.stored_name = sname;\n        return name(m_data.stored_name);", "        m_data.stored_name = sname;\n        return name(sname);")
m('mi_alloc', MI, "        m_data.stored_alloc = alloc;\n", "")
m('mi_dep_arg', MI, "        m_data.info.dependency = b;", "        m_data.info.dependency = true; (void)b;")
m('mi_rule_dep', MI, "        m_data.mutation_rule_infos.push_back(&rule);\n        m_data.info.dependency = true;", "        m_data.mutation_rule_infos.push_back(&rule);")
m('mi_rule_prio', MI, "        int32_t priority = perks.priority.value_or(0);\n", "        int32_t priority = perks.bid.value_or(0);\n")
m('mi_rule_name_dangling', MI, "dnmx_sv::from_std(stored_name), apply, user_data, priority});", "m_data.info.name, apply, user_data, priority}); (void)stored_name;")
m('mi_onmut_dep', MI, "        if (r.makes_dependency) {\n            m_data.info.dependency = true;\n        }", "        m_data.info.dependency = r.makes_dependency;")
m('mi_onmut_name_idx', MI, "        stored_name += std::to_string(m_data.mutation_rule_infos.size());\n        stored_name += '>';", "        stored_name += std::to_string(m_data.feature_payloads.size());\n        stored_name += '>';")
m('mi_onmut_prio', MI, "        info.order_priority = perks.priority.value_or(0);\n", "")
m('mi_rule_vec', MI, "compat::pmr::deque<mutation_rule_info> mutation_rule_info_storage;", "compat::pmr::vector<mutation_rule_info> mutation_rule_info_storage;")
m('mi_pl_vec', MI, "compat::pmr::deque<compat::pmr::string> mutation_rule_info_names_storage;", "compat::pmr::vector<compat::pmr::string> mutation_rule_info_names_storage;")
m('mic_rollback', MIC, "        while (num_added-- > 0) {", "        while (--num_added > 0) {")
m('mic_order', MIC, "    dom.unregister_mixin(info);\n    for (auto* r : mutation_rule_infos) {\n        dom.remove_mutation_rule(*r);\n    }", "    for (auto* r : mutation_rule_infos) {\n        dom.remove_mutation_rule(*r);\n    }\n    dom.unregister_mixin(info);")
m('mic_unreg_rules', MIC, "    dom.unregister_mixin(info);\n    for (auto* r : mutation_rule_infos) {\n        dom.remove_mutation_rule(*r);\n    }", "    dom.unregister_mixin(info);\n    if (info.dependency) for (auto* r : mutation_rule_infos) {\n        dom.remove_mutation_rule(*r);\n    }")
m('miu_nothrow', MIU, "else if constexpr (std::is_nothrow_move_constructible_v<Mixin>) info.move_init", "else if constexpr (std::is_move_constructible_v<Mixin>) info.move_init")
m('miu_dtor', MIU, "if constexpr (!std::is_trivially_destructible_v<Mixin>) info.destroy", "if constexpr (!std::is_trivially_copyable_v<Mixin> && !std::is_trivially_destructible_v<Mixin> && std::is_copy_constructible_v<Mixin>) info.destroy")
m('miu_copyasgn', MIU, "if constexpr (std::is_trivially_copy_assignable_v<Mixin>) info.copy_asgn = &dnmx_mixin_common_copy_func;\n", "if constexpr (std::is_trivially_copy_constructible_v<Mixin>) info.copy_asgn = &dnmx_mixin_common_copy_func;\n")
m('miu_align', MIU, "info.set_size_alignment(sizeof(Mixin), alignof(Mixin));", "info.set_size_alignment(sizeof(Mixin), alignof(void*));")
m('miu_valueinit', MIU, "*reinterpret_cast<Mixin*>(target) = std::move(*reinterpret_cast<Mixin*>(source));", "*reinterpret_cast<Mixin*>(target) = *reinterpret_cast<Mixin*>(source);")
m('miu_eq', MIU, "    return *reinterpret_cast<const Mixin*>(a) == *reinterpret_cast<const Mixin*>(b);", "    return *reinterpret_cast<const Mixin*>(a) == *reinterpret_cast<const Mixin*>(a);")
m('miu_void_cmp', MIU, "        info.compare = &dnmx_mixin_noop_cmp_func;\n", "")
m('fd_default', FD, "        m_data.default_payload_storage = storage;\n        m_data.info.default_payload = m_data.default_payload_storage.get();", "        m_data.info.default_payload = storage.get();")
m('fd_name', FD, "        m_data.stored_name = std::string(sname);\n        return name(m_data.stored_name);", "        m_data.stored_name = std::string(sname);\n        return name(std::string_view(m_data.stored_name.c_str()));")
m('lit_neg', 'code/dynamix/mixin_info_data_literals.hpp', "        if (ret.priority) *ret.priority = -*ret.priority;\n", "")
m('lit_prio', 'code/dynamix/mixin_info_data_literals.hpp', "return {std::nullopt, p}; }", "return {p, std::nullopt}; }")
m('dm_inst', 'code/dynamix/define_mixin.hpp', "        if (auto dom = data.info.dom) {\n", "        if (auto dom = data.info.dom; dom && !data.info.dependency) {\n")
m('dtc_unreg', 'code/dynamix/define_type_class.hpp', "        dom.unregister_type_class(tc);\n", "")
m('cmr_attach', 'code/dynamix/common_mutation_rules.hpp', "            &priv::apply_basic_mixin_dep<Primary, Dependent>,\n            false", "            &priv::apply_basic_mixin_dep<Primary, Dependent>,\n            true")
m('cmr_swap', 'code/dynamix/common_mutation_rules.hpp', "            &priv::apply_basic_mixin_dep<Primary, Dependent>,\n            true", "            &priv::apply_basic_mixin_dep<Dependent, Primary>,\n            true")
m('cmr_add', 'code/dynamix/common_mutation_rules.hpp', "        mut->add_if_lacking<Dependent>();", "        mut->add<Dependent>();")
m('any_fwd', 'code/dynamix/any.hpp', "    return t_any<T>(any{}, &ref);", "    return std::make_shared<T>(ref);")
m('any_alloc', 'code/dynamix/any.hpp', "return std::allocate_shared<typename std::remove_reference<T>::type>(alloc, std::forward<T>(t));", "return std::make_shared<typename std::remove_reference<T>::type>(std::forward<T>(t));")
m('any_move', 'code/dynamix/any.hpp', "(alloc, std::forward<T>(t));", "(alloc, std::move(t));")
m('au_multiple', 'code/dynamix/alloc_util.hpp', "((s + n - 1) / n)", "((s + n) / n)")
m('au_multiple2', 'code/dynamix/alloc_util.hpp', "    return ((s + n - 1) / n) // divide rounding up\n        * n;  // and scale", "    return (s + n - 1) & ~(n - 1);")
# --- messages
MSG='code/dynamix/msg/msg_caller.hpp'; NX='code/dynamix/msg/next_impl.hpp'; TR='code/dynamix/msg/msg_traits.hpp'
m('msg_uni_back', MSG, "            auto& top = *fe.begin; // top bid", "            auto& top = *fe.top_bid_back; // top bid")
m('msg_multi_fwd', MSG, "            for (auto i = fe.top_bid_back; i != fe.begin; --i) {\n                call(", "            for (auto i = fe.begin + 1; i <= fe.top_bid_back; ++i) {\n                call(")
m('msg_multi_all', MSG, "            for (auto i = fe.top_bid_back; i != fe.begin; --i) {\n                call(", "            for (auto i = fe.end - 1; i != fe.begin; --i) {\n                call(")
m('msg_multi_fwdargs', MSG, "                call(*i, obj, args...); // args are copied! return value is ignored", "                call(*i, obj, std::forward<Args>(args)...); // args are copied! return value is ignored")
m('msg_comb_stop', MSG, "                if (!combinator.add_result(call(*i, obj, args...))) { // args are copied!\n                    return;\n                };", "                if (!combinator.add_result(call(*i, obj, args...))) { // args are copied!\n                    break;\n                };")
m('msg_comb_num', MSG, "size_t(fe.top_bid_back - fe.begin) + 1", "size_t(fe.end - fe.begin)")
m('msg_default', MSG, "        if (!info.default_payload) {", "        if (!info.default_payload && !obj.get_type().num_mixins()) {")
m('msg_index', MSG, "obj.unchecked_get_at(pl.mixin_index);", "obj.get_at(pl.mixin_index ? pl.mixin_index : 0);")
m('msg_index2', MSG, "obj.unchecked_get_at(pl.mixin_index);", "obj.unchecked_get_at(mixin_index_t(&pl - obj.get_type().ftable_at(pl.data->info->id).begin));")
m('nx_first', NX, "    for (auto i = back; i != begin; --i) {", "    for (auto i = back; i > begin + 1; --i) {")
m('nx_top', NX, "traits::caller::call(*next.begin(), *obj,", "traits::caller::call(*(next.end() - 1), *obj,")
m('nx_has', NX, "    return !!obj->get_type().find_next_implementer(Msg::info, g::get_mixin_info<std::remove_cv_t<Mixin>>());", "    return !obj->get_type().find_next_bidder_set(Msg::info, g::get_mixin_info<std::remove_cv_t<Mixin>>()).empty();")
m('tr_uni', TR, "        return caller::call_multicast(Msg::info, obj, std::forward<Args>(args)...);", "        return caller::call_unicast(Msg::info, obj, std::forward<Args>(args)...);")
m('mft_fwd', 'code/dynamix/bits/make_from_tuple.hpp', "new (ptr) T(std::get<I>(std::forward<Tuple>(tup))...);", "new (ptr) T(std::get<I>(tup)...);")
m('mft_move', 'code/dynamix/bits/make_from_tuple.hpp', "new (ptr) T(std::get<I>(std::forward<Tuple>(tup))...);", "new (ptr) T(std::get<I>(std::move(tup))...);")
m('mft_brace', 'code/dynamix/bits/make_from_tuple.hpp', "    new (ptr) T(", "    *static_cast<T*>(ptr) = T(")
m('oo_off', 'code/dynamix/object_of.hpp', "    return *reinterpret_cast<const object* const*>(reinterpret_cast<const char*>(mixin_ptr) - sizeof_ptr);", "    return *reinterpret_cast<const object* const*>(reinterpret_cast<const char*>(mixin_ptr) - sizeof(int));")
# --- C headers
SV='code/dnmx/bits/sv.h'
m('sv_cmp_sign', SV, "        return cmp == 0 ? -1 : cmp;", "        return cmp == 0 ? 1 : cmp;")
m('sv_cmp_null', SV, "    if (!a.begin) return -!!blen;\n", "    if (!a.begin) return -1;\n")
m('sv_cmp_len', SV, "        int cmp = memcmp(a.begin, b.begin, blen);", "        int cmp = memcmp(a.begin, b.begin, alen);")
m('sv_str_null', SV, "    if (!str) return DNMX_EMPTY_T(dnmx_sv);\n", "")
m('sv_starts', SV, "    if (plen > svlen) return false;", "    if (plen >= svlen) return plen == svlen && svlen == 0;")
m('sv_find_last', SV, "    while (len--) {", "    while (--len) {")
m('sv_find_first', SV, "(const char*)memchr(sv.begin, q, len);", "(const char*)strchr(sv.begin, q);")
m('sv_lit', SV, "dnmx_make_sv_len(lit, sizeof(lit)-1)", "dnmx_make_sv_str(lit)")
m('sv_eq', SV, "    return dnmx_sv_cmp(a, b) == 0;", "    return dnmx_sv_len(a) == dnmx_sv_len(b) && strncmp(a.begin, b.begin, dnmx_sv_len(a)) == 0;")
m('sv_empty', SV, "    bool empty() const noexcept {\n        return begin == end;", "    bool empty() const noexcept {\n        return !begin;")
m('sv_ne', SV, "    bool operator!=(const dnmx_sv& other) const noexcept {\n        return to_std() != other.to_std();", "    bool operator!=(const dnmx_sv& other) const noexcept {\n        return begin != other.begin || end != other.end;")
m('sv_fromstd', SV, "        ret.end = ret.begin + sv.length();", "        ret.end = sv.empty() ? nullptr : ret.begin + sv.length();")
HI='code/dnmx/mixin_info.h'
m('hi_ext', HI, "return !move_init || allocator || force_external;", "return !move_init || force_external;")
m('hi_align', HI, "    if (a < dnmx_sizeof_ptr) {", "    if (a <= 1) {")
m('hi_bufsize', HI, "        info->obj_buf_size = info->size + info->alignment;\n", "        info->obj_buf_size = info->size + dnmx_sizeof_ptr;\n")
m('hi_make', HI, "    ret.obj_buf_size = dnmx_sizeof_ptr;\n", "")
m('hi_canon_name', HI, "    if (cmp) return cmp < 0;\n", "    if (cmp) return cmp == -1;\n")
m('hi_canon_prio', HI, "    if (ca != cb) return ca < cb;", "    if (ca != cb) return ca - cb < 0;")
m('hi_canon_id', HI, "    if (a->id.i != b->id.i) return a->id.i < b->id.i;", "    if (a->id.i != b->id.i) return a->id.i > b->id.i;")
m('ht_ftable', 'code/dnmx/basic_type.h', "    if (id.i < type->ftable_length) return type->ftable[id.i];", "    if (id.i <= type->ftable_length) return type->ftable[id.i];")
m('ho_set', 'code/dnmx/object_mixin_data.h', "reinterpret_cast<void**>(mixin - sizeof(void*))", "reinterpret_cast<void**>(buf)")
m('hf_make', 'code/dnmx/feature_info.h', "    ret.id.i = dnmx_invalid_id;\n", "")
m('hid_eq', 'code/dnmx/mixin_id.h', "operator!=(dnmx_mixin_id o) const noexcept { return i != o.i; }", "operator!=(dnmx_mixin_id o) const noexcept { return i < o.i; }")
m('hid_inv', 'code/dnmx/bits/id_int_t.h', "(~((dnmx_id_int_t)0))", "((dnmx_id_int_t)0x7fffffff)")
CF='code/dnmx/mixin_common_funcs.c'
m('cf_move', CF, "    memset(src, 0, info->size);\n", "    memset(src, 0, info->obj_buf_size);\n")
m('cf_init', CF, "    memset(ptr, 0, info->size);\n    return dnmx_result_success;", "    memset(ptr, 0, info->obj_buf_size);\n    return dnmx_result_success;")
m('cf_cmp', CF, "    return memcmp(a, b, info->size) == 0;", "    return memcmp(a, b, info->alignment) == 0;")
m('cf_str', CF, "int dnmx_mixin_common_cmp_func(const dnmx_mixin_info* info, const void* a, const void* b) {\n    return memcmp(a, b, info->size);", "int dnmx_mixin_common_cmp_func(const dnmx_mixin_info* info, const void* a, const void* b) {\n    return strncmp((const char*)a, (const char*)b, info->size);")
# --- C API
DC='code/dynamix/domain-c.cpp'; OC='code/dynamix/object-c.cpp'; TC='code/dynamix/type-c.cpp'; TMC='code/dynamix/type_mutation-c.cpp'
m('dc_reg', DC, "        self->register_mixin(*info);\n        return dnmx_result_success;\n    }\n    catch (std::exception&) {\n        return -1;", "        self->register_mixin(*info);\n        return dnmx_result_success;\n    }\n    catch (std::exception&) {\n        return dnmx_result_success;")
m('dc_notry', DC, "    try {\n        self->register_feature(*info);\n        return dnmx_result_success;\n    }\n    catch (std::exception&) {\n        return -1;\n    }", "    self->register_feature(*info);\n    return dnmx_result_success;")
m('dc_catch_narrow', DC, "        self->add_mutation_rule(*info);\n        return 0;\n    }\n    catch (std::exception&) {", "        self->add_mutation_rule(*info);\n        return 0;\n    }\n    catch (std::bad_alloc&) {", )
m('dc_get_type_leak', DC, "        std::unique_ptr<type_mutation> pmut(type_mutation::from_c_handle(*hmut));\n        *hmut = nullptr;\n        return &self->get_type(std::move(*pmut));", "        auto pmut = type_mutation::from_c_handle(*hmut);\n        auto& ret = self->get_type(std::move(*pmut));\n        *hmut = nullptr;\n        delete pmut;\n        return &ret;")
m('oc_clear', OC, "    if (self->sealed()) return false;\n", "    if (self->sealed()) return true;\n")
m('oc_reset_null', OC, "        else {\n            self->clear();\n        }", "")
m('oc_cmp_err', OC, "        ret.error = dnmx_result_success;\n    }\n    catch (std::exception&) {\n        ret.error = -1;", "        ret.error = dnmx_result_success;\n    }\n    catch (std::exception&) {\n        ret.result = 0;\n        ret.error = dnmx_result_success;")
m('oc_getmutat', OC, "void* dnmx_object_get_mut_at(dnmx_object_handle ho, dnmx_mixin_index_t index) {\n    return self->get_at(index);", "void* dnmx_object_get_mut_at(dnmx_object_handle ho, dnmx_mixin_index_t index) {\n    return self->unchecked_get_at(index);")
m('oc_usurp', OC, "new object(std::move(*object::from_c_handle(ho)))", "new object(object::from_c_handle(ho)->copy())")
m('tc_isof', TC, "        return self->is_of(name.to_std());\n    }\n    catch (std::exception&) {\n        return false;", "        return self->is_of(name.to_std());\n    }\n    catch (std::exception&) {\n        return true;")
m('tc_swap', TC, "    return self->copy_constructible();", "    return self->copyable();")
m('tmc_lacking', TMC, "        return self->add_if_lacking(*info);", "        self->add_if_lacking(*info);\n        return true;")
m('tmc_set', TMC, "        self->mixins.assign(mixins, mixins + num_mixins);", "        self->mixins.insert(self->mixins.end(), mixins, mixins + num_mixins);")
m('mac_alloc', 'code/dynamix/mixin_allocator-c.cpp', "        if (!ret) throw std::bad_alloc();\n", "")
# --- pmr
PM='code/dynamix/compat/pmr/memory_resource.cpp'; PA='code/dynamix/compat/pmr/allocator.hpp'
m('pm_align', PM, "aligned_alloc(alignment, size)", "aligned_alloc(alignment, bytes)")
m('pm_null', PM, "        if (!ret) throw std::bad_alloc{};\n", "")
m('pm_default', PM, "    static default_resource res;\n    return &res;", "    static thread_local default_resource res;\n    return &res;")
m('pa_eq', PA, "    friend bool operator==(const allocator& lhs, const allocator& rhs) noexcept {\n        return lhs.resource() == rhs.resource();", "    friend bool operator==(const allocator& lhs, const allocator& rhs) noexcept {\n        return lhs.resource()->is_equal(*rhs.resource());")
m('pa_dealloc', PA, "        m_resource.deallocate(p, n * sizeof(T), alignof(T));", "        m_resource.deallocate(p, n, alignof(T));")
m('pmh_dealloc', 'code/dynamix/compat/pmr/memory_resource.hpp', "        do_deallocate(p, bytes, alignment);", "        do_deallocate(p, alignment, bytes);")
# --- settings
m('ds_builder', 'code/dynamix/domain_settings_builder.hpp', "        settings.allow_duplicate_mixin_names = val;", "        settings.allow_duplicate_feature_names = val;")
m('ds_canon', 'code/dynamix/domain_settings_builder.hpp', "        settings.canonicalize_types = val;", "        settings.canonicalize_types = true; (void)val;")
# --- exceptions
TE='code/dynamix/throw_exception.cpp'
m('te_type', TE, "    e<object_error>(t.dom) << op << \" sealed object of type \" << t << do_throw;", "    e<type_error>(t.dom) << op << \" sealed object of type \" << t << do_throw;")
m('te_base', 'code/dynamix/exception.hpp', "struct DYNAMIX_API feature_error : public exception {\n    using exception::exception;", "struct DYNAMIX_API feature_error : public std::runtime_error {\n    using std::runtime_error::runtime_error;")
m('te_nulldom', TE, "    if (m.dom) {\n        out << '\\'' << *domain::from_c_handle(m.dom) << '\\'';\n    }\n    else {\n        out << \"<null>\";\n    }\n", "    out << '\\'' << *domain::from_c_handle(m.dom) << '\\'';\n")
# --- v1
CB='v1compat/code/dynamix/v1compat/combinators.hpp'; MR='v1compat/code/dynamix/v1compat/mutation_rules.cpp'
m('cb_and', CB, "        _result = _result && bool(r);", "        _result = bool(r);")
m('cb_or_stop', CB, "        return !_result; // stop at the first true", "        return true;")
m('cb_mean', CB, "        _sum = 0;\n    }", "        _num_results = 0;\n    }")
m('cb_mean_int', CB, "return _sum / result_type(_num_results);", "return result_type(size_t(_sum) / _num_results);")
m('cb_sum_reset', CB, "    void reset() {\n        _result = 0;\n    }", "    void reset() {\n        _result = result_type{1} - result_type{1} + _result;\n    }")
m('cb_or_reset', CB, "    void reset() {\n        _result = false;", "    void reset() {\n        _result = true;")
m('mr_excl', MR, "        if (found) return true; // erase if another mutually exclusive was found\n        found = true;", "        if (found) return true; // erase if another mutually exclusive was found\n        found = i->registered() && mut.mixins.size() > 1;")
m('mr_excl_norev', MR, "    std::reverse(mut.mixins.begin(), mut.mixins.end());\n    bool found", "    bool found")
m('mr_slot', MR, "    auto r = std::move(rules[id]);\n    if (!r) return {};", "    auto r = rules[id];\n    if (!r) return {};")
m('mr_id_ge', MR, "    if (id >= rules.size()) return {};", "    if (id > rules.size()) return {};")
m('mr_dep', MR, "        if (!i->dependency) dynamix::throw_exception::type_mut_error(mut, \"rule with no dep\", *i);\n", "")
m('mr_subst', 'v1compat/code/dynamix/v1compat/common_mutation_rules.hpp', "            mut.remove<SourceMixin>();\n            mut.add<TargetMixin>();", "            mut.add<TargetMixin>();\n            mut.remove<SourceMixin>();\n            mut.dedup();")
m('mr_mand', 'v1compat/code/dynamix/v1compat/common_mutation_rules.hpp', "mut.add_if_lacking<Mixin>();", "if (!mut.mixins.empty()) mut.add_if_lacking<Mixin>();")
m('v1_bid', 'v1compat/code/dynamix/v1compat/define_mixin.hpp', "feature_bid_priority(mp.bid, mp.priority)", "feature_bid_priority(mp.priority, mp.bid)")
m('v1_ext', 'v1compat/code/dynamix/v1compat/define_mixin.hpp', "        data.info.force_external = true;\n", "")
m('v1_next', 'v1compat/code/dynamix/v1compat/next_bidder.hpp', "    if constexpr (Message::multicast) {", "    if constexpr (!Message::multicast) {")
m('v1_copy', 'v1compat/code/dynamix/v1compat/object.cpp', "    ret.copy_from(*this);\n", "    ret.copy_matching_from(*this);\n")
m('v1_canon', 'v1compat/code/dynamix/v1compat/domain.cpp', "domain_settings_builder().canonicalize_types()", "domain_settings_builder()")
m('v1_prio', 'v1compat/code/dynamix/v1compat/define_mixin.hpp', "    mp.priority = p;\n    return mp;", "    mp.priority = -p;\n    return mp;")
# --- locks
m('lk_noex', D, "        basic_register_l(info, m_element_registry.unique_lock()->sparse_features, !m_domain.m_settings.allow_duplicate_feature_names);\n    }", "        basic_register_l(info, const_cast<compat::pmr::vector<const feature_info*>&>(m_element_registry.shared_lock()->sparse_features), !m_domain.m_settings.allow_duplicate_feature_names);\n    }")
m('lk_gettype_drop', D, "            auto reg = m_type_registry.shared_lock();\n            auto f = reg->type_queries.find(mixins);\n            if (f != reg->type_queries.end()) return *f->second;", "            auto& queries = m_type_registry.shared_lock()->type_queries;\n            auto f = queries.find(mixins);\n            if (f != queries.end()) return *f->second;")
m('lk_scope', D, "        const type* found = nullptr;\n        uint64_t rules_revision = 0; // revision of rules with which the original query was produced\n\n        {\n", "        const type* found = nullptr;\n        uint64_t rules_revision = 0; // revision of rules with which the original query was produced\n\n        const mutation_rule_map* prules = nullptr;\n        {\n", (D, "            original_query = apply_mutation_rules_l(mutation, reg->mutation_rules);\n", "            prules = &reg->mutation_rules;\n        }\n        original_query = apply_mutation_rules_l(mutation, *prules);\n        {\n            auto reg = m_type_registry.shared_lock();\n"))
m('lk_order', D, "        {\n            auto treg = m_type_registry.unique_lock();\n", "        auto ereg = m_element_registry.unique_lock();\n        {\n            auto treg = m_type_registry.unique_lock();\n", (D, "        auto reg = m_element_registry.unique_lock();\n        auto& sparse_mixins = reg->sparse_mixins;\n\n        // mixin is not", "        auto& sparse_mixins = ereg->sparse_mixins;\n\n        // mixin is not"))
m('lk_relock', D, "        if (found) {\n            // we found", "        auto hold = m_type_registry.shared_lock();\n        if (found) {\n            // we found")
m('lk_unique_user', D, "            auto reg = m_type_registry.shared_lock();\n            {\n                auto f", "            auto reg = m_type_registry.unique_lock();\n            {\n                auto f")
