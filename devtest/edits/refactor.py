SV='code/dnmx/bits/sv.h'; D='code/dynamix/domain.cpp'; OM='code/dynamix/object_mutation.cpp'; OMH='code/dynamix/object_mutation.hpp'; O='code/dynamix/object.cpp'; T='code/dynamix/type.cpp'; TM='code/dynamix/type_mutation.cpp'
E={}
E['sv_eq_direct']=[(SV,'return dnmx_sv_cmp(a, b) == 0;','''size_t alen = dnmx_sv_len(a);
    if (alen != dnmx_sv_len(b)) return false;
    if (alen == 0) return true;
    return memcmp(a.begin, b.begin, alen) == 0;''')]
E['sv_cmp_min']=[(SV,'''    if (alen == blen) {
        return memcmp(a.begin, b.begin, alen);
    }
    else if (alen < blen) {
        int cmp = memcmp(a.begin, b.begin, alen);
        return cmp == 0 ? -1 : cmp;
    }
    else {
        int cmp = memcmp(a.begin, b.begin, blen);
        return cmp == 0 ? 1 : cmp;
    }''','''    const size_t common = alen < blen ? alen : blen;
    const int cmp = memcmp(a.begin, b.begin, common);
    if (cmp != 0) return cmp;
    if (alen == blen) return 0;
    return alen < blen ? -1 : 1;''')]
E['sv_find_last_for']=[(SV,'''    size_t len = dnmx_sv_len(sv);
    while (len--) {
        if (sv.begin[len] == q) return sv.begin + len;
    }
    return NULL;''','''    const char* p;
    for (p = sv.end; p != sv.begin; --p) {
        if (p[-1] == q) return p - 1;
    }
    return NULL;''')]
E['sv_starts_nested']=[(SV,'''    if (plen > svlen) return false; // prefix longer than string
    if (svlen == 0 && plen == 0) return true; // avoid memcmp with null
    return memcmp(sv.begin, prefix, plen) == 0;''','''    if (plen == 0) return true;
    return plen <= svlen && memcmp(sv.begin, prefix, plen) == 0;''')]
E['sv_find_first_loop']=[(SV,'''    if (!len) return NULL; // avoid memchr with null
    return (const char*)memchr(sv.begin, q, len);''','''    return len ? (const char*)memchr(sv.begin, q, len) : NULL;''')]
E['sv_from_std']=[(SV,'''        dnmx_sv ret;
        ret.begin = sv.data();
        ret.end = ret.begin + sv.length();
        return ret;''','''        return dnmx_sv{sv.data(), sv.data() + sv.size()};''')]
E['sv_ne']=[(SV,'''        return to_std() != other.to_std();''','''        return !(*this == other);''')]
E['reg_single_loop']=[(D,'''        if (enforce_unique_names) {
            // search in reverse order while also checking for name clashes
            // after this loop, the least free_id will be saved
            for (dnmx_id_int_t i = dnmx_id_int_t(sparse.size()); i-- > 0; ) {
                auto reg = sparse[i];
                if (reg) {
                    assert(reg->iid() == i); // sanity check
                    if (reg->name == info.name) throw_exception::duplicate_name(m_domain, info);
                }
                else {
                    free_id = id_t{i};
                }
            }
        }
        else {
            // simply find first free id
            for (dnmx_id_int_t i = 0; i < sparse.size(); ++i) {
                if (!sparse[i]) {
                    free_id = id_t{i};
                    break;
                }
            }
        }
''','''        for (dnmx_id_int_t i = 0; i < sparse.size(); ++i) {
            const auto* reg = sparse[i];
            if (reg) {
                if (enforce_unique_names && reg->name == info.name) throw_exception::duplicate_name(m_domain, info);
                continue;
            }
            if (free_id == invalid) {
                free_id = id_t{i};
                if (!enforce_unique_names) break;
            }
        }
''')]
E['reg_helper']=[(D,'''        id_t free_id = invalid;

        if (enforce_unique_names) {
            // search in reverse order while also checking for name clashes
            // after this loop, the least free_id will be saved
            for (dnmx_id_int_t i = dnmx_id_int_t(sparse.size()); i-- > 0; ) {
                auto reg = sparse[i];
                if (reg) {
                    assert(reg->iid() == i); // sanity check
                    if (reg->name == info.name) throw_exception::duplicate_name(m_domain, info);
                }
                else {
                    free_id = id_t{i};
                }
            }
        }
        else {
            // simply find first free id
            for (dnmx_id_int_t i = 0; i < sparse.size(); ++i) {
                if (!sparse[i]) {
                    free_id = id_t{i};
                    break;
                }
            }
        }
''','''        id_t free_id = find_free_slot_l(info, sparse, enforce_unique_names);
'''),(D,'''    template <typename T>
    void basic_register_l(''','''    template <typename T>
    auto find_free_slot_l(T& info, const compat::pmr::vector<const T*>& sparse, bool unique) {
        using id_t = decltype(info.id);
        id_t ret = id_t{dnmx_invalid_id};
        if (!unique) {
            const auto f = std::find(sparse.begin(), sparse.end(), nullptr);
            if (f != sparse.end()) ret = id_t{dnmx_id_int_t(f - sparse.begin())};
            return ret;
        }
        dnmx_id_int_t i = dnmx_id_int_t(sparse.size());
        while (i > 0) {
            --i;
            if (!sparse[i]) {
                ret = id_t{i};
            }
            else if (sparse[i]->name == info.name) {
                throw_exception::duplicate_name(m_domain, info);
            }
        }
        return ret;
    }

    template <typename T>
    void basic_register_l(''')]
E['reg_tail']=[(D,'''        if (free_id == invalid) {
            free_id = id_t{dnmx_id_int_t(sparse.size())};
            sparse.push_back(nullptr);
        }

        info.id = free_id;
        sparse[info.iid()] = &info;''','''        if (free_id == invalid) {
            free_id = id_t{dnmx_id_int_t(sparse.size())};
            sparse.push_back(&info);
        }
        else {
            sparse[free_id.i] = &info;
        }
        info.id = free_id;''')]
E['reg_checks_swapped_invalid']=[(D,'''        if (info.id != invalid) throw_exception::id_registered(m_domain, info);
        if (enforce_unique_names && info.name.empty()) throw_exception::empty_name(m_domain, info);''','''        if (!(info.id == invalid)) {
            throw_exception::id_registered(m_domain, info);
        }
        if (enforce_unique_names) {
            if (info.name.empty()) throw_exception::empty_name(m_domain, info);
        }''')]
E['unreg_helper']=[(D,'''        // info is not our own?
        if (info.iid() >= sparse.size() || sparse[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);

        sparse[info.iid()] = nullptr; // free slot
        info.id =''','''        const auto index = info.iid();
        const bool own = index < sparse.size() && sparse[index] == &info;
        if (!own) throw_exception::unreg_foreign(m_domain, info);
        sparse[index] = nullptr; // free slot
        info.id =''')]
E['unreg_mixin_helpers']=[(D,'''            for (auto iq = queries.begin(); iq != queries.end(); ) {
                if (iq->second->has(info.id)) {
                    // query leads to a type which contains mixin
                    iq = queries.erase(iq);
                }
                else if (itlib::pfind(iq->first, &info)) {
                    // query references mixin
                    iq = queries.erase(iq);
                }
                else {
                    ++iq;
                }
            }''','''            auto iq = queries.begin();
            while (iq != queries.end()) {
                const bool refers = iq->second->has(info.id) || std::find(iq->first.begin(), iq->first.end(), &info) != iq->first.end();
                if (refers) iq = queries.erase(iq);
                else ++iq;
            }'''),(D,'''                auto& t = *it;
                if (!t->has(info.id)) {
                    // type does't have mixin
                    ++it;
                    continue;
                }

                // removing a type with active objects?
                // UB and crashes await
                assert(t->num_objects() == 0);

                it = types.erase(it);''','''                if ((*it)->has(info.id)) {
                    it = types.erase(it);
                }
                else {
                    ++it;
                }''')]
E['unreg_mixin_tail']=[(D,'''        if (info.iid() >= sparse_mixins.size() || sparse_mixins[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);
        sparse_mixins[info.iid()] = nullptr; // free slot

        // invalidate info
        info.id = invalid_mixin_id;
        info.dom = nullptr;''','''        basic_unregister_l(info, sparse_mixins);
        info.dom = nullptr;''')]
E['tc_register_forward']=[(D,'''        // search in reverse order while also checking for name clashes
        const type_class** free_slot = nullptr;
        for (auto i = reg->sparse_type_classes.rbegin(); i != reg->sparse_type_classes.rend(); ++i) {
            auto tc = *i;
            if (tc) {
                if (tc->name == new_tc.name) throw_exception::duplicate_name(m_domain, new_tc);
            }
            else {
                free_slot = &*i;
            }
        }

        if (!free_slot) {
            free_slot = &reg->sparse_type_classes.emplace_back();
        }

        *free_slot = &new_tc;''','''        auto& classes = reg->sparse_type_classes;
        const type_class** free_slot = nullptr;
        for (auto& tc : classes) {
            if (!tc) {
                if (!free_slot) free_slot = &tc;
            }
            else if (tc->name == new_tc.name) {
                throw_exception::duplicate_name(m_domain, new_tc);
            }
        }
        if (free_slot) *free_slot = &new_tc;
        else classes.push_back(&new_tc);''')]
E['tc_unregister_find']=[(D,'''        for (auto& rtc : reg->sparse_type_classes) {
            if (rtc == &tc) {
                rtc = nullptr;
                return;
            }
        }''','''        auto& v = reg->sparse_type_classes;
        auto f = std::find(v.begin(), v.end(), &tc);
        if (f != v.end()) *f = nullptr;''')]
E['get_by_name_index']=[(D,'''        for (auto& info : sparse) {
            if (info && info->name == name) return info;
        }
        return nullptr;''','''        for (size_t i = 0; i < sparse.size(); ++i) {
            const T* info = sparse[i];
            if (!info) continue;
            if (info->name == name) return info;
        }
        return nullptr;''')]
E['rule_add_helper']=[(D,'''        auto& rc = reg->mutation_rules[&info];
        ++rc;
        if (rc != 1) return; // not first-time registering

        // first time registered
        // we need to invalidate stored type queries
        // we can't tell which ones the rule affects, so we have to invalidate them all
        reg->type_queries.clear();
        ++reg->rules_revision;''','''        if (++reg->mutation_rules[&info] == 1) {
            rules_changed_l(*reg);
        }'''),(D,'''        // refs are zero, so remove rule and invalidate stored type queries
        reg->mutation_rules.erase(f);
        // we can't tell which ones the rule affects, so we have to invalidate them all
        reg->type_queries.clear();
        ++reg->rules_revision;''','''        reg->mutation_rules.erase(f);
        rules_changed_l(*reg);'''),(D,'''    void add_mutation_rule(const mutation_rule_info& info) {
        if''','''    static void rules_changed_l(type_registry& reg) noexcept {
        ++reg.rules_revision;
        reg.type_queries.clear();
    }

    void add_mutation_rule(const mutation_rule_info& info) {
        if''')]
E['rule_remove_decr']=[(D,'''        --f->second;
        if (f->second > 0) return; // more refs exist
''','''        if (--f->second != 0) return; // more refs exist
''')]
E['rule_compare_tie']=[(D,'''            if (a->order_priority != b->order_priority) return a->order_priority < b->order_priority;
            auto name_cmp = dnmx_sv_cmp(a->name, b->name);
            if (name_cmp != 0) return name_cmp < 0;
            return a < b;''','''            if (a->order_priority < b->order_priority) return true;
            if (b->order_priority < a->order_priority) return false;
            const int name_cmp = dnmx_sv_cmp(a->name, b->name);
            return name_cmp == 0 ? a < b : name_cmp < 0;''')]
E['apply_rules_helper']=[(D,'''            // apply rules
            for (auto& r : rules) {
                auto& info = *r.first;
                if (auto err = info.apply(mutation.to_c_hanlde(), info.user_data)) {
                    throw_exception::mutation_rule_user_error(mutation, info, err);
                }
            }''','''            apply_each_rule_l(mutation, rules);'''),(D,'''    // applies mutation rules for mutation and returns''','''    static void apply_each_rule_l(type_mutation& mutation, const mutation_rule_map& rules) {
        for (auto it = rules.begin(); it != rules.end(); ++it) {
            const mutation_rule_info* info = it->first;
            auto err = info->apply(mutation.to_c_hanlde(), info->user_data);
            if (err == 0) continue;
            throw_exception::mutation_rule_user_error(mutation, *info, err);
        }
    }

    // applies mutation rules for mutation and returns''')]
E['get_type_lookup_helper']=[(D,'''            // now look for exact type
            if (mutation.mixins.empty()) {
                found = &m_empty_type;
            }
            else {
                auto f = reg->types.find(mutation.mixins);
                if (f != reg->types.end()) found = f->get();
            }''','''            found = find_type_l(mutation, *reg);'''),(D,'''    const type& get_type(type_mutation& mutation) {
        if''','''    const type* find_type_l(const type_mutation& mutation, const type_registry& reg) const {
        if (mutation.mixins.empty()) return &m_empty_type;
        auto f = reg.types.find(mutation.mixins);
        if (f == reg.types.end()) return nullptr;
        return f->get();
    }

    const type& get_type(type_mutation& mutation) {
        if''')]
E['get_type_store_helper']=[(D,'''            auto reg = m_type_registry.unique_lock();
            if (reg->rules_revision == rules_revision) reg->type_queries[std::move(original_query)] = found;
            return *found;
        }

        return create_type(mutation, std::move(original_query), rules_revision);''','''            auto reg = m_type_registry.unique_lock();
            if (rules_revision == reg->rules_revision) {
                reg->type_queries[std::move(original_query)] = found;
            }
        }
        else {
            found = &create_type(mutation, std::move(original_query), rules_revision);
        }
        return *found;''')]
E['ftable_count']=[(D,'''                    const auto size_with = feature.info->iid() + 1;
                    if (size_with > ftable_size) {
                        ftable_size = size_with;
                    }''','''                    ftable_size = std::max<feature_id::int_t>(ftable_size, feature.info->iid() + 1);''')]
E['ftable_sort_cmp']=[(D,'''                    // first by bid
                    if (adata.bid != bdata.bid) return adata.bid > bdata.bid;

                    // then by prio
                    if (adata.priority != bdata.priority) return adata.priority < bdata.priority;

                    // then by mixin order such that the last mixin is first
                    return a.mixin_index > b.mixin_index;''','''                    if (adata.bid > bdata.bid) return true;
                    if (adata.bid < bdata.bid) return false;
                    if (adata.priority < bdata.priority) return true;
                    if (adata.priority > bdata.priority) return false;
                    return b.mixin_index < a.mixin_index;''')]
E['ftable_clash_loop']=[(D,'''                    for (auto ie = entry.begin; ie != entry.end - 1; ++ie) {
                        const auto& cur = *ie;
                        const auto& next = *(ie + 1);
                        if''','''                    for (auto ie = entry.begin + 1; ie != entry.end; ++ie) {
                        const auto& cur = ie[-1];
                        const auto& next = *ie;
                        if''')]
E['ftable_top_bid']=[(D,'''                for (auto pl = entry.begin + 1; pl != entry.end; ++pl) {
                    if (pl->data->bid != entry.top_bid_back->data->bid) {
                        // top bid end reached
                        break;
                    }
                    entry.top_bid_back = pl;
                }''','''                const auto top_bid = entry.begin->data->bid;
                while (entry.top_bid_back + 1 != entry.end && entry.top_bid_back[1].data->bid == top_bid) {
                    ++entry.top_bid_back;
                }''')]
E['create_type_validate']=[(D,'''        for (size_t i = 0; i < mixins.size(); ++i) {
            auto m = mixins[i];
            if (m->id == invalid_mixin_id) throw_exception::type_mut_error(mutation, "unregistered", *m);
            if (m->dom != &m_domain) throw_exception::foreign_mixin(mutation, *m);
            for (size_t j = i + 1; j < mixins.size(); ++j) {
                if (mixins[i] == mixins[j]) throw_exception::type_mut_error(mutation, "duplicate", *m);
            }
        }
''','''        for (auto it = mixins.begin(); it != mixins.end(); ++it) {
            const auto* m = *it;
            if (m->id == invalid_mixin_id) throw_exception::type_mut_error(mutation, "unregistered", *m);
            if (m->dom != &m_domain) throw_exception::foreign_mixin(mutation, *m);
            if (std::find(it + 1, mixins.end(), m) != mixins.end()) throw_exception::type_mut_error(mutation, "duplicate", *m);
        }
''')]
E['create_type_numsparse']=[(D,'''            auto max_by_id = std::max_element(mixins.begin(), mixins.end(), [](const mixin_info* a, const mixin_info* b) {
                return a->iid() < b->iid();
            });
            return (*max_by_id)->iid() + 1;
        }();''','''            auto max_id = mixins[0]->iid();
            for (auto m : mixins) {
                if (m->iid() > max_id) max_id = m->iid();
            }
            return max_id + 1;
        }();''')]
E['create_type_total']=[(D,'''            type_size
            + ftable_size
            + mixins_buf_size
            + mixin_offsets_buf_size
            + sparse_mixin_indices_buf_size;''','''            sparse_mixin_indices_buf_size
            + mixin_offsets_buf_size
            + mixins_buf_size
            + ftable_size
            + type_size;''')]
E['create_type_offsets']=[(D,'''            if (ma > obj_buf_alignment) obj_buf_alignment = ma;
            else if (ma < sizeof_ptr) ma = sizeof_ptr;

            auto padding = util::next_multiple(obj_buf_size, ma) - obj_buf_size;
            if (padding < sizeof_ptr) padding += ma;

            obj_buf_size += padding;
            assert(obj_buf_size % ma == 0);

            mo = obj_buf_size; // mixin offset is here

            obj_buf_size += m->size;''','''            if (ma < sizeof_ptr) ma = sizeof_ptr;
            if (obj_buf_alignment < ma) obj_buf_alignment = ma;

            auto offset = util::next_multiple(obj_buf_size, ma);
            if (offset - obj_buf_size < sizeof_ptr) offset += ma;

            mo = offset; // mixin offset is here
            obj_buf_size = offset + m->size;''')]
E['gc_order']=[(D,'''            auto& t = *it;
            if (t->num_objects() > 0) {
                // objects of this type still exist
                ++it;
                continue;
            }

            // erase queries which lead to this type
            for (auto iq = queries.begin(); iq != queries.end(); ) {
                if (iq->second == it->get()) {
                    iq = queries.erase(iq);
                }
                else {
                    ++iq;
                }
            }
            it = types.erase(it);''','''            const type* t = it->get();
            if (t->num_objects() == 0) {
                auto iq = queries.begin();
                while (iq != queries.end()) {
                    if (iq->second != t) ++iq;
                    else iq = queries.erase(iq);
                }
                it = types.erase(it);
            }
            else {
                ++it;
            }''')]
E['om_dtor']=[(OM,'''    if (std::uncaught_exceptions() > m_uncaught_exceptions) {
        rollback();
        return;
    }
''','''    const bool unwinding = std::uncaught_exceptions() > m_uncaught_exceptions;
    if (unwinding) {
        rollback();
        return;
    }
''')]
E['om_finalize_helper']=[(OM,'''                if (auto destroy = info.destroy) {
                    destroy(&info, old_data.mixin);
                }

                // ... and dealloc
                if (!old_data.buf) continue; // internal: no dealloc needed

                if (auto* alloc = info.allocator) {
                    // allocated by mixin allocator
                    mixin_allocator::from_c_handle(alloc)->dealloc_mixin_buf(old_data.buf, info);
                }
                else {
                    // allocated by the own allocator
                    deallocate_external_mixin(old_data.buf, info);
                }''','''                if (info.destroy) info.destroy(&info, old_data.mixin);
                if (old_data.buf) {
                    if (info.allocator) mixin_allocator::from_c_handle(info.allocator)->dealloc_mixin_buf(old_data.buf, info);
                    else deallocate_external_mixin(old_data.buf, info);
                }''')]
E['om_new_helper']=[(OM,'''void object_mutation::deallocate_mixin_data() noexcept {''','''static void free_external(object_mutation&, void*, const mixin_info&) noexcept {}

void object_mutation::deallocate_mixin_data() noexcept {'''),(OM,'''        if (!data.buf) continue; // part of the internal buffer and deallocated with it

        const auto& info = *m_target_type.mixins[ti];

        if (m_old_mixin_data && m_old_type->has(info.id)) {
            // we have that type
            // it was not allocated here
            continue;
        }
''','''        const auto& info = *m_target_type.mixins[ti];
        const bool internal = !data.buf;
        if (internal || (m_old_mixin_data && m_old_type->has(info.id))) continue;
''')]
E['om_update_next']=[(OMH,'''        auto ti = m_updated_upto;
        const auto& info = *m_target_type.mixins[ti];
        if (m_old_mixin_data && m_old_type->has(info.id)) {
            // matching
            auto oi = m_old_type->sparse_mixin_indices[info.iid()];
            auto mixin = m_old_mixin_data[oi].mixin;
            update_common(update_common_args{{info, mixin, m_target_type, ti}, *m_old_type, oi});
        }
        else {
            // new
            auto mixin = m_target_mixin_data[ti].mixin;
            construct_new(init_new_args{info, mixin, m_target_type, ti});
        }
        ++m_updated_upto;
        m_complete = (m_updated_upto == m_target_type.num_mixins());''','''        const auto ti = m_updated_upto;
        const mixin_info& info = *m_target_type.mixins[ti];
        const bool is_new = !m_old_mixin_data || !m_old_type->has(info.id);
        if (is_new) {
            construct_new(init_new_args{info, m_target_mixin_data[ti].mixin, m_target_type, ti});
        }
        else {
            const auto oi = m_old_type->sparse_mixin_indices[info.iid()];
            update_common(update_common_args{{info, m_old_mixin_data[oi].mixin, m_target_type, ti}, *m_old_type, oi});
        }
        m_updated_upto = ti + 1;
        if (m_updated_upto == m_target_type.num_mixins()) m_complete = true;''')]
E['om_update_each']=[(OMH,'''        if (upto_index > m_target_type.num_mixins()) upto_index = m_target_type.num_mixins();
        while (m_updated_upto < upto_index) {
            update_next_mixin(construct_new, update_common); // pass functors by const ref
        }''','''        const auto last = std::min<mixin_index_t>(upto_index, m_target_type.num_mixins());
        for (; m_updated_upto < last; ) {
            update_next_mixin(construct_new, update_common);
        }'''),(OMH,'#include <exception>','#include <exception>\n#include <algorithm>')]
E['om_destroy_new']=[(OM,'''    for (mixin_index_t ti = m_updated_upto; ti-- > 0; ) {
        const auto& info = *m_target_type.mixins[ti];
        if (m_old_mixin_data && m_old_type->has(info.id)) continue; // not new
        if (!info.destroy) continue; // no destructor
        info.destroy(&info, m_target_mixin_data[ti].mixin);
    }
    m_updated_upto = 0;''','''    while (m_updated_upto > 0) {
        --m_updated_upto;
        const auto& info = *m_target_type.mixins[m_updated_upto];
        const bool common = m_old_mixin_data && m_old_type->has(info.id);
        if (!common && info.destroy) info.destroy(&info, m_target_mixin_data[m_updated_upto].mixin);
    }''')]
E['om_alloc_ext']=[(OM,'''                if (auto m_alloc = info.allocator) {
                    // new mixin has allocator, so use it to allocate a new external buffer
                    data.buf = mixin_allocator::from_c_handle(m_alloc)->alloc_mixin_buf(info);
                }
                else {
                    // new mixin with no allocator => use our own
                    data.buf = allocate_external_mixin(info);
                }

                data.mixin = data.buf + info.obj_buf_alignment_and_mixin_offset;
                data.set_object(&m_object);''','''                byte_t* const mbuf = info.allocator
                    ? mixin_allocator::from_c_handle(info.allocator)->alloc_mixin_buf(info)
                    : allocate_external_mixin(info);
                data.buf = mbuf;
                data.mixin = mbuf + info.obj_buf_alignment_and_mixin_offset;
                data.set_object(&m_object);''')]
E['obj_equals']=[(O,'''        if (info.equals) {
            if (!info.equals(&info, own_mixin, other_mixin)) return false;
        }
        else if (info.compare) {
            if (info.compare(&info, own_mixin, other_mixin)) return false;
        }
        else {
            return false;
        }''','''        bool same = false;
        if (info.equals) same = info.equals(&info, own_mixin, other_mixin);
        else if (info.compare) same = info.compare(&info, own_mixin, other_mixin) == 0;
        if (!same) return false;''')]
E['obj_usurp_swap']=[(O,'''    m_type = other.m_type;
    m_mixin_data = other.m_mixin_data;
    m_sealed = other.m_sealed;

    // we also need to redirect mixin datas to this
    for (size_t i = 0; i < num_mixins(); ++i) {
        m_mixin_data[i].set_object(this);
    }

    // clear other object
    other.m_type = &get_domain().get_empty_type();
    other.m_mixin_data = nullptr;''','''    m_sealed = other.m_sealed;
    m_mixin_data = other.m_mixin_data;
    m_type = other.m_type;
    other.m_mixin_data = nullptr;
    other.m_type = &get_domain().get_empty_type();

    const auto n = num_mixins();
    for (mixin_index_t i = 0; i != n; ++i) {
        m_mixin_data[i].set_object(this);
    }''')]
E['obj_assign_early']=[(O,'''    if (m_allocator == o.m_allocator) {
        if (m_sealed) throw_exception::obj_mut_sealed_object(get_type(), "move assign");
        clear_mixin_data();
        usurp(o);
    }
    else {
        throw_exception::obj_error(get_type(), "move assign with mismatched allocators");
    }
    return *this;''','''    if (!(m_allocator == o.m_allocator)) throw_exception::obj_error(get_type(), "move assign with mismatched allocators");
    if (m_sealed) throw_exception::obj_mut_sealed_object(get_type(), "move assign");
    clear_mixin_data();
    usurp(o);
    return *this;''')]
E['obj_copy_lambda']=[(O,'''        auto source = m_mixin_data[args.target_index].mixin;
        auto& info = args.info;
        if (!info.copy_init) throw_exception::obj_mut_error(mtype, "copy", "missing copy init", info);
        auto err = info.copy_init(&info, args.mixin_buf, source);
        if (err) throw_exception::obj_mut_user_error(mtype, "copy", "copy init", info, err);''','''        const auto& info = args.info;
        if (!info.copy_init) throw_exception::obj_mut_error(mtype, "copy", "missing copy init", info);
        if (auto err = info.copy_init(&info, args.mixin_buf, m_mixin_data[args.target_index].mixin)) {
            throw_exception::obj_mut_user_error(mtype, "copy", "copy init", info, err);
        }''')]
E['obj_copy_matching']=[(O,'''        auto own_index = mtype.index_of(info.id);
        if (own_index == invalid_mixin_index) continue;
        auto err = info.copy_asgn(&info,
            m_mixin_data[own_index].mixin,
            o.m_mixin_data[src_index].mixin
        );
        if (err) throw''','''        if (!mtype.has(info.id)) continue;
        const auto own_index = mtype.sparse_mixin_indices[info.iid()];
        auto target = m_mixin_data[own_index].mixin;
        auto source = o.m_mixin_data[src_index].mixin;
        auto err = info.copy_asgn(&info, target, source);
        if (err) throw''')]
E['type_compare']=[(T,'''    auto m = mixins.begin();
    const auto mend = mixins.end();
    auto o = other.mixins.begin();
    const auto oend = other.mixins.end();
    while (true) {
        if (m == mend) {
            assert(o != oend); // sanity: how is this the same type?
            return -1;
        }

        if (o == oend) return 1;

        if (*m != *o) {
            canonical_mixin_order cmp;
            return cmp(*m, *o) ? -1 : 1;
        }

        ++m;
        ++o;
    }''','''    for (size_t i = 0; ; ++i) {
        if (i == mixins.size()) return -1;
        if (i == other.mixins.size()) return 1;
        const auto* a = mixins[i];
        const auto* b = other.mixins[i];
        if (a == b) continue;
        return canonical_mixin_order{}(a, b) ? -1 : 1;
    }''')]
E['type_qall']=[(T,'''    return itlib::qall_of(mixins, [](const mixin_info* m) { return m->equals || m->compare; });''','''    for (auto m : mixins) {
        if (!m->equals && !m->compare) return false;
    }
    return true;''')]
E['type_next_impl']=[(T,'''    ++f;
    if (f == fe.end) return nullptr; // provided mixin was the last - there is no next implementer
    return f;''','''    return f + 1 == fe.end ? nullptr : f + 1;''')]
E['type_next_set']=[(T,'''    auto begin = f;
    auto end = begin + 1;
    while (end != fe.end && end->data->bid == f->data->bid) ++end; // find the end of the next bidder set
    return {begin, end};''','''    const auto next_bid = f->data->bid;
    auto end = f;
    do { ++end; } while (end != fe.end && end->data->bid == next_bid);
    return {f, end};''')]
E['type_index_of']=[(T,'''    for (mixin_index_t i = 0; i < mixins.size(); ++i) {
        if (mixins[i]->name == name) return i;
    }
    return invalid_mixin_index;''','''    mixin_index_t i = 0;
    for (auto m : mixins) {
        if (m->name == name) return i;
        ++i;
    }
    return invalid_mixin_index;''')]
E['tm_add_if']=[(TM,'''    auto f = itlib::pfind_if(mixins, by_name);
    if (f) return nullptr;
    return safe_add(name);''','''    if (has(name)) return nullptr;
    return safe_add(name);''')]
E['tm_impl_strong']=[(TM,'''        auto features = m->features_span();
        auto span = fspan(features);
        if (itlib::pfind(span, &info)) return true;''','''        for (auto& f : m->features_span()) {
            if (f.info == &info) return true;
        }''')]
E['tm_dedup']=[(TM,'''            if (info == *j) {
                // duplicate
                // remove the earlier
                info = nullptr;
            }''','''            if (info == *j) {
                info = nullptr;
                break;
            }''')]
E['tm_to_back']=[(TM,'''    auto* val = *i;
    vec.erase(i);
    vec.push_back(val);''','''    std::rotate(i, i + 1, vec.end());'''),(TM,'#include <cassert>','#include <cassert>\n#include <algorithm>')]
E['tm_remove']=[(TM,'''    return itlib::erase_first(mixins, &info);''','''    auto f = std::find(mixins.begin(), mixins.end(), &info);
    if (f == mixins.end()) return false;
    mixins.erase(f);
    return true;'''),(TM,'#include <cassert>','#include <cassert>\n#include <algorithm>')]

# ------------------------------------------------------------------ header parts
MC='code/dynamix/msg/msg_caller.hpp'; NI='code/dynamix/msg/next_impl.hpp'; MIU='code/dynamix/mixin_info_util.hpp'; MFT='code/dynamix/bits/make_from_tuple.hpp'
ANY='code/dynamix/any.hpp'; AU='code/dynamix/alloc_util.hpp'; MUT='code/dynamix/mutate.hpp'; MTO='code/dynamix/mutate_to.hpp'; MOPS='code/dynamix/mutate_ops.hpp'
OMO='code/dynamix/object_mutate_ops.hpp'; PA='code/dynamix/compat/pmr/allocator.hpp'; MRC='code/dynamix/compat/pmr/memory_resource.cpp'
MID='code/dynamix/mixin_info_data.hpp'; MIDC='code/dynamix/mixin_info_data.cpp'; FID='code/dynamix/feature_info_data.hpp'; DM='code/dynamix/define_mixin.hpp'
CMR='code/dynamix/common_mutation_rules.hpp'; MAC='code/dynamix/mixin_allocator-c.cpp'; OOF='code/dynamix/object_of.hpp'; DSB='code/dynamix/domain_settings_builder.hpp'
OMD='code/dnmx/object_mixin_data.h'; OC='code/dynamix/object-c.cpp'; DC='code/dynamix/domain-c.cpp'; MUC='code/dynamix/mutate-c.cpp'; TC='code/dynamix/type-c.cpp'; TMC='code/dynamix/type_mutation-c.cpp'
MCF='code/dnmx/mixin_common_funcs.c'; MI='code/dnmx/mixin_info.h'
E['mc_unicast_inv']=[(MC,'''        if /*likely*/ (fe) {
            auto& top = *fe.begin; // top bid
            return call(top, obj, std::forward<Args>(args)...);
        }

        return try_default_payload(info, obj, std::forward<Args>(args)...);
    }

    static Ret call_multicast''','''        if (!fe) return try_default_payload(info, obj, std::forward<Args>(args)...);
        return call(fe.begin[0], obj, std::forward<Args>(args)...);
    }

    static Ret call_multicast''')]
E['mc_multi_while']=[(MC,'''            for (auto i = fe.top_bid_back; i != fe.begin; --i) {
                call(*i, obj, args...); // args are copied! return value is ignored
            }''','''            auto i = fe.top_bid_back;
            while (i > fe.begin) {
                call(*i--, obj, args...);
            }''')]
E['mc_multi_index']=[(MC,'''            for (auto i = fe.top_bid_back; i != fe.begin; --i) {
                call(*i, obj, args...); // args are copied! return value is ignored
            }
            // return first (top) result
            return call(*fe.begin, obj''','''            const auto first = fe.begin;
            for (auto n = fe.top_bid_back - first; n > 0; --n) {
                call(first[n], obj, args...);
            }
            return call(*first, obj''')]
E['mc_comb_inv']=[(MC,'''                if (!combinator.add_result(call(*i, obj, args...))) { // args are copied!
                    return;
                };
            }''','''                const bool go_on = combinator.add_result(call(*i, obj, args...));
                if (!go_on) return;
            }''')]
E['mc_default_early']=[(MC,'''        if (!info.default_payload) {
            throw_exception::generic_feature_error(obj.get_type(), "does not implement", "dynamix msg", info);
        }
''','''        auto pl = info.default_payload;
        if (pl == nullptr) throw_exception::generic_feature_error(obj.get_type(), "does not implement", "dynamix msg", info);
'''),(MC,'(info.default_payload);\n        return func','(pl);\n        return func')]
E['ni_set_reuse']=[(NI,'''    auto next = obj->get_type().find_next_bidder_set(Msg::info, g::get_mixin_info<std::remove_cv_t<Mixin>>());
    if (next.empty()) {''','''    auto next = obj->get_type().find_next_bidder_set(Msg::info, mixin_info);
    if (next.size() == 0) {'''),(NI,'''    for (auto i = back; i != begin; --i) {
        traits::caller::call(*i, *obj, args...); // args are copied! return value is ignored
    }''','''    for (auto n = next.size() - 1; n > 0; --n) {
        traits::caller::call(next[n], *obj, args...);
    }'''),(NI,'    auto back = next.end() - 1;\n','')]
E['ni_has']=[(NI,'''    return !!obj->get_type().find_next_implementer(Msg::info, g::get_mixin_info<std::remove_cv_t<Mixin>>());''','''    const type& t = obj->get_type();
    return t.find_next_implementer(Msg::info, g::get_mixin_info<std::remove_cv_t<Mixin>>()) != nullptr;''')]
E['ni_top']=[(NI,'return traits::caller::call(*next.begin(), *obj','return traits::caller::call(next.front(), *obj')]
E['miu_order']=[(MIU,'''        info.init = &dnmx_mixin_noop_init_func;
        info.copy_init = &dnmx_mixin_noop_copy_func;
        info.copy_asgn = &dnmx_mixin_noop_copy_func;''','''        info.copy_init = info.copy_asgn = &dnmx_mixin_noop_copy_func;
        info.init = &dnmx_mixin_noop_init_func;''')]
E['miu_static_cast']=[(MIU,'''    reinterpret_cast<Mixin*>(memory)->~Mixin();''','''    auto self = static_cast<Mixin*>(memory);
    self->~Mixin();'''),(MIU,'''    *reinterpret_cast<Mixin*>(target) = *reinterpret_cast<const Mixin*>(source);''','''    auto& src = *static_cast<const Mixin*>(source);
    *static_cast<Mixin*>(target) = src;''')]
E['miu_helper']=[(MIU,'''        if constexpr (!std::is_trivially_destructible_v<Mixin>) info.destroy = &call_mixin_dtor<Mixin>;
''','''        constexpr bool needs_dtor = !std::is_trivially_destructible_v<Mixin>;
        if constexpr (needs_dtor) {
            info.destroy = call_mixin_dtor<Mixin>;
        }
''')]
E['mft_alias']=[(MFT,'''    _make_from_tuple_impl<T>(ptr, std::forward<Tuple>(tup),
        std::make_index_sequence<std::tuple_size_v<std::remove_reference_t<Tuple>>>());''','''    using tup_t = std::remove_reference_t<Tuple>;
    constexpr auto n = std::tuple_size_v<tup_t>;
    _make_from_tuple_impl<T>(ptr, std::forward<Tuple>(tup), std::make_index_sequence<n>{});''')]
E['mft_apply']=[(MFT,'''    _make_from_tuple_impl<T>(ptr, std::forward<Tuple>(tup),
        std::make_index_sequence<std::tuple_size_v<std::remove_reference_t<Tuple>>>());''','''    std::apply([ptr](auto&&... args) { new (ptr) T(std::forward<decltype(args)>(args)...); }, std::forward<Tuple>(tup));''')]
E['any_addr']=[(ANY,'''    return t_any<T>(any{}, &ref);''','''    return fwd_any(std::addressof(ref));''')]
E['any_ctor']=[(ANY,'''    return t_any<T>(any{}, ptr);''','''    any none;
    return t_any<T>(none, ptr);''')]
E['nm_mod']=[(AU,'''    return ((s + n - 1) / n) // divide rounding up
        * n;  // and scale''','''    const byte_size_t rem = s % n;
    return rem == 0 ? s : s + (n - rem);''')]
E['nm_sub']=[(AU,'''    return ((s + n - 1) / n) // divide rounding up
        * n;  // and scale''','''    const auto up = s + n - 1;
    return up - up % n;''')]
E['mut_fold']=[(MUT,'''    auto& type = obj.get_domain().get_type(std::move(type_mut));

    mutate_to(obj, type,''','''    const domain& dom = obj.get_domain();
    const auto& new_type = const_cast<domain&>(dom).get_type(std::move(type_mut));
    mutate_to(obj, new_type,''')]
E['mut_dtor']=[(MUT,'''        if (std::uncaught_exceptions() > m_uncaught_exceptions) return;
        if (m_applied) return;
        apply();''','''        const bool unwinding = std::uncaught_exceptions() > m_uncaught_exceptions;
        if (!m_applied && !unwinding) apply();''')]
E['mut_apply']=[(MUT,'''        m_applied = true;
        auto& type = m_obj.get_domain().get_type(std::move(m_type_mut));
        m_obj.reset_type(type);''','''        cancel();
        m_obj.reset_type(m_obj.get_domain().get_type(std::move(m_type_mut)));''')]
E['mto_pred']=[(MTO,'''        if (!op) return true; // null (non add-mixin op)
        if (!op->overrides_init()) return true; // valid op, which doesn't override init, so we don't need it
        if (!op->affected_info) return true; // no such mixin in the domain''','''        if (!op || !op->overrides_init() || !op->affected_info) return true;''')]
E['mto_loop']=[(MTO,'''    for (auto i = obj_mutates; i != obj_mutates_end; ++i) {
        auto& op = **i;
        obj_mut''','''    for (auto i = obj_mutates; i < obj_mutates_end; i++) {
        object_mutate_op* const cur = *i;
        auto& op = *cur;
        obj_mut''')]
E['mops_ptr']=[(MOPS,'''{ this->affected_info = &mut.add(name); }''','''{
        const mixin_info& added = mut.add(name);
        this->affected_info = &added;
    }''')]
E['omo_assign']=[(OMO,'''    object_mutate_op_with_func(const mixin_info& info, ConstructNew_Func&& f) : func(std::forward<ConstructNew_Func>(f)) {
        affected_info = &info;
    }''','''    object_mutate_op_with_func(const mixin_info& info, ConstructNew_Func&& f) : object_mutate_op_with_func(std::forward<ConstructNew_Func>(f)) {
        affected_info = &info;
    }''')]
E['pa_bytes']=[(PA,'''        return static_cast<T*>(m_resource.allocate(n * sizeof(T), alignof(T)));''','''        return static_cast<T*>(allocate_bytes(sizeof(T) * n, alignof(T)));'''),(PA,'''        m_resource.deallocate(p, n * sizeof(T), alignof(T));''','''        const std::size_t bytes = n * sizeof(T);
        deallocate_bytes(p, bytes, alignof(T));''')]
E['pa_ne']=[(PA,'''        return lhs.resource() != rhs.resource();
    }
};''','''        return !(lhs == rhs);
    }
};''')]
E['pa_res']=[(PA,'''        : m_resource(*get_default_resource())
    {}''','''        : allocator(get_default_resource())
    {}''')]
E['mrc_order']=[(MRC,'''        auto size = dynamix::util::next_multiple(bytes, alignment);
        void* ret = aligned_alloc(alignment, size);''','''        void* ret = aligned_alloc(alignment, dynamix::util::next_multiple(bytes, alignment));''')]
E['mrc_throw']=[(MRC,'''        if (!ret) throw std::bad_alloc{};
        return ret;''','''        if (ret) return ret;
        throw std::bad_alloc();''')]
E['mid_perk']=[(MID,'''        int32_t bid = perks_a.bid.value_or(perks_b.bid.value_or(0));
        int32_t priority = perks_a.priority.value_or(perks_b.priority.value_or(0));''','''        int32_t bid = 0, priority = 0;
        if (perks_a.bid) bid = *perks_a.bid;
        else if (perks_b.bid) bid = *perks_b.bid;
        if (perks_a.priority.has_value()) priority = perks_a.priority.value();
        else priority = perks_b.priority.value_or(0);''')]
E['mid_emplace']=[(MID,'''        auto* stored = m_data.feature_payload_storage.emplace_back(std::move(payload)).get();
        m_data.feature_payloads.push_back({&info, stored, bid, priority});''','''        m_data.feature_payload_storage.push_back(std::move(payload));
        auto* stored = m_data.feature_payload_storage.back().get();
        feature_for_mixin ffm = {&info, stored, bid, priority};
        m_data.feature_payloads.push_back(ffm);''')]
E['mid_alloc']=[(MID,'''        m_data.stored_alloc = alloc;
        m_data.info.allocator = m_data.stored_alloc->to_c_hanlde();''','''        m_data.info.allocator = alloc->to_c_hanlde();
        m_data.stored_alloc = std::move(alloc);''')]
E['mid_rule']=[(MID,'''        info.name = dnmx_sv::from_std(stored_name);
        info.apply = r.apply;
        info.user_data = user_data;
        info.order_priority = perks.priority.value_or(0);
''','''        info.order_priority = perks.priority ? *perks.priority : 0;
        info.user_data = user_data;
        info.apply = r.apply;
        info.name = dnmx_sv::from_std(stored_name);
''')]
E['mid_rule2']=[(MID,'''        m_data.mutation_rule_infos.push_back(&rule);
        m_data.info.dependency = true;
        return *this;''','''        m_data.mutation_rule_infos.push_back(&rule);
        return dependency();''')]
E['mid_view']=[(MID,'''        m_data.info.name = dnmx_sv::from_std(name);
        return *this;
    }

    // override and store store name
    self& store_name(std::string_view sname) {
        m_data.stored_name = sname;''','''        auto& i = m_data.info;
        i.name.begin = name.data();
        i.name.end = name.data() + name.size();
        return *this;
    }

    // override and store store name
    self& store_name(std::string_view sname) {
        m_data.stored_name.assign(sname.data(), sname.size());''')]
E['midc_for']=[(MIDC,'''    dom.unregister_mixin(info);
    for (auto* r : mutation_rule_infos) {
        dom.remove_mutation_rule(*r);
    }''','''    dom.unregister_mixin(info);
    for (auto it = mutation_rule_infos.begin(); it != mutation_rule_infos.end(); ++it) {
        const mutation_rule_info& r = **it;
        dom.remove_mutation_rule(r);
    }''')]
E['midc_count']=[(MIDC,'''    size_t num_added = 0;
    try {
        for (auto* r : mutation_rule_infos) {
            dom.add_mutation_rule(*r);
            ++num_added;
        }''','''    size_t num_added = 0;
    try {
        for (; num_added < mutation_rule_infos.size(); ++num_added) {
            dom.add_mutation_rule(*mutation_rule_infos[num_added]);
        }''')]
E['fid_pl']=[(FID,'''        m_data.default_payload_storage = storage;
        m_data.info.default_payload = m_data.default_payload_storage.get();''','''        m_data.info.default_payload = storage.get();
        m_data.default_payload_storage = std::move(storage);''')]
E['dm_dtor']=[(DM,'''        if (auto dom = data.info.dom) {
            data.unregister_from(*domain::from_c_handle(dom));
        }''','''        auto* dom = domain::from_c_handle(data.info.dom);
        if (!dom) return;
        data.unregister_from(*dom);''')]
E['cmr_inv']=[(CMR,'''    if (mut->has<Primary>()) {
        mut->add_if_lacking<Dependent>();
    }
    return result_success;''','''    if (!mut->has<Primary>()) return result_success;
    mut->add_if_lacking<Dependent>();
    return result_success;''')]
E['mac_ret']=[(MAC,'''        auto ret = m_alloc(&info);
        if (!ret) throw std::bad_alloc();
        return static_cast<byte_t*>(ret);''','''        if (void* buf = m_alloc(&info)) {
            return static_cast<byte_t*>(buf);
        }
        throw std::bad_alloc();''')]
E['oof_const']=[(OOF,'''    return *reinterpret_cast<object**>(reinterpret_cast<char*>(mixin_ptr) - sizeof_ptr);''','''    auto slot = static_cast<object**>(mixin_ptr);
    return slot[-1];''')]
E['dsb_ref']=[(DSB,'''        settings.canonicalize_types = val;
        return *this;''','''        auto& s = settings;
        s.canonicalize_types = val;
        return *this;''')]
E['omd_slot']=[(OMD,'''        void** obj_ptr_in_buf = reinterpret_cast<void**>(mixin - sizeof(void*));
        *obj_ptr_in_buf = obj;''','''        reinterpret_cast<dnmx_basic_object**>(mixin)[-1] = obj;''')]
E['oc_ref']=[(OC,'''        self->copy_from(*object::from_c_handle(source));
        return dnmx_result_success;''','''        auto& to = *self;
        auto& from = *object::from_c_handle(source);
        to.copy_from(from);
        return dnmx_result_success;'''),(OC,'''    if (self->sealed()) return false;
    self->clear();
    return true;''','''    const bool ok = !self->sealed();
    if (ok) self->clear();
    return ok;''')]
E['oc_type']=[(OC,'''    return ho->m_type;''','''    return &self->get_type();''')]
E['oc_cmp']=[(OC,'''    dnmx_int_result ret;
    try {
        ret.result = self->compare(*object::from_c_handle(b));
        ret.error = dnmx_result_success;
    }
    catch (std::exception&) {
        ret.error = -1;
    }
    return ret;''','''    dnmx_int_result ret;
    ret.error = -1;
    try {
        ret.result = self->compare(*object::from_c_handle(b));
        ret.error = dnmx_result_success;
    }
    catch (...) {
    }
    return ret;''')]
E['oc_catchall']=[(OC,'''        auto obj = new object(*domain::from_c_handle(hd));
        return obj->to_c_hanlde();
    }
    catch (std::exception&) {''','''        domain& dom = *domain::from_c_handle(hd);
        return (new object(dom))->to_c_hanlde();
    }
    catch (const std::exception&) {''')]
E['dc_helper']=[(DC,'''dnmx_error_return_t dnmx_register_feature(dnmx_domain_handle hd, dnmx_feature_info* info) {
    try {
        self->register_feature(*info);
        return dnmx_result_success;
    }
    catch (std::exception&) {
        return -1;
    }
}''','''dnmx_error_return_t dnmx_register_feature(dnmx_domain_handle hd, dnmx_feature_info* info) {
    return guarded([&] { self->register_feature(*info); });
}'''),(DC,'extern "C" {\n','''template <typename F>
static dnmx_error_return_t guarded(F&& f) {
    try {
        f();
        return dnmx_result_success;
    }
    catch (std::exception&) {
        return -1;
    }
}

extern "C" {
''')]
E['dc_span']=[(DC,'''        return &self->get_type({mixins, num_mixins});''','''        itlib::span<const dnmx_mixin_info* const> infos(mixins, num_mixins);
        auto& t = self->get_type(infos);
        return &t;''')]
E['dc_own']=[(DC,'''        std::unique_ptr<type_mutation> pmut(type_mutation::from_c_handle(*hmut));
        *hmut = nullptr;
        return''','''        std::unique_ptr<type_mutation> pmut;
        pmut.reset(type_mutation::from_c_handle(*hmut));
        *hmut = nullptr;
        return''')]
E['muc_match']=[(MUC,'''                if (ov.mixin) return ov.mixin == m;
                return ov.mixin_name == m->name;''','''                return ov.mixin ? ov.mixin == m : ov.mixin_name == m->name;''')]
E['muc_skip']=[(MUC,'''                if (op.op_type != dnmx_mutate_op_add) return false; // only collect add ops
                if (!op.init_override) return false; // ... which have an init override''','''                if (op.op_type != dnmx_mutate_op_add || op.init_override == nullptr) return false;''')]
E['muc_if']=[(MUC,'''            switch (op.op_type) {
            case dnmx_mutate_op_add:
                if (op.mixin) type_mut.add(*op.mixin);
                else type_mut.add(op.mixin_name.to_std());
                break;
            case dnmx_mutate_op_remove:''','''            switch (op.op_type) {
            case dnmx_mutate_op_add: {
                if (!op.mixin) {
                    type_mut.add(op.mixin_name.to_std());
                    break;
                }
                type_mut.add(*op.mixin);
                break;
            }
            case dnmx_mutate_op_remove:''')]
E['muc_range']=[(MUC,'''        for (mixin_index_t i = 0; i < t.num_mixins(); ++i) {
            auto* m = t.mixins[i];
            auto o = itlib::pfind_if(overrides''','''        mixin_index_t i = 0;
        for (; i != t.num_mixins(); i++) {
            const mixin_info* const m = t.mixins[i];
            auto o = itlib::pfind_if(overrides''')]
E['muc_nested']=[(MUC,'''                if (o->init_new) {
                    auto err = o->init_new({&args.info, args.mixin_buf, &args.target_type, nullptr, args.target_index, invalid_mixin_index, o->user_data});
                    if (err) {
                        throw_exception::obj_mut_user_error(args.target_type, "mutate_to", "init", args.info, err);
                    }
                }
                else {
                    util::default_init_new_func(args);
                }''','''                if (!o->init_new) {
                    util::default_init_new_func(args);
                    return;
                }
                const auto err = o->init_new({&args.info, args.mixin_buf, &args.target_type, nullptr, args.target_index, invalid_mixin_index, o->user_data});
                if (err != result_success) throw_exception::obj_mut_user_error(args.target_type, "mutate_to", "init", args.info, err);''')]
E['tc_byid']=[(TC,'''    return self->index_of(info->id);''','''    const auto id = info->id;
    return self->index_of(id);''')]
E['tc_try']=[(TC,'''    try {
        return self->is_of(name.to_std());
    }
    catch (std::exception&) {
        return false;
    }''','''    bool ret = false;
    try {
        ret = self->is_of(name.to_std());
    }
    catch (std::exception&) {}
    return ret;''')]
E['mcf_eq']=[(MCF,'''    return memcmp(a, b, info->size) == 0;''','''    return dnmx_mixin_common_cmp_func(info, a, b) == 0;''')]
E['mcf_move']=[(MCF,'''    memcpy(ptr, src, info->size);
    memset(src, 0, info->size);''','''    const size_t n = info->size;
    memcpy(ptr, src, n);
    memset(src, 0, n);''')]
E['mcf_move2']=[(MCF,'''    memcpy(ptr, src, info->size);
    memset(src, 0, info->size);''','''    dnmx_mixin_common_copy_func(info, ptr, src);
    dnmx_mixin_common_init_func(info, src);''')]
E['mi_order']=[(MI,'''    int32_t ca = a->order_priority, cb = b->order_priority;
    if (ca != cb) return ca < cb;
    int cmp = dnmx_sv_cmp(a->name, b->name);
    if (cmp) return cmp < 0;''','''    if (a->order_priority < b->order_priority) return true;
    if (a->order_priority > b->order_priority) return false;
    const int cmp = dnmx_sv_cmp(a->name, b->name);
    if (cmp < 0) return true;
    if (cmp > 0) return false;''')]
E['mi_size']=[(MI,'''    if (a < dnmx_sizeof_ptr) {
        // if alignment is less than sizeof_ptr, we would still have to align the object pointer in the buf
        // so we force the alignment to fit the pointer
        info->obj_buf_size = info->size + dnmx_sizeof_ptr;
        info->obj_buf_alignment_and_mixin_offset = dnmx_sizeof_ptr;
    }
    else {
        info->obj_buf_size = info->size + info->alignment;
        info->obj_buf_alignment_and_mixin_offset = info->alignment;
    }''','''    const dnmx_byte_size_t off = a < dnmx_sizeof_ptr ? dnmx_sizeof_ptr : a;
    info->obj_buf_alignment_and_mixin_offset = off;
    info->obj_buf_size = s + off;''')]
E['mi_ext']=[(MI,'''        return !move_init || allocator || force_external;''','''        if (force_external) return true;
        if (allocator != nullptr) return true;
        return move_init == nullptr;''')]
E['mi_make']=[(MI,'''    ret.obj_buf_size = dnmx_sizeof_ptr;
    ret.obj_buf_alignment_and_mixin_offset = dnmx_sizeof_ptr;
    return ret;''','''    dnmx_set_mixin_info_size_and_alignment(&ret, 0, 0);
    return ret;'''),(MI,'''// init with zeroes and set non-zero defaults
''','''static inline void dnmx_set_mixin_info_size_and_alignment(dnmx_mixin_info* info, dnmx_byte_size_t s, dnmx_byte_size_t a);
''')]
E['nm_ceil']=[(AU,'''    return ((s + n - 1) / n) // divide rounding up
        * n;  // and scale''','''    byte_size_t whole = s / n;
    if (s % n != 0) ++whole;
    return n * whole;''')]
