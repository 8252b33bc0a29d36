E = {}
D='code/dynamix/domain.cpp'; T='code/dynamix/type.cpp'; O='code/dynamix/object.cpp'; M='code/dynamix/object_mutation.cpp'; TM='code/dynamix/type_mutation.cpp'
# ---------------------------------------------------------------- domain
E['b_reg_slot_helper'] = [(D,'''        if (free_id == invalid) {
            free_id = id_t{dnmx_id_int_t(sparse.size())};
            sparse.push_back(nullptr);
        }

        info.id = free_id;
        sparse[info.iid()] = &info;
    }
''','''        occupy_slot_l(info, sparse, free_id);
    }

    template <typename T, typename Id>
    static void occupy_slot_l(T& info, compat::pmr::vector<const T*>& sparse, Id slot) {
        if (slot.i == dnmx_invalid_id) {
            slot = Id{dnmx_id_int_t(sparse.size())};
            sparse.push_back(&info);
        }
        else {
            sparse[slot.i] = &info;
        }
        info.id = slot;
    }
''')]
E['b_reg_find_first'] = [(D,'''            for (dnmx_id_int_t i = 0; i < sparse.size(); ++i) {
                if (!sparse[i]) {
                    free_id = id_t{i};
                    break;
                }
            }
''','''            auto f = std::find(sparse.begin(), sparse.end(), nullptr);
            if (f != sparse.end()) free_id = id_t{dnmx_id_int_t(f - sparse.begin())};
''')]
E['b_reg_forward_min'] = [(D,'''            for (dnmx_id_int_t i = dnmx_id_int_t(sparse.size()); i-- > 0; ) {
                auto reg = sparse[i];
                if (reg) {
                    assert(reg->iid() == i); // sanity check
                    if (reg->name == info.name) throw_exception::duplicate_name(m_domain, info);
                }
                else {
                    free_id = id_t{i};
                }
            }
''','''            for (dnmx_id_int_t i = 0; i < sparse.size(); ++i) {
                auto reg = sparse[i];
                if (!reg) {
                    if (free_id == invalid) free_id = id_t{i};
                    continue;
                }
                if (reg->name == info.name) throw_exception::duplicate_name(m_domain, info);
            }
''')]
E['b_is_own_helper'] = [(D,'''    template <typename T>
    void basic_unregister_l(T& info, compat::pmr::vector<const T*>& sparse) {
        // info is not our own?
        if (info.iid() >= sparse.size() || sparse[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);
''','''    template <typename T>
    static bool is_own_l(const T& info, const compat::pmr::vector<const T*>& sparse) {
        const auto i = info.iid();
        return i < sparse.size() && sparse[i] == &info;
    }

    template <typename T>
    void basic_unregister_l(T& info, compat::pmr::vector<const T*>& sparse) {
        // info is not our own?
        if (!is_own_l(info, sparse)) throw_exception::unreg_foreign(m_domain, info);
'''),(D,'''            auto& sparse_mixins = reg->sparse_mixins;
            if (info.iid() >= sparse_mixins.size() || sparse_mixins[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);
''','''            if (!is_own_l(info, reg->sparse_mixins)) throw_exception::unreg_foreign(m_domain, info);
'''),(D,'''        if (info.iid() >= sparse_mixins.size() || sparse_mixins[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);
        sparse_mixins[info.iid()] = nullptr; // free slot
''','''        if (!is_own_l(info, sparse_mixins)) throw_exception::unreg_foreign(m_domain, info);
        sparse_mixins[info.iid()] = nullptr; // free slot
''')]
E['b_unreg_mixin_reuse'] = [(D,'''        auto reg = m_element_registry.unique_lock();
        auto& sparse_mixins = reg->sparse_mixins;

        // mixin is not our own?
        if (info.iid() >= sparse_mixins.size() || sparse_mixins[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);
        sparse_mixins[info.iid()] = nullptr; // free slot

        // invalidate info
        info.id = invalid_mixin_id;
        info.dom = nullptr;
''','''        auto reg = m_element_registry.unique_lock();
        basic_unregister_l(info, reg->sparse_mixins);
        info.dom = nullptr;
''')]
E['b_purge_queries_helper'] = [(D,'''            auto& queries = treg->type_queries;
            for (auto iq = queries.begin(); iq != queries.end(); ) {
                if (iq->second->has(info.id)) {
                    // query leads to a type which contains mixin
                    iq = queries.erase(iq);
                }
                else if (itlib::pfind(iq->first, &info)) {
                    // query references mixin
                    iq = queries.erase(iq);
                }
                else {
                    ++iq;
                }
            }
''','''            erase_queries_if(treg->type_queries, [&](const type_query& q, const type& t) {
                return t.has(info.id) || itlib::pfind(q, &info);
            });
'''),(D,'''    void unregister_mixin(mixin_info& info) {
        {''','''    template <typename Pred>
    static void erase_queries_if(type_query_map& queries, Pred pred) {
        auto iq = queries.begin();
        while (iq != queries.end()) {
            if (pred(iq->first, *iq->second)) iq = queries.erase(iq);
            else ++iq;
        }
    }

    void unregister_mixin(mixin_info& info) {
        {'''),(D,'''            for (auto iq = queries.begin(); iq != queries.end(); ) {
                if (iq->second == it->get()) {
                    iq = queries.erase(iq);
                }
                else {
                    ++iq;
                }
            }
''','''            erase_queries_if(queries, [&](const type_query&, const type& qt) { return &qt == it->get(); });
''')]
E['b_unreg_types_while'] = [(D,'''            for (auto it = types.begin(); it != types.end(); ) {
                auto& t = *it;
                if (!t->has(info.id)) {
                    // type does't have mixin
                    ++it;
                    continue;
                }

                // removing a type with active objects?
                // UB and crashes await
                assert(t->num_objects() == 0);

                it = types.erase(it);
            }
''','''            auto it = types.begin();
            while (it != types.end()) {
                const type& t = **it;
                if (t.has(info.id)) {
                    assert(t.num_objects() == 0);
                    it = types.erase(it);
                }
                else {
                    ++it;
                }
            }
''')]
E['b_reg_mixin_feature_helper'] = [(D,'''        for (auto& f : info.features_span()) {
            if (f.info->id != invalid_feature_id) {
                // already registered
                assert(reg->sparse_features[f.info->iid()] == f.info); // sanity
                continue;
            }
            // we need to const_cast. this is the price of lazy ops in C++
            basic_register_l(*const_cast<feature_info*>(f.info), reg->sparse_features, !m_domain.m_settings.allow_duplicate_feature_names);

            // note that if the registration fails, previously registered features are not rolled back
            // and they shouldnt: features are separate from mixins
        }
''','''        register_features_of_l(info, *reg);
'''),(D,'''    void register_mixin(mixin_info& info) {''','''    void register_features_of_l(const mixin_info& info, element_registry& reg) {
        const bool unique_names = !m_domain.m_settings.allow_duplicate_feature_names;
        for (auto& f : info.features_span()) {
            auto* finfo = const_cast<feature_info*>(f.info);
            if (finfo->id == invalid_feature_id) {
                basic_register_l(*finfo, reg.sparse_features, unique_names);
            }
        }
    }

    void register_mixin(mixin_info& info) {''')]
E['b_tc_register_index'] = [(D,'''        const type_class** free_slot = nullptr;
        for (auto i = reg->sparse_type_classes.rbegin(); i != reg->sparse_type_classes.rend(); ++i) {
            auto tc = *i;
            if (tc) {
                if (tc->name == new_tc.name) throw_exception::duplicate_name(m_domain, new_tc);
            }
            else {
                free_slot = &*i;
            }
        }

        if (!free_slot) {
            free_slot = &reg->sparse_type_classes.emplace_back();
        }

        *free_slot = &new_tc;
''','''        auto& classes = reg->sparse_type_classes;
        size_t slot = classes.size();
        for (size_t i = classes.size(); i-- > 0; ) {
            if (!classes[i]) slot = i;
            else if (classes[i]->name == new_tc.name) throw_exception::duplicate_name(m_domain, new_tc);
        }

        if (slot == classes.size()) classes.push_back(&new_tc);
        else classes[slot] = &new_tc;
''')]
E['b_tc_unreg_replace'] = [(D,'''        for (auto& rtc : reg->sparse_type_classes) {
            if (rtc == &tc) {
                rtc = nullptr;
                return;
            }
        }
''','''        auto& classes = reg->sparse_type_classes;
        for (size_t i = 0; i != classes.size(); ++i) {
            if (classes[i] != &tc) continue;
            classes[i] = nullptr;
            break;
        }
''')]
E['b_rules_changed_helper'] = [(D,'''        // first time registered
        // we need to invalidate stored type queries
        // we can't tell which ones the rule affects, so we have to invalidate them all
        reg->type_queries.clear();
        ++reg->rules_revision;
    }
''','''        on_rules_changed_l(*reg);
    }
    static void on_rules_changed_l(type_registry& reg) noexcept {
        ++reg.rules_revision;
        reg.type_queries.clear();
    }
'''),(D,'''        reg->mutation_rules.erase(f);
        // we can't tell which ones the rule affects, so we have to invalidate them all
        reg->type_queries.clear();
        ++reg->rules_revision;
''','''        reg->mutation_rules.erase(f);
        on_rules_changed_l(*reg);
''')]
E['b_rule_add_find'] = [(D,'''        auto& rc = reg->mutation_rules[&info];
        ++rc;
        if (rc != 1) return; // not first-time registering
''','''        const uint32_t refs = ++reg->mutation_rules[&info];
        if (refs > 1) return; // not first-time registering
''')]
E['b_rule_remove_one'] = [(D,'''        assert(f->second > 0);
        --f->second;
        if (f->second > 0) return; // more refs exist
''','''        if (--f->second != 0) return; // more refs exist
''')]
E['b_apply_split'] = [(D,'''            for (auto& r : rules) {
                auto& info = *r.first;
                if (auto err = info.apply(mutation.to_c_hanlde(), info.user_data)) {
                    throw_exception::mutation_rule_user_error(mutation, info, err);
                }
            }
            if (last''','''            run_rules_once_l(mutation, rules);
            if (last'''),(D,'''    // applies mutation rules for mutation and returns the original''','''    static void run_rules_once_l(type_mutation& mutation, const mutation_rule_map& rules) {
        for (auto it = rules.begin(); it != rules.end(); ++it) {
            const mutation_rule_info& info = *it->first;
            const auto err = info.apply(mutation.to_c_hanlde(), info.user_data);
            if (err) throw_exception::mutation_rule_user_error(mutation, info, err);
        }
    }

    // applies mutation rules for mutation and returns the original''')]
E['b_apply_restructure'] = [(D,'''            if (last_result == nt_mixins) {
                // rules changed nothing, so no need to apply them again
                if (i == 0) return last_result; // first application changed nothing
                return original_query;
            }
            if (i == max_depenency_depth || i == int(rules.size())) {
                // again: this is not necessarily a real cycle but we treat it as such
                throw_exception::cyclic_rule_deps(mutation);
            }
            if (i == 0) {
                // first time running the loop and rules made changes, store original query to return
                original_query.swap(last_result);
            }
            last_result = nt_mixins;
''','''            const bool first = i == 0;
            if (last_result == nt_mixins) {
                // rules changed nothing, so no need to apply them again
                return first ? std::move(last_result) : std::move(original_query);
            }
            if (i >= max_depenency_depth || i >= int(rules.size())) {
                throw_exception::cyclic_rule_deps(mutation);
            }
            if (first) original_query = last_result;
            last_result = nt_mixins;
''')]
E['b_apply_erase_idiom'] = [(D,'''        itlib::erase_all_if(nt_mixins, [](const mixin_info* m) { return m->dependency; });
''','''        auto is_dependency = [](const mixin_info* m) { return m->dependency; };
        nt_mixins.erase(std::remove_if(nt_mixins.begin(), nt_mixins.end(), is_dependency), nt_mixins.end());
''')]
E['b_gettype_find_exact'] = [(D,'''            // now look for exact type
            if (mutation.mixins.empty()) {
                found = &m_empty_type;
            }
            else {
                auto f = reg->types.find(mutation.mixins);
                if (f != reg->types.end()) found = f->get();
            }
''','''            found = find_exact_type_l(*reg, mutation.mixins);
'''),(D,'''    const type& get_type(type_mutation& mutation) {''','''    const type* find_exact_type_l(const type_registry& reg, mixin_info_span mixins) const {
        if (mixins.empty()) return &m_empty_type;
        auto f = reg.types.find(mixins);
        return f == reg.types.end() ? nullptr : f->get();
    }

    const type& get_type(type_mutation& mutation) {''')]
E['b_gettype_query_helper'] = [(D,'''            auto reg = m_type_registry.shared_lock();
            {
                auto f = reg->type_queries.find(mutation.mixins);
                if (f != reg->type_queries.end()) return *f->second;
            }
''','''            auto reg = m_type_registry.shared_lock();
            if (auto* stored = find_query_l(*reg, mutation.mixins)) return *stored;
'''),(D,'''            auto reg = m_type_registry.shared_lock();
            auto f = reg->type_queries.find(mixins);
            if (f != reg->type_queries.end()) return *f->second;
''','''            auto reg = m_type_registry.shared_lock();
            if (auto* stored = find_query_l(*reg, mixins)) return *stored;
'''),(D,'''    const type& get_type(type_mutation& mutation) {''','''    static const type* find_query_l(const type_registry& reg, mixin_info_span mixins) {
        auto f = reg.type_queries.find(mixins);
        if (f == reg.type_queries.end()) return nullptr;
        return f->second;
    }

    const type& get_type(type_mutation& mutation) {''')]
E['b_gettype_inverted'] = [(D,'''        if (found) {
            // we found a type with this mutation, but don't have the query stored
            // store the query only and return the type

            // it may be the case here that another thread waits to do the exact same thing
            // but the code below is safe
            // worst (and extremely rare) case we wasted cpu applying the same rules twice

            auto reg = m_type_registry.unique_lock();
            if (reg->rules_revision == rules_revision) reg->type_queries[std::move(original_query)] = found;
            return *found;
        }

        return create_type(mutation, std::move(original_query), rules_revision);
''','''        if (!found) return create_type(mutation, std::move(original_query), rules_revision);

        auto reg = m_type_registry.unique_lock();
        if (reg->rules_revision == rules_revision) {
            reg->type_queries.insert_or_assign(std::move(original_query), found);
        }
        return *found;
''')]
E['b_store_query_member'] = [(D,'''            auto reg = m_type_registry.unique_lock();
            if (reg->rules_revision == rules_revision) reg->type_queries[std::move(original_query)] = found;
            return *found;
''','''            auto reg = m_type_registry.unique_lock();
            reg->store_query(std::move(original_query), *found, rules_revision);
            return *found;
'''),(D,'''        if (reg->rules_revision == rules_revision) reg->type_queries[std::move(query)] = reg_type;
''','''        reg->store_query(std::move(query), *reg_type, rules_revision);
'''),(D,'''        uint64_t rules_revision = 0;
    };
''','''        uint64_t rules_revision = 0;

        void store_query(type_query&& q, const type& t, uint64_t revision) {
            if (revision != rules_revision) return;
            type_queries[std::move(q)] = &t;
        }
    };
''')]
E['b_create_check_helper'] = [(D,'''        for (size_t i = 0; i < mixins.size(); ++i) {
            auto m = mixins[i];
            if (m->id == invalid_mixin_id) throw_exception::type_mut_error(mutation, "unregistered", *m);
            if (m->dom != &m_domain) throw_exception::foreign_mixin(mutation, *m);
            for (size_t j = i + 1; j < mixins.size(); ++j) {
                if (mixins[i] == mixins[j]) throw_exception::type_mut_error(mutation, "duplicate", *m);
            }
        }
''','''        check_mutation(mutation);
'''),(D,'''    // create type for a given mutation requested''','''    void check_mutation(const type_mutation& mutation) const {
        const auto& mixins = mutation.mixins;
        for (auto im = mixins.begin(); im != mixins.end(); ++im) {
            const mixin_info& m = **im;
            if (m.id == invalid_mixin_id) throw_exception::type_mut_error(mutation, "unregistered", m);
            if (m.dom != &m_domain) throw_exception::foreign_mixin(mutation, m);
            if (std::find(im + 1, mixins.end(), &m) != mixins.end()) throw_exception::type_mut_error(mutation, "duplicate", m);
        }
    }

    // create type for a given mutation requested''')]
E['b_create_layout_helper'] = [(D,'''        for (size_t i = 0; i < mixins.size(); ++i) {
            const auto* m = mixins[i];
            auto& mo = mixin_offsets[i];
            if (m->external()) {
                mo = 0;
                continue; // externals don't affect alignment or size
            }
            auto ma = m->alignment;
            if (ma > obj_buf_alignment) obj_buf_alignment = ma;
            else if (ma < sizeof_ptr) ma = sizeof_ptr;

            auto padding = util::next_multiple(obj_buf_size, ma) - obj_buf_size;
            if (padding < sizeof_ptr) padding += ma;

            obj_buf_size += padding;
            assert(obj_buf_size % ma == 0);

            mo = obj_buf_size; // mixin offset is here

            obj_buf_size += m->size;
        }
''','''        for (size_t i = 0; i < mixins.size(); ++i) {
            const mixin_info& m = *mixins[i];
            if (m.external()) {
                mixin_offsets[i] = 0; // externals don't affect alignment or size
            }
            else {
                mixin_offsets[i] = place_mixin(m, obj_buf_size, obj_buf_alignment);
            }
        }
'''),(D,'''    // create type for a given mutation requested''','''    // place an internal mixin after buf_size and return its offset
    static byte_size_t place_mixin(const mixin_info& m, byte_size_t& buf_size, byte_size_t& buf_alignment) {
        const byte_size_t align = std::max<byte_size_t>(m.alignment, sizeof_ptr);
        buf_alignment = std::max(buf_alignment, align);
        byte_size_t offset = util::next_multiple(buf_size, align);
        if (offset - buf_size < sizeof_ptr) offset += align;
        buf_size = offset + m.size;
        return offset;
    }

    // create type for a given mutation requested''')]
E['b_create_padding_alt'] = [(D,'''            auto padding = util::next_multiple(obj_buf_size, ma) - obj_buf_size;
            if (padding < sizeof_ptr) padding += ma;

            obj_buf_size += padding;
            assert(obj_buf_size % ma == 0);

            mo = obj_buf_size; // mixin offset is here

            obj_buf_size += m->size;
''','''            const byte_size_t unpadded = obj_buf_size;
            obj_buf_size = util::next_multiple(unpadded, ma);
            if (obj_buf_size - unpadded < sizeof_ptr) obj_buf_size += ma;

            mo = obj_buf_size; // mixin offset is here
            obj_buf_size = mo + m->size;
''')]
E['b_create_maxid_loop'] = [(D,'''        const auto num_sparse = /*iile*/[&]() {
            auto max_by_id = std::max_element(mixins.begin(), mixins.end(), [](const mixin_info* a, const mixin_info* b) {
                return a->iid() < b->iid();
            });
            return (*max_by_id)->iid() + 1;
        }();
''','''        dnmx_id_int_t num_sparse = 0;
        for (auto* m : mixins) {
            num_sparse = std::max(num_sparse, dnmx_id_int_t(m->iid() + 1));
        }
''')]
E['b_create_sparse_first'] = [(D,'''        std::fill(sparse_mixin_indices.begin(), sparse_mixin_indices.end(), invalid_mixin_index);
        for (mixin_index_t i = 0; i < mixins.size(); ++i) {
            sparse_mixin_indices[mixins[i]->iid()] = i;
        }
''','''        for (auto& smi : sparse_mixin_indices) smi = invalid_mixin_index;
        mixin_index_t index = 0;
        for (auto* m : mixins) {
            sparse_mixin_indices[m->iid()] = index++;
        }
''')]
E['b_create_copy_loop'] = [(D,'''        std::copy(mixins.begin(), mixins.end(), new_type_mixins.begin());
''','''        for (size_t i = 0; i < mixins.size(); ++i) new_type_mixins[i] = mixins[i];
''')]
E['b_create_cursor'] = [(D,'''        // ftable
        auto ftable = ftable_helper.build_ftable(bptr);
        bptr += ftable_size;
        new_type->ftable''','''        // ftable
        byte_t* const ftable_ptr = bptr;
        byte_t* const mixins_ptr = ftable_ptr + ftable_size;
        auto ftable = ftable_helper.build_ftable(ftable_ptr);
        new_type->ftable'''),(D,'''        itlib::span new_type_mixins(reinterpret_cast<const mixin_info**>(bptr), mixins.size());
        bptr += mixins_buf_size;
''','''        itlib::span new_type_mixins(reinterpret_cast<const mixin_info**>(mixins_ptr), mixins.size());
        bptr = mixins_ptr + mixins_buf_size;
''')]
E['b_ft_helper_ctor'] = [(D,'''            feature_id::int_t ftable_size = 0;
            for (const auto* mixin : m_mut.mixins) {
                for (auto& feature : mixin->features_span()) {
                    const auto size_with = feature.info->iid() + 1;
                    if (size_with > ftable_size) {
                        ftable_size = size_with;
                    }
                }
            }

            // second pass:
            // * count reachable payloads per feature
            // * count total payloads
            m_num_reachable_pls.resize(ftable_size);
            for (const auto* mixin : m_mut.mixins) {
                for (auto& feature : mixin->features_span()) {
                    ++m_num_reachable_pls[feature.info->iid()];
                    ++m_num_total_pls;
                }
            }
''','''            for (const auto* mixin : m_mut.mixins) {
                for (auto& feature : mixin->features_span()) {
                    const auto id = feature.info->iid();
                    if (id >= m_num_reachable_pls.size()) m_num_reachable_pls.resize(id + 1);
                    ++m_num_reachable_pls[id];
                    ++m_num_total_pls;
                }
            }
''')]
E['b_ft_total_accum'] = [(D,'''                for (auto& feature : mixin->features_span()) {
                    ++m_num_reachable_pls[feature.info->iid()];
                    ++m_num_total_pls;
                }
''','''                const auto features = mixin->features_span();
                m_num_total_pls += uint32_t(features.size());
                for (auto& feature : features) {
                    m_num_reachable_pls[feature.info->iid()] += 1;
                }
''')]
E['b_ft_fill'] = [(D,'''                    entry.end->mixin_index = i;
                    entry.end->payload = feature.payload;
                    entry.end->data = &feature;
                    ++entry.end;
''','''                    type::ftable_payload& pl = *entry.end++;
                    pl.data = &feature;
                    pl.payload = feature.payload;
                    pl.mixin_index = i;
''')]
E['b_ft_sort_static'] = [(D,'''                std::sort(entry.begin, entry.end, [&](const type::ftable_payload& a, const type::ftable_payload& b) {
                    auto& adata = *a.data;
                    auto& bdata = *b.data;

                    // first by bid
                    if (adata.bid != bdata.bid) return adata.bid > bdata.bid;

                    // then by prio
                    if (adata.priority != bdata.priority) return adata.priority < bdata.priority;

                    // then by mixin order such that the last mixin is first
                    return a.mixin_index > b.mixin_index;
                });
''','''                std::sort(entry.begin, entry.end, payload_less);
'''),(D,'''        itlib::span<const type::ftable_entry> build_ftable(byte_t* const ptr) const {''','''        static bool payload_less(const type::ftable_payload& a, const type::ftable_payload& b) {
            const auto ab = a.data->bid, bb = b.data->bid;
            if (ab > bb) return true;
            if (ab < bb) return false;
            const auto ap = a.data->priority, bp = b.data->priority;
            return ap < bp || (ap == bp && b.mixin_index < a.mixin_index);
        }

        itlib::span<const type::ftable_entry> build_ftable(byte_t* const ptr) const {''')]
E['b_ft_clash_adjacent'] = [(D,'''                    for (auto ie = entry.begin; ie != entry.end - 1; ++ie) {
                        const auto& cur = *ie;
                        const auto& next = *(ie + 1);
                        if (cur.data->bid == next.data->bid && cur.data->priority == next.data->priority) {
                            // same bid and prio = clash
                            throw_exception::feature_clash(m_mut, cur, next);
                        }
                    }
''','''                    auto f = std::adjacent_find(entry.begin, entry.end, [](const type::ftable_payload& a, const type::ftable_payload& b) {
                        return a.data->bid == b.data->bid && a.data->priority == b.data->priority;
                    });
                    if (f != entry.end) throw_exception::feature_clash(m_mut, f[0], f[1]);
''')]
E['b_ft_clash_prev'] = [(D,'''                    for (auto ie = entry.begin; ie != entry.end - 1; ++ie) {
                        const auto& cur = *ie;
                        const auto& next = *(ie + 1);
''','''                    for (auto ie = entry.begin + 1; ie != entry.end; ++ie) {
                        const auto& cur = *(ie - 1);
                        const auto& next = *ie;
''')]
E['b_ft_topbid_while'] = [(D,'''                for (auto pl = entry.begin + 1; pl != entry.end; ++pl) {
                    if (pl->data->bid != entry.top_bid_back->data->bid) {
                        // top bid end reached
                        break;
                    }
                    entry.top_bid_back = pl;
                }
''','''                const auto top_bid = entry.begin->data->bid;
                auto back = entry.begin;
                while (back + 1 != entry.end && back[1].data->bid == top_bid) ++back;
                entry.top_bid_back = back;
''')]
E['b_ft_finish_helper'] = [(D,'''                // set top_bid_back pointer (currently pointing to begin)
                for (auto pl = entry.begin + 1; pl != entry.end; ++pl) {
                    if (pl->data->bid != entry.top_bid_back->data->bid) {
                        // top bid end reached
                        break;
                    }
                    entry.top_bid_back = pl;
                }
            }
''','''                set_top_bid_back(entry);
            }
'''),(D,'''        itlib::span<const type::ftable_entry> build_ftable(byte_t* const ptr) const {''','''        static void set_top_bid_back(mutable_ftable_entry& entry) {
            for (auto pl = entry.begin + 1; pl != entry.end && pl->data->bid == entry.begin->data->bid; ++pl) {
                entry.top_bid_back = pl;
            }
        }

        itlib::span<const type::ftable_entry> build_ftable(byte_t* const ptr) const {''')]
E['b_gc_split'] = [(D,'''            if (t->num_objects() > 0) {
                // objects of this type still exist
                ++it;
                continue;
            }

            // erase queries which lead to this type
            for (auto iq = queries.begin(); iq != queries.end(); ) {
                if (iq->second == it->get()) {
                    iq = queries.erase(iq);
                }
                else {
                    ++iq;
                }
            }
            it = types.erase(it);
''','''            if (t->num_objects() == 0) {
                drop_queries_of_l(*t, queries);
                it = types.erase(it);
            }
            else {
                ++it; // objects of this type still exist
            }
'''),(D,'''    void garbage_collect_types() noexcept {
        auto l''','''    static void drop_queries_of_l(const type& t, type_query_map& queries) noexcept {
        for (auto iq = queries.begin(); iq != queries.end(); ) {
            auto cur = iq++;
            if (cur->second == &t) queries.erase(cur);
        }
    }

    void garbage_collect_types() noexcept {
        auto l''')]
E['b_span_less_alt'] = [(D,'''    size_t as = a.size(), bs = b.size();
    if (as != bs) return as < bs;
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
''','''    if (a.size() < b.size()) return true;
    if (b.size() < a.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i] != b[i]) return a[i] < b[i];
    }
    return false;
''')]
E['b_rule_compare_flat'] = [(D,'''            if (a->order_priority != b->order_priority) return a->order_priority < b->order_priority;
            auto name_cmp = dnmx_sv_cmp(a->name, b->name);
            if (name_cmp != 0) return name_cmp < 0;
            return a < b;
''','''            if (a->order_priority < b->order_priority) return true;
            if (a->order_priority > b->order_priority) return false;
            const int c = dnmx_sv_cmp(a->name, b->name);
            return c < 0 || (c == 0 && a < b);
''')]
E['b_traverse_helper'] = [(D,'''void domain_traverse::traverse_mixins(std::function<void(const mixin_info&)> func) const {
    for (auto* m : m_impl->er->sparse_mixins) {
        if (m) func(*m);
    }
}
void domain_traverse::traverse_features(std::function<void(const feature_info&)> func) const {
    for (auto* f : m_impl->er->sparse_features) {
        if (f) func(*f);
    }
}
''','''namespace {
template <typename Vec, typename Func>
void for_each_live(const Vec& sparse, const Func& func) {
    for (auto i = sparse.begin(); i != sparse.end(); ++i) {
        if (!*i) continue;
        func(**i);
    }
}
}
void domain_traverse::traverse_mixins(std::function<void(const mixin_info&)> func) const {
    for_each_live(m_impl->er->sparse_mixins, func);
}
void domain_traverse::traverse_features(std::function<void(const feature_info&)> func) const {
    for_each_live(m_impl->er->sparse_features, func);
}
''')]
E['b_traverse_binding'] = [(D,'''    for (auto& mr : m_impl->tr->mutation_rules) {
        func(*mr.first, mr.second);
    }
''','''    for (auto& [info, refs] : m_impl->tr->mutation_rules) {
        func(*info, refs);
    }
'''),(D,'''    for (auto& tc : m_impl->tr->type_queries) {
        func(tc.first, *tc.second);
    }
''','''    const auto& queries = m_impl->tr->type_queries;
    for (auto it = queries.begin(); it != queries.end(); ++it) {
        func(it->first, *it->second);
    }
''')]
E['b_get_locked'] = [(D,'''    const mixin_info* get_mixin_info(mixin_id id) noexcept {
        return basic_get_by_id_l(id, m_element_registry.shared_lock()->sparse_mixins);
    }
''','''    const mixin_info* get_mixin_info(mixin_id id) noexcept {
        auto reg = m_element_registry.shared_lock();
        auto& sparse = reg->sparse_mixins;
        return id.i < sparse.size() ? sparse[id.i] : nullptr;
    }
''')]
E['b_reg_feature_lock'] = [(D,'''        basic_register_l(info, m_element_registry.unique_lock()->sparse_features, !m_domain.m_settings.allow_duplicate_feature_names);
    }

    // to be''','''        const bool unique = !m_domain.m_settings.allow_duplicate_feature_names;
        auto reg = m_element_registry.unique_lock();
        basic_register_l(info, reg->sparse_features, unique);
    }

    // to be''')]
E['b_dom_settings'] = [(D,'''        if (m_domain.m_settings.canonicalize_types) {
            // we solve this requirement by adding a mutation rule which sorts the mixins of the new type
            add_mutation_rule(m_canonicalize_rule);
        }
''','''        const auto& settings = m_domain.m_settings;
        if (!settings.canonicalize_types) return;
        add_mutation_rule(m_canonicalize_rule);
''')]
E['b_num_types'] = [(D,'''    return m_impl->m_type_registry.shared_lock()->types.size();
''','''    auto reg = m_impl->m_type_registry.shared_lock();
    const auto& types = reg->types;
    return types.size();
''')]
# ---------------------------------------------------------------- type
E['b_type_index_it'] = [(T,'''    for (mixin_index_t i = 0; i < mixins.size(); ++i) {
        if (mixins[i]->name == name) return i;
    }
    return invalid_mixin_index;
''','''    auto f = std::find_if(mixins.begin(), mixins.end(), [&](const mixin_info* m) { return m->name == name; });
    if (f == mixins.end()) return invalid_mixin_index;
    return mixin_index_t(f - mixins.begin());
''')]
E['b_type_strong_name'] = [(T,'''    for (uint32_t i = 0; i < ftable_length; ++i) {
        auto& e = ftable[i];
        if (!e) continue;
        if (e.begin->data->info->name == name) return true;
    }
    return false;
''','''    const auto* fend = ftable + ftable_length;
    for (auto* e = ftable; e != fend; ++e) {
        if (*e && e->begin->data->info->name == name) return true;
    }
    return false;
''')]
E['b_type_find_impl'] = [(T,'''    for (auto i = fe.begin; i != fe.end; ++i) {
        if (i->mixin_index == mixin_index) return i;
    }
    return nullptr;
''','''    auto i = fe.begin;
    while (i != fe.end && i->mixin_index != mixin_index) ++i;
    return i == fe.end ? nullptr : i;
''')]
E['b_type_next'] = [(T,'''    ++f;
    if (f == fe.end) return nullptr; // provided mixin was the last - there is no next implementer
    return f;
''','''    const auto next = f + 1;
    return next != fe.end ? next : nullptr;
''')]
E['b_type_next_set'] = [(T,'''    auto fbid = f->data->bid;
    while (f != fe.end && f->data->bid == fbid) ++f; // find the end of the current bidder set
    if (f == fe.end) return {}; // provided mixin was of the last bidder set - there is no next one

    auto begin = f;
    auto end = begin + 1;
    while (end != fe.end && end->data->bid == f->data->bid) ++end; // find the end of the next bidder set
    return {begin, end};
''','''    auto begin = end_of_bidder_set(f, fe.end);
    if (begin == fe.end) return {}; // provided mixin was of the last bidder set - there is no next one
    return {begin, end_of_bidder_set(begin, fe.end)};
'''),(T,'''const type::ftable_payload* find_implementer(''','''const type::ftable_payload* end_of_bidder_set(const type::ftable_payload* p, const type::ftable_payload* end) noexcept {
    const auto bid = p->data->bid;
    do {
        ++p;
    } while (p != end && p->data->bid == bid);
    return p;
}

const type::ftable_payload* find_implementer(''')]
E['b_type_compare_idx'] = [(T,'''    auto m = mixins.begin();
    const auto mend = mixins.end();
    auto o = other.mixins.begin();
    const auto oend = other.mixins.end();
    while (true) {
        if (m == mend) {
            assert(o != oend); // sanity: how is this the same type?
            return -1;
        }

        if (o == oend) return 1;

        if (*m != *o) {
            canonical_mixin_order cmp;
            return cmp(*m, *o) ? -1 : 1;
        }

        ++m;
        ++o;
    }
''','''    const size_t common = std::min(mixins.size(), other.mixins.size());
    for (size_t i = 0; i < common; ++i) {
        if (mixins[i] == other.mixins[i]) continue;
        return canonical_mixin_order{}(mixins[i], other.mixins[i]) ? -1 : 1;
    }
    return mixins.size() <= other.mixins.size() ? -1 : 1;
''')]
E['b_type_all'] = [(T,'''    return itlib::qall_of(mixins, [](const mixin_info* m) { return m->equals || m->compare; });
''','''    for (auto* m : mixins) {
        if (!m->equals && !m->compare) return false;
    }
    return true;
''')]
E['b_type_alloc'] = [(T,'''    auto ret = alloc.allocate_bytes(object_buffer_size, object_buffer_alignment);
    ++m_num_objects;
    return static_cast<byte_t*>(ret);
''','''    byte_t* buf = static_cast<byte_t*>(alloc.allocate_bytes(object_buffer_size, object_buffer_alignment));
    m_num_objects++;
    return buf;
'''),(T,'''    alloc.deallocate_bytes(ptr, object_buffer_size, object_buffer_alignment);
    --m_num_objects;
''','''    alloc.deallocate_bytes(ptr, object_buffer_size, object_buffer_alignment);
    m_num_objects--;
''')]
# ---------------------------------------------------------------- object_mutation
E['b_om_is_common'] = [(M,'''            if (m_old_mixin_data && m_old_type->has(info.id)) {
                // we have that external mixin, so just redirect buffer''','''            if (is_common(m_old_mixin_data, m_old_type, info)) {
                // we have that external mixin, so just redirect buffer'''),(M,'''        if (m_old_mixin_data && m_old_type->has(info.id)) {
            // we have that type''','''        if (is_common(m_old_mixin_data, m_old_type, info)) {
            // we have that type'''),(M,'''        if (m_old_mixin_data && m_old_type->has(info.id)) continue; // not new
''','''        if (is_common(m_old_mixin_data, m_old_type, info)) continue; // not new
'''),(M,'''object_mutation::object_mutation(object& obj, const type& type)
''','''namespace {
bool is_common(const object_mixin_data* old_data, const type* old_type, const mixin_info& info) noexcept {
    if (!old_data) return false;
    return old_type->has(info.id);
}
}

object_mutation::object_mutation(object& obj, const type& type)
''')]
E['b_om_dealloc_helper'] = [(M,'''        if (auto* alloc = info.allocator) {
            // allocated by mixin allocator
            mixin_allocator::from_c_handle(alloc)->dealloc_mixin_buf(data.buf, info);
        }
        else {
            // allocated by the own allocator
            deallocate_external_mixin(data.buf, info);
        }
''','''        release(data.buf, info);
'''),(M,'''                if (auto* alloc = info.allocator) {
                    // allocated by mixin allocator
                    mixin_allocator::from_c_handle(alloc)->dealloc_mixin_buf(old_data.buf, info);
                }
                else {
                    // allocated by the own allocator
                    deallocate_external_mixin(old_data.buf, info);
                }
''','''                release(old_data.buf, info);
'''),(M,'''void object_mutation::deallocate_mixin_data() noexcept {
''','''void object_mutation::deallocate_mixin_data() noexcept {
    auto release = [this](byte_t* buf, const mixin_info& info) {
        if (auto* alloc = info.allocator) mixin_allocator::from_c_handle(alloc)->dealloc_mixin_buf(buf, info);
        else deallocate_external_mixin(buf, info);
    };
'''),(M,'''void object_mutation::finalize() noexcept {
''','''void object_mutation::finalize() noexcept {
    auto release = [this](byte_t* buf, const mixin_info& info) {
        if (info.allocator) mixin_allocator::from_c_handle(info.allocator)->dealloc_mixin_buf(buf, info);
        else deallocate_external_mixin(buf, info);
    };
''')]
E['b_om_alloc_restructure'] = [(M,'''    for (mixin_index_t& ti = m_allocated_upto; ti < m_target_type.num_mixins(); ++ti) {
        auto offset = m_target_type.mixin_offsets[ti];
        auto& data = m_target_mixin_data[ti];
        if (offset) {
            // offset is non-zero which means an internal mixin in the unified buffer
            data.buf = nullptr;
            data.mixin = buf + offset;
            data.set_object(&m_object);
        }
        else {
''','''    const auto num_mixins = m_target_type.num_mixins();
    while (m_allocated_upto < num_mixins) {
        const mixin_index_t ti = m_allocated_upto;
        const uint32_t offset = m_target_type.mixin_offsets[ti];
        object_mixin_data& data = m_target_mixin_data[ti];
        if (offset != 0) {
            // offset is non-zero which means an internal mixin in the unified buffer
            data.mixin = buf + offset;
            data.buf = nullptr;
            data.set_object(&m_object);
        }
        else {
'''),(M,'''                data.mixin = data.buf + info.obj_buf_alignment_and_mixin_offset;
                data.set_object(&m_object);
            }
        }
    }
}
''','''                data.mixin = data.buf + info.obj_buf_alignment_and_mixin_offset;
                data.set_object(&m_object);
            }
        }
        ++m_allocated_upto;
    }
}
''')]
E['b_om_dealloc_loop'] = [(M,'''    for (mixin_index_t ti = m_allocated_upto; ti-- > 0; ) {
        auto& data = m_target_mixin_data[ti];
        if (!data.buf) continue;''','''    while (m_allocated_upto > 0) {
        const mixin_index_t ti = --m_allocated_upto;
        auto& data = m_target_mixin_data[ti];
        if (!data.buf) continue;'''),(M,'''    m_allocated_upto = 0;

    // finally''','''    // finally''')]
E['b_om_destroy_loop'] = [(M,'''    for (mixin_index_t ti = m_updated_upto; ti-- > 0; ) {
        const auto& info = *m_target_type.mixins[ti];
        if (m_old_mixin_data && m_old_type->has(info.id)) continue; // not new
        if (!info.destroy) continue; // no destructor
        info.destroy(&info, m_target_mixin_data[ti].mixin);
    }
    m_updated_upto = 0;
''','''    for (; m_updated_upto > 0; --m_updated_upto) {
        const mixin_index_t ti = m_updated_upto - 1;
        const auto& info = *m_target_type.mixins[ti];
        const bool is_new = !m_old_mixin_data || !m_old_type->has(info.id);
        if (is_new && info.destroy) {
            info.destroy(&info, m_target_mixin_data[ti].mixin);
        }
    }
''')]
E['b_om_rollback_order'] = [(M,'''    m_complete = false;
    if (&m_target_type != m_old_type) {
        // tag: same_type_shortcut
        // no new mixins, no allocated mixin data
        destroy_new_mixins();
        deallocate_mixin_data();
    }
    m_moved_out_from = true;
''','''    m_moved_out_from = true;
    m_complete = false;
    const bool same_type = &m_target_type == m_old_type;
    if (same_type) return; // no new mixins, no allocated mixin data
    destroy_new_mixins();
    deallocate_mixin_data();
''')]
E['b_om_finalize_split'] = [(M,'''            if (m_target_type.has(info.id)) {
                // common mixin
                if (old_data.buf) continue; // external: already in new buf

                // common internal mixin: move to new buf
                auto* new_mixin = m_target_mixin_data[m_target_type.sparse_mixin_indices[info.iid()]].mixin;
                info.move_init(&info, new_mixin, old_data.mixin);

                // desroy the one we moved-out from
                if (auto destroy = info.destroy) {
                    destroy(&info, old_data.mixin);
                }
            }
            else {
                // old-only mixin: destroy
                if (auto destroy = info.destroy) {
                    destroy(&info, old_data.mixin);
                }

                // ... and dealloc
                if (!old_data.buf) continue; // internal: no dealloc needed
''','''            const bool common = m_target_type.has(info.id);
            const bool external = old_data.buf;
            if (common && external) continue; // already in new buf

            if (common) {
                // common internal mixin: move to new buf
                auto* new_mixin = m_target_mixin_data[m_target_type.index_of(info.id)].mixin;
                info.move_init(&info, new_mixin, old_data.mixin);
            }

            // destroy the old-only or the one we moved-out from
            if (info.destroy) info.destroy(&info, old_data.mixin);

            if (external) {
''')]
E['b_om_default_init'] = [(M,'''    auto& info = args.info;
    if (!info.init) throw_exception::obj_mut_error(args.target_type, "mutate to", "missing default init", info);
    auto err = info.init(&info, args.mixin_buf);
    if (err) throw_exception::obj_mut_user_error(args.target_type, "mutate to", "deafult init", info, err);
''','''    const mixin_info& info = args.info;
    if (auto init = info.init) {
        if (auto err = init(&info, args.mixin_buf)) {
            throw_exception::obj_mut_user_error(args.target_type, "mutate to", "deafult init", info, err);
        }
        return;
    }
    throw_exception::obj_mut_error(args.target_type, "mutate to", "missing default init", info);
''')]
E['b_om_dtor_flag'] = [(M,'''    if (m_moved_out_from) return;

    if (std::uncaught_exceptions() > m_uncaught_exceptions) {
        rollback();
        return;
    }

    try {''','''    if (m_moved_out_from) return;

    const bool unwinding = std::uncaught_exceptions() > m_uncaught_exceptions;
    if (unwinding) {
        rollback();
        return;
    }

    try {''')]
# ---------------------------------------------------------------- object
E['b_o_copyfrom_helper'] = [(O,'''    // check copy availability
    for (const auto* info : o.get_type().mixins) {
        if (get_type().has(info->id)) {
            // matching type - must be copy-assignable
            if (!info->copy_asgn) throw_exception::obj_mut_error(tt, "copy_from", "missing copy assign", *info);
        }
        else {
            // o-only type - must be copy-constructible
            if (!info->copy_init) throw_exception::obj_mut_error(tt, "copy_from", "missing copy init", *info);
        }
    }
''','''    check_copyable(get_type(), tt);
'''),(O,'''void object::copy_from(const object& o) {''','''static void check_copyable(const type& own, const type& source) {
    for (const mixin_info* info : source.mixins) {
        const bool matching = own.has(info->id);
        if (matching && !info->copy_asgn) throw_exception::obj_mut_error(source, "copy_from", "missing copy assign", *info);
        if (!matching && !info->copy_init) throw_exception::obj_mut_error(source, "copy_from", "missing copy init", *info);
    }
}

void object::copy_from(const object& o) {''')]
E['b_o_match_idx'] = [(O,'''        auto& info = *otype.mixins[src_index];
        auto own_index = mtype.index_of(info.id);
        if (own_index == invalid_mixin_index) continue;
        auto err = info.copy_asgn(&info,
            m_mixin_data[own_index].mixin,
            o.m_mixin_data[src_index].mixin
        );
        if (err) throw_exception::obj_mut_user_error(mtype, "copy_matching_from", "copy assign", info, err);
''','''        auto& info = *otype.mixins[src_index];
        const auto own_index = mtype.index_of(info.id);
        if (own_index != invalid_mixin_index) {
            void* const target = m_mixin_data[own_index].mixin;
            const void* const source = o.m_mixin_data[src_index].mixin;
            if (auto err = info.copy_asgn(&info, target, source)) {
                throw_exception::obj_mut_user_error(mtype, "copy_matching_from", "copy assign", info, err);
            }
        }
''')]
E['b_o_movematch'] = [(O,'''        if (mtype.has(info->id)) {
            // matching type - must be move-assignable
            if (info->move_asgn) continue;
            // .. or if fallback is allowed, move-constructible
            if (fallback_to_init && info->move_init) continue;
            throw_exception::obj_mut_error(mtype, "move_matching_from", "cannot be moved", *info);
        }
''','''        if (!mtype.has(info->id)) continue;
        const bool movable = info->move_asgn || (fallback_to_init && info->move_init);
        if (!movable) throw_exception::obj_mut_error(mtype, "move_matching_from", "cannot be moved", *info);
''')]
E['b_o_equals_mixin'] = [(O,'''        if (info.equals) {
            if (!info.equals(&info, own_mixin, other_mixin)) return false;
        }
        else if (info.compare) {
            if (info.compare(&info, own_mixin, other_mixin)) return false;
        }
        else {
            return false;
        }
    }

    return true;
''','''        if (!mixins_equal(info, own_mixin, other_mixin)) return false;
    }

    return true;
'''),(O,'''bool object::equals(const object& other) const noexcept {''','''static bool mixins_equal(const mixin_info& info, const void* a, const void* b) noexcept {
    if (info.equals) return info.equals(&info, a, b);
    return info.compare && info.compare(&info, a, b) == 0;
}

bool object::equals(const object& other) const noexcept {''')]
E['b_o_usurp_exchange'] = [(O,'''    m_type = other.m_type;
    m_mixin_data = other.m_mixin_data;
    m_sealed = other.m_sealed;
''','''    m_sealed = other.m_sealed;
    m_mixin_data = other.m_mixin_data;
    m_type = other.m_type;
    other.m_mixin_data = nullptr;
'''),(O,'''    other.m_type = &get_domain().get_empty_type();
    other.m_mixin_data = nullptr;
''','''    other.m_type = &get_domain().get_empty_type();
''')]
E['b_o_assign_guard'] = [(O,'''    if (m_allocator == o.m_allocator) {
        if (m_sealed) throw_exception::obj_mut_sealed_object(get_type(), "move assign");
        clear_mixin_data();
        usurp(o);
    }
    else {
        throw_exception::obj_error(get_type(), "move assign with mismatched allocators");
    }
    return *this;
''','''    if (m_allocator != o.m_allocator) throw_exception::obj_error(get_type(), "move assign with mismatched allocators");
    if (m_sealed) throw_exception::obj_mut_sealed_object(get_type(), "move assign");
    clear_mixin_data();
    usurp(o);
    return *this;
''')]
E['b_o_compare_cache'] = [(O,'''    auto& mtype = get_type();
    if (auto cmp = mtype.compare(other.get_type())) return cmp;

    for (size_t index = 0; index < mtype.mixins.size(); ++index) {
        auto& info = *mtype.mixins[index];
        if (!info.compare) throw_exception::obj_mut_error(get_type(), "compare", "missing compare", info);
        auto own_mixin = m_mixin_data[index].mixin;
        auto other_mixin = other.m_mixin_data[index].mixin;
        if (auto cmp = info.compare(&info, own_mixin, other_mixin)) return cmp;
    }

    return 0;
''','''    const auto& mtype = get_type();
    int result = mtype.compare(other.get_type());
    for (size_t index = 0; result == 0 && index < mtype.mixins.size(); ++index) {
        auto& info = *mtype.mixins[index];
        if (!info.compare) throw_exception::obj_mut_error(mtype, "compare", "missing compare", info);
        result = info.compare(&info, m_mixin_data[index].mixin, other.m_mixin_data[index].mixin);
    }
    return result;
''')]
E['b_o_get_ternary'] = [(O,'''    if (index == invalid_mixin_index) return nullptr;
    return unchecked_get_at(index);
}
const''','''    return index != invalid_mixin_index ? unchecked_get_at(index) : nullptr;
}
const''')]
E['b_o_reset_order'] = [(O,'''    if (type.num_mixins() == 0) {
        assert(type == type.dom.get_empty_type()); // it must be the empty type, though
        clear_mixin_data();
        m_type = &type;
        return;
    }
    perform_object_mutation(*this, type);
''','''    if (type.num_mixins() != 0) {
        perform_object_mutation(*this, type);
    }
    else {
        clear_mixin_data();
        m_type = &type;
    }
''')]
# ---------------------------------------------------------------- type_mutation
E['b_tm_rotate'] = [(TM,'''    auto* val = *i;
    vec.erase(i);
    vec.push_back(val);
''','''    std::rotate(i, i + 1, vec.end());
''')]
E['b_tm_strong_name'] = [(TM,'''    for (auto m : mixins) {
        auto features = m->features_span();
        auto span = fspan(features);
        auto f = itlib::pfind_if(span, by_name);
        if (f) return *f;
    }
    return nullptr;
''','''    for (auto m : mixins) {
        for (auto& ffm : m->features_span()) {
            if (ffm.info->name == name) return ffm.info;
        }
    }
    return nullptr;
''')]
E['b_tm_add_direct'] = [(TM,'''    auto info = safe_add(name);
    if (!info) throw_exception::type_mut_error(*this, "add", name);
    return *info;
''','''    auto info = dom.get_mixin_info(name);
    if (!info) throw_exception::type_mut_error(*this, "add", name);
    add(*info);
    return *info;
''')]
E['b_tm_lacking_has'] = [(TM,'''    auto f = itlib::pfind_if(mixins, by_name);
    if (f) return nullptr;
    return safe_add(name);
''','''    if (has(name)) return nullptr;
    return safe_add(name);
'''),(TM,'''    auto f = itlib::pfind_if(mixins, by_name);
    if (f) return nullptr;
    return &add(name);
''','''    return has(name) ? nullptr : &add(name);
''')]
E['b_tm_dedup_nested'] = [(TM,'''    for (auto i = mixins.begin(); i != mixins.end(); ++i) {
        auto& info = *i;
        assert(info);

        for (auto j = i + 1; j != mixins.end(); ++j) {
            if (info == *j) {
                // duplicate
                // remove the earlier
                info = nullptr;
            }
        }
    }

    // then erase
    itlib::erase_all(mixins, nullptr);
''','''    for (size_t i = 0; i < mixins.size(); ++i) {
        for (size_t j = i + 1; j < mixins.size(); ++j) {
            if (mixins[i] == mixins[j]) {
                // duplicate: remove the earlier
                mixins[i] = nullptr;
                break;
            }
        }
    }

    // then erase
    itlib::erase_all(mixins, nullptr);
''')]
MID='code/dynamix/mixin_info_data.cpp'
E['b_mid_iter'] = [(MID,'''    size_t num_added = 0;
    try {
        for (auto* r : mutation_rule_infos) {
            dom.add_mutation_rule(*r);
            ++num_added;
        }
        dom.register_mixin(info);
    }
    catch (...) {
        // don't leave rules of a mixin which is not registered in the domain
        while (num_added-- > 0) {
            dom.remove_mutation_rule(*mutation_rule_infos[num_added]);
        }
        throw;
    }
''','''    auto it = mutation_rule_infos.begin();
    try {
        for (; it != mutation_rule_infos.end(); ++it) {
            dom.add_mutation_rule(**it);
        }
        dom.register_mixin(info);
    }
    catch (...) {
        while (it != mutation_rule_infos.begin()) {
            --it;
            dom.remove_mutation_rule(**it);
        }
        throw;
    }
''')]
