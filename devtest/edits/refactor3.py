# behaviour-preserving edits of the headers, the C interface, the diagnostics and the v1 layer
E = {}
I='code/dynamix/'
TH=I+'type.hpp'; OH=I+'object.hpp'; OM=I+'object_mutation.hpp'; MU=I+'mutate.hpp'; MT=I+'mutate_to.hpp'; MO=I+'mutate_ops.hpp'
OO=I+'object_mutate_ops.hpp'; MC=I+'msg/msg_caller.hpp'; NI=I+'msg/next_impl.hpp'; CR=I+'common_mutation_rules.hpp'; AN=I+'any.hpp'
MI=I+'mixin_info_util.hpp'; DB=I+'mixin_info_data.hpp'; OF=I+'object_of.hpp'; MTR=I+'msg/msg_traits.hpp'
CD=I+'domain-c.cpp'; CM=I+'mutate-c.cpp'; CO=I+'object-c.cpp'; CT=I+'type-c.cpp'; CTM=I+'type_mutation-c.cpp'; CA=I+'mixin_allocator-c.cpp'
TE=I+'throw_exception.cpp'; DD=I+'dbg_dmp.cpp'; MF=I+'bits/make_from_tuple.hpp'; TN=I+'bits/type_name_from_typeid.hpp'
SV='code/dnmx/bits/sv.h'; DI='code/dnmx/mixin_info.h'; BT='code/dnmx/basic_type.h'; CF='code/dnmx/mixin_common_funcs.c'
V='v1compat/code/dynamix/v1compat/'; VC=V+'combinators.hpp'; VD=V+'define_mixin.hpp'; PA=I+'compat/pmr/allocator.hpp'
DM=I+'define_mixin.hpp'
# ---------------------------------------------------------------- type.hpp
E['ty_index_of_ternary'] = [(TH,'''        if (id.i >= sparse_mixin_indices.size()) return invalid_mixin_index;
        return sparse_mixin_indices[id.i];
''','''        return id.i < sparse_mixin_indices.size() ? *(sparse_mixin_indices.data() + id.i) : invalid_mixin_index;
''')]
E['ty_has_helper'] = [(TH,'''    [[nodiscard]] FORCE_INLINE bool has(mixin_id id) const noexcept {
        return index_of(id) != invalid_mixin_index;
    }
    [[nodiscard]] bool has(std::string_view name) const noexcept {
        return index_of(name) != invalid_mixin_index;
    }
''','''    [[nodiscard]] static bool is_valid_index(mixin_index_t i) noexcept { return !(i == invalid_mixin_index); }
    [[nodiscard]] FORCE_INLINE bool has(mixin_id id) const noexcept {
        auto i = index_of(id);
        return is_valid_index(i);
    }
    [[nodiscard]] bool has(std::string_view name) const noexcept {
        const auto i = index_of(name);
        return is_valid_index(i);
    }
''')]
E['ty_lacks_direct'] = [(TH,'{ return !has(id); }','{ return index_of(id) == invalid_mixin_index; }'),(TH,'lacks(std::string_view name) const noexcept { return !has(name); }','lacks(std::string_view name) const noexcept { return index_of(name) == invalid_mixin_index; }')]
E['ty_copyable_order'] = [(TH,'{ return copy_assignable() && copy_constructible(); }','{\n        if (!copy_constructible()) return false;\n        return copy_assignable();\n    }')]
E['ty_neq_via_eq'] = [(TH,'{ return this != &other; }','{ return !(*this == other); }')]
E['ty_num_objects_implicit'] = [(TH,'{ return m_num_objects.load(); }','{\n        const size_t n = m_num_objects.load();\n        return n;\n    }')]
# ---------------------------------------------------------------- object.hpp
E['ob_get_at_cond'] = [(OH,'''    void* get_at(mixin_index_t index) noexcept {
        if (index < num_mixins()) return unchecked_get_at(index);
        return nullptr;
    }
    const void* get_at(mixin_index_t index) const noexcept {
        if (index < num_mixins()) return unchecked_get_at(index);
        return nullptr;
    }
''','''    void* get_at(mixin_index_t index) noexcept {
        return const_cast<void*>(static_cast<const object*>(this)->get_at(index));
    }
    const void* get_at(mixin_index_t index) const noexcept {
        if (num_mixins() <= index) return nullptr;
        return m_mixin_data[index].mixin;
    }
''')]
E['ob_template_get_const'] = [(OH,'''        return static_cast<const Mixin*>(get(g::get_mixin_info<Mixin>()));
''','''        auto& info = g::get_mixin_info<Mixin>();
        const void* p = get(info);
        return static_cast<const Mixin*>(p);
''')]
E['ob_is_of_local'] = [(OH,'''        return TypeClass::m_dynamix_type_class.matches(m_type);
''','''        return is_of(TypeClass::m_dynamix_type_class);
''')]
E['ob_empty_eq'] = [(OH,'{ return !m_mixin_data; }','{ return m_mixin_data == nullptr; }')]
# ---------------------------------------------------------------- object_mutation.hpp
E['om_next_split'] = [(OM,'''        if (m_complete) return;
        auto ti = m_updated_upto;
        const auto& info = *m_target_type.mixins[ti];
        if (m_old_mixin_data && m_old_type->has(info.id)) {
            // matching
            auto oi = m_old_type->sparse_mixin_indices[info.iid()];
            auto mixin = m_old_mixin_data[oi].mixin;
            update_common(update_common_args{{info, mixin, m_target_type, ti}, *m_old_type, oi});
        }
        else {
            // new
            auto mixin = m_target_mixin_data[ti].mixin;
            construct_new(init_new_args{info, mixin, m_target_type, ti});
        }
        ++m_updated_upto;
        m_complete = (m_updated_upto == m_target_type.num_mixins());
''','''        if (m_complete) return;
        const auto ti = m_updated_upto;
        const mixin_info& info = *m_target_type.mixins[ti];
        const auto oi = index_in_old(info);
        if (oi == invalid_mixin_index) {
            // new
            construct_new(init_new_args{info, m_target_mixin_data[ti].mixin, m_target_type, ti});
        }
        else {
            // matching
            update_common(update_common_args{{info, m_old_mixin_data[oi].mixin, m_target_type, ti}, *m_old_type, oi});
        }
        m_updated_upto = ti + 1;
        if (m_updated_upto == m_target_type.num_mixins()) m_complete = true;
'''),(OM,'''    [[noreturn]] void throw_bad_piecewise_mutation();
''','''    [[noreturn]] void throw_bad_piecewise_mutation();

    mixin_index_t index_in_old(const mixin_info& info) const noexcept {
        if (!m_old_mixin_data) return invalid_mixin_index;
        return m_old_type->index_of(info.id);
    }
''')]
E['om_each_min'] = [(OM,'''        if (upto_index > m_target_type.num_mixins()) upto_index = m_target_type.num_mixins();
        while (m_updated_upto < upto_index) {
            update_next_mixin(construct_new, update_common); // pass functors by const ref
        }
''','''        const mixin_index_t total = m_target_type.num_mixins();
        const mixin_index_t upto = upto_index < total ? upto_index : total;
        for (; m_updated_upto < upto;) {
            update_next_mixin(construct_new, update_common); // pass functors by const ref
        }
''')]
E['om_at_nested'] = [(OM,'''        if (index < m_updated_upto || index >= m_target_type.num_mixins()) {
            throw_bad_piecewise_mutation();
        }
''','''        const bool in_order = m_updated_upto <= index;
        if (!in_order) throw_bad_piecewise_mutation();
        if (m_target_type.num_mixins() <= index) throw_bad_piecewise_mutation();
''')]
E['om_cnew_lambda'] = [(OM,'''        update_each_mixin(std::forward<ConstructNew_Func>(construct_new),
            util::noop_udpate_common_func,
            upto_index);
''','''        update_each_mixin(std::forward<ConstructNew_Func>(construct_new),
            [](const update_common_args&) {},
            upto_index);
''')]
E['om_perform_lambda'] = [(OM,'''    object_mutation mut(obj, target_type);
    mut.default_construct_each_new_mixin();
''','''    object_mutation mutation{obj, target_type};
    mutation.default_construct_each_new_mixin(invalid_mixin_index);
''')]
# ---------------------------------------------------------------- mutate.hpp / mutate_to.hpp
E['mu_mutate_locals'] = [(MU,'''    type_mutation type_mut(obj.get_type());

    (ops.apply_to_type_mutation(type_mut), ...);

    auto& type = obj.get_domain().get_type(std::move(type_mut));

    mutate_to(obj, type, std::forward<Ops>(ops)...);
''','''    const type* target = nullptr;
    {
        type_mutation mutation(obj.get_type());
        (void)(ops.apply_to_type_mutation(mutation), ...);
        target = &obj.get_domain().get_type(std::move(mutation));
    }
    mutate_to(obj, *target, std::forward<Ops>(ops)...);
''')]
E['mu_grad_dtor_merged'] = [(MU,'''        if (std::uncaught_exceptions() > m_uncaught_exceptions) return;
        if (m_applied) return;
        apply();
''','''        if (!m_applied && std::uncaught_exceptions() <= m_uncaught_exceptions) {
            apply();
        }
''')]
E['mu_grad_apply_cancel'] = [(MU,'''        m_applied = true;
        auto& type = m_obj.get_domain().get_type(std::move(m_type_mut));
        m_obj.reset_type(type);
''','''        cancel(); // nothing more to do in the destructor
        domain& dom = m_obj.get_domain();
        m_obj.reset_type(dom.get_type(std::move(m_type_mut)));
''')]
E['mt_filter_helper'] = [(MT,'''    obj_mutates_end = std::remove_if(obj_mutates, obj_mutates_end, [&type](object_mutate_op* op) {
        if (!op) return true; // null (non add-mixin op)
        if (!op->overrides_init()) return true; // valid op, which doesn't override init, so we don't need it
        if (!op->affected_info) return true; // no such mixin in the domain
        auto index = type.index_of(op->affected_info->id);
        if (index == invalid_mixin_index) return true; // mixin which was removed by rules
        op->mixin_index = index; // assign index
        return false;
    });
''','''    obj_mutates_end = std::remove_if(obj_mutates, obj_mutates_end, [&type](object_mutate_op* op) {
        return !impl::assign_op_index(type, op);
    });
'''),(MT,'''inline void mutate_to(object& obj, const type& type) {
''','''namespace impl {
// true if the op takes part in the object mutation
inline bool assign_op_index(const type& type, object_mutate_op* op) {
    if (!op || !op->overrides_init()) return false;
    if (op->affected_info == nullptr) return false;
    auto index = type.index_of(op->affected_info->id);
    if (index == invalid_mixin_index) return false;
    op->mixin_index = index;
    return true;
}
}

inline void mutate_to(object& obj, const type& type) {
''')]
E['mt_filter_manual'] = [(MT,'''    obj_mutates_end = std::remove_if(obj_mutates, obj_mutates_end, [&type](object_mutate_op* op) {
        if (!op) return true; // null (non add-mixin op)
        if (!op->overrides_init()) return true; // valid op, which doesn't override init, so we don't need it
        if (!op->affected_info) return true; // no such mixin in the domain
        auto index = type.index_of(op->affected_info->id);
        if (index == invalid_mixin_index) return true; // mixin which was removed by rules
        op->mixin_index = index; // assign index
        return false;
    });
''','''    auto out = obj_mutates;
    for (auto i = obj_mutates; i != obj_mutates_end; ++i) {
        auto op = *i;
        if (!op) continue;
        if (!op->overrides_init()) continue;
        if (!op->affected_info) continue;
        auto index = type.index_of(op->affected_info->id);
        if (index == invalid_mixin_index) continue;
        op->mixin_index = index;
        *out++ = op;
    }
    obj_mutates_end = out;
''')]
E['mt_sort_named_cmp'] = [(MT,'''    std::sort(obj_mutates, obj_mutates_end, [](const object_mutate_op* a, const object_mutate_op* b) {
        return a->mixin_index < b->mixin_index;
    });
''','''    auto by_index = [](const object_mutate_op* a, const object_mutate_op* b) {
        return b->mixin_index > a->mixin_index;
    };
    std::sort(obj_mutates, obj_mutates_end, by_index);
''')]
E['mt_loop_while'] = [(MT,'''    for (auto i = obj_mutates; i != obj_mutates_end; ++i) {
        auto& op = **i;
        obj_mut.update_at(op.mixin_index, [&op](init_new_args args) {
            op.do_init(args);
        }, util::noop_udpate_common_func);
    }
''','''    auto cur = obj_mutates;
    while (cur != obj_mutates_end) {
        object_mutate_op* op = *cur++;
        auto init = [op](init_new_args args) {
            op->do_init(args);
        };
        obj_mut.update_at(op->mixin_index, init, util::noop_udpate_common_func);
    }
''')]
E['mt_noop_neg'] = [(MT,'''    if (obj.get_type() == type) return; // noop
''','''    const bool noop = (&obj.get_type() == &type);
    if (noop) return;
''')]
E['mo_byname_add_block'] = [(MO,'''{ this->affected_info = &mut.add(name); }''','''{
        const mixin_info& added = mut.add(name);
        this->affected_info = &added;
    }''')]
E['mo_remove_tpl_via'] = [(MO,'''mutate_op_remove_by_info remove() { return mutate_op_remove_by_info(g::get_mixin_info<Mixin>()); }''','''mutate_op_remove_by_info remove() { return remove(g::get_mixin_info<Mixin>()); }''')]
E['oo_args_local'] = [(OO,'''        impl::make_from_tuple<Mixin>(args.mixin_buf, std::move(args_tup));
''','''        auto where = args.mixin_buf;
        impl::make_from_tuple<Mixin>(where, std::move(this->args_tup));
''')]
E['oo_ctor_init_info'] = [(OO,'''        : args_tup(std::forward<Args>(args)...)
    {
        this->affected_info = &g::get_mixin_info<Mixin>();
    }
''','''        : args_tup(std::forward<Args>(args)...)
    {
        const mixin_info& mi = g::get_mixin_info<Mixin>();
        affected_info = &mi;
    }
''')]
E['mf_static_cast'] = [(MF,'''    _make_from_tuple_impl<T>(ptr, std::forward<Tuple>(tup),
        std::make_index_sequence<std::tuple_size_v<std::remove_reference_t<Tuple>>>());
''','''    constexpr auto size = std::tuple_size_v<std::remove_reference_t<Tuple>>;
    _make_from_tuple_impl<T>(ptr, static_cast<Tuple&&>(tup), std::make_index_sequence<size>{});
''')]
# ---------------------------------------------------------------- messages
E['mc_uni_direct'] = [(MC,'''        auto fe = t.ftable_at(info.id); // ftable entry
        if /*likely*/ (fe) {
            auto& top = *fe.begin; // top bid
            return call(top, obj, std::forward<Args>(args)...);
        }

        return try_default_payload(info, obj, std::forward<Args>(args)...);
''','''        auto fe = t.ftable_at(info.id); // ftable entry
        if (!fe.begin) {
            return try_default_payload(info, obj, std::forward<Args>(args)...);
        }
        return call(fe.begin[0], obj, std::forward<Args>(args)...);
''')]
E['mc_multi_while'] = [(MC,'''            for (auto i = fe.top_bid_back; i != fe.begin; --i) {
                call(*i, obj, args...); // args are copied! return value is ignored
            }
''','''            auto i = fe.top_bid_back;
            while (i != fe.begin) {
                call(*i--, obj, args...); // args are copied! return value is ignored
            }
''')]
E['mc_multi_index'] = [(MC,'''            for (auto i = fe.top_bid_back; i != fe.begin; --i) {
                call(*i, obj, args...); // args are copied! return value is ignored
            }
''','''            for (auto n = fe.top_bid_back - fe.begin; n > 0; --n) {
                call(fe.begin[n], obj, args...); // args are copied! return value is ignored
            }
''')]
E['mc_v1_count'] = [(MC,'''            combinator.set_num_results(size_t(fe.top_bid_back - fe.begin) + 1);

            for (auto i = fe.top_bid_back; i != fe.begin; --i) {
                if (!combinator.add_result(call(*i, obj, args...))) { // args are copied!
                    return;
                };
            }
''','''            const size_t count = 1 + (fe.top_bid_back - fe.begin);
            combinator.set_num_results(count);

            for (auto i = fe.top_bid_back; i > fe.begin; --i) {
                const bool go_on = combinator.add_result(call(*i, obj, args...)); // args are copied!
                if (!go_on) return;
            }
''')]
E['mc_v1_early'] = [(MC,'''        if /*likely*/ (fe) {
            combinator.set_num_results(size_t(fe.top_bid_back - fe.begin) + 1);
''','''        if (!fe) {
            combinator.set_num_results(1);
            combinator.add_result(try_default_payload(info, obj, std::forward<Args>(args)...));
            return;
        }
        {
            combinator.set_num_results(size_t(fe.top_bid_back - fe.begin) + 1);
'''),(MC,'''        else {
            combinator.set_num_results(1);
            combinator.add_result(try_default_payload(info, obj, std::forward<Args>(args)...));
        }
    }
''','''    }
''')]
E['mc_default_eq'] = [(MC,'''        if (!info.default_payload) {
            throw_exception::generic_feature_error(obj.get_type(), "does not implement", "dynamix msg", info);
        }
''','''        const auto payload = info.default_payload;
        if (payload == nullptr) {
            throw_exception::generic_feature_error(obj.get_type(), "does not implement", "dynamix msg", info);
        }
''')]
E['ni_back_range'] = [(NI,'''    auto begin = next.begin();
    auto back = next.end() - 1;

    for (auto i = back; i != begin; --i) {
        traits::caller::call(*i, *obj, args...); // args are copied! return value is ignored
    }
    // return first (top) result
    return traits::caller::call(*begin, *obj, std::forward<Args>(args)...);
''','''    for (auto i = next.size() - 1; i > 0; --i) {
        traits::caller::call(next[i], *obj, args...); // args are copied! return value is ignored
    }
    // return first (top) result
    return traits::caller::call(next.front(), *obj, std::forward<Args>(args)...);
''')]
E['ni_has_neq'] = [(NI,'''    return !!obj->get_type().find_next_implementer(Msg::info, g::get_mixin_info<std::remove_cv_t<Mixin>>());
''','''    const auto& info = g::get_mixin_info<std::remove_cv_t<Mixin>>();
    return obj->get_type().find_next_implementer(Msg::info, info) != nullptr;
''')]
E['ni_bidder_helper'] = [(NI,'''template <typename Msg, typename Mixin>
bool has_next_bidder_set(Mixin* mixin) {
    auto* obj = object_of(mixin);
    return !obj->get_type().find_next_bidder_set(Msg::info, g::get_mixin_info<std::remove_cv_t<Mixin>>()).empty();
}
''','''namespace impl {
template <typename Msg, typename Mixin>
itlib::span<const type::ftable_payload> next_bidders_of(Mixin* mixin) {
    return object_of(mixin)->get_type().find_next_bidder_set(Msg::info, g::get_mixin_info<std::remove_cv_t<Mixin>>());
}
}

template <typename Msg, typename Mixin>
bool has_next_bidder_set(Mixin* mixin) {
    return impl::next_bidders_of<Msg>(mixin).size() != 0;
}
''')]
E['of_index_minus_one'] = [(OF,'''    return *reinterpret_cast<object**>(reinterpret_cast<char*>(mixin_ptr) - sizeof_ptr);
''','''    return reinterpret_cast<object**>(mixin_ptr)[-1];
''')]
E['mtr_fwd_local'] = [(MTR,'''        Ret(*pf)(q_const<is_const, Mixin>*, Args...) = f;
        return fwd_any(reinterpret_cast<feature_payload>(pf));
''','''        using mixin_func_t = Ret(*)(q_const<is_const, Mixin>*, Args...);
        mixin_func_t pf = f;
        auto payload = reinterpret_cast<feature_payload>(pf);
        return fwd_any(payload);
''')]
E['cr_dep_early'] = [(CR,'''    if (mut->has<Primary>()) {
        mut->add_if_lacking<Dependent>();
    }
    return result_success;
''','''    if (!mut->has<Primary>()) return result_success;
    mut->add_if_lacking<Dependent>();
    return result_success;
''')]
E['an_fwd_ref_via_ptr'] = [(AN,'''    return t_any<T>(any{}, &ref);
''','''    return fwd_any(&ref);
''')]
# ---------------------------------------------------------------- mixin info
E['mi_dtor_local'] = [(MI,'''    reinterpret_cast<Mixin*>(memory)->~Mixin();
''','''    auto* self = static_cast<Mixin*>(memory);
    self->~Mixin();
''')]
E['mi_copy_local'] = [(MI,'''    *reinterpret_cast<Mixin*>(target) = *reinterpret_cast<const Mixin*>(source);
    return result_success;
''','''    auto& to = *static_cast<Mixin*>(target);
    auto& from = *static_cast<const Mixin*>(source);
    to = from;
    return result_success;
''')]
E['mi_move_fwd'] = [(MI,'''    new (memory) Mixin(std::move(*reinterpret_cast<Mixin*>(source)));
''','''    auto* from = static_cast<Mixin*>(source);
    ::new (memory) Mixin(static_cast<Mixin&&>(*from));
''')]
E['mi_common_reorder'] = [(MI,'''        info.init = &dnmx_mixin_noop_init_func;
        info.copy_init = &dnmx_mixin_noop_copy_func;
        info.copy_asgn = &dnmx_mixin_noop_copy_func;
        info.move_init = &dnmx_mixin_noop_move_func;
        info.move_asgn = &dnmx_mixin_noop_move_func;
        info.compare = &dnmx_mixin_noop_cmp_func;
''','''        info.compare = &dnmx_mixin_noop_cmp_func;
        info.copy_asgn = info.copy_init = &dnmx_mixin_noop_copy_func;
        info.move_asgn = info.move_init = &dnmx_mixin_noop_move_func;
        info.init = &dnmx_mixin_noop_init_func;
''')]
E['db_perks_helper'] = [(DB,'''        int32_t bid = perks_a.bid.value_or(perks_b.bid.value_or(0));
        int32_t priority = perks_a.priority.value_or(perks_b.priority.value_or(0));
        auto* stored''','''        const int32_t bid = perks_a.bid ? *perks_a.bid : perks_b.bid.value_or(0);
        const int32_t priority = perks_a.priority ? *perks_a.priority : perks_b.priority.value_or(0);
        auto* stored''')]
E['db_stored_two_steps'] = [(DB,'''        auto* stored = m_data.feature_payload_storage.emplace_back(std::move(payload)).get();
        m_data.feature_payloads.push_back({&info, stored, bid, priority});
''','''        m_data.feature_payload_storage.push_back(std::move(payload));
        feature_for_mixin ffm = {&info, m_data.feature_payload_storage.back().get(), bid, priority};
        m_data.feature_payloads.push_back(ffm);
''')]
E['db_rule_locals'] = [(DB,'''        mutation_rule_info& info = m_data.mutation_rule_info_storage.emplace_back();

        info.name = dnmx_sv::from_std(stored_name);
        info.apply = r.apply;
        info.user_data = user_data;
        info.order_priority = perks.priority.value_or(0);

        m_data.mutation_rule_infos.push_back(&info);
        return *this;
''','''        m_data.mutation_rule_info_storage.push_back({dnmx_sv::from_std(stored_name), r.apply, user_data, perks.priority.value_or(0)});
        m_data.mutation_rule_infos.push_back(&m_data.mutation_rule_info_storage.back());
        return *this;
''')]
E['db_name_concat'] = [(DB,'''        stored_name += m_data.info.name.to_std();
        stored_name += " ";
        stored_name += CommonRule::name;
''','''        stored_name.append(m_data.info.name.to_std());
        stored_name.push_back(' ');
        stored_name.append(CommonRule::name);
''')]
E['dm_dtor_early'] = [(DM,'''        auto& data = the_data_safe();
        if (auto dom = data.info.dom) {
            data.unregister_from(*domain::from_c_handle(dom));
        }
''','''        util::mixin_info_data& data = the_data_safe();
        const auto hd = data.info.dom;
        if (!hd) return;
        auto& dom = *domain::from_c_handle(hd);
        data.unregister_from(dom);
''')]
# ---------------------------------------------------------------- C interface
E['c_catch_all'] = [(CD,'''        self->register_mixin(*info);
        return dnmx_result_success;
    }
    catch (std::exception&) {
        return -1;
    }
''','''        self->register_mixin(*info);
    }
    catch (...) {
        return -1;
    }
    return dnmx_result_success;
''')]
E['c_err_var'] = [(CD,'''    try {
        self->register_feature(*info);
        return dnmx_result_success;
    }
    catch (std::exception&) {
        return -1;
    }
''','''    dnmx_error_return_t ret = dnmx_result_success;
    try {
        self->register_feature(*info);
    }
    catch (const std::exception&) {
        ret = -1;
    }
    return ret;
''')]
E['c_get_type_reset'] = [(CD,'''        std::unique_ptr<type_mutation> pmut(type_mutation::from_c_handle(*hmut));
        *hmut = nullptr;
        return &self->get_type(std::move(*pmut));
''','''        auto handle = *hmut;
        *hmut = nullptr;
        std::unique_ptr<type_mutation> pmut(type_mutation::from_c_handle(handle));
        const type& t = self->get_type(std::move(*pmut));
        return &t;
''')]
E['c_create_dom_null'] = [(CD,'''        auto new_dom = new dynamix::domain(name.to_std(), settings, user_data, context);
        return new_dom->to_c_hanlde();
''','''        auto new_dom = std::make_unique<dynamix::domain>(name.to_std(), settings, user_data, context);
        return new_dom.release()->to_c_hanlde();
''')]
E['c_alloc_named'] = [(CA,'''        auto ret = m_alloc(&info);
        if (!ret) throw std::bad_alloc();
        return static_cast<byte_t*>(ret);
''','''        if (void* buf = m_alloc(&info)) {
            return static_cast<byte_t*>(buf);
        }
        throw std::bad_alloc();
''')]
E['c_mutate_span_loop'] = [(CM,'''        for (auto& op : ops) {
            switch (op.op_type) {
            case dnmx_mutate_op_add:
                if (op.mixin) type_mut.add(*op.mixin);
                else type_mut.add(op.mixin_name.to_std());
                break;
            case dnmx_mutate_op_remove:
                if (op.mixin) type_mut.remove(*op.mixin);
                else type_mut.remove(op.mixin_name.to_std());
                break;
            case dnmx_mutate_op_to_back:
                if (op.mixin) type_mut.to_back(*op.mixin);
                else type_mut.to_back(op.mixin_name.to_std());
                break;
            default:
                return -1;
            }
        }
''','''        for (uint32_t n = 0; n < num_mutate_ops; ++n) {
            const auto& op = pops[n];
            if (op.op_type == dnmx_mutate_op_add) {
                if (!op.mixin) type_mut.add(op.mixin_name.to_std());
                else type_mut.add(*op.mixin);
            }
            else if (op.op_type == dnmx_mutate_op_remove) {
                if (!op.mixin) type_mut.remove(op.mixin_name.to_std());
                else type_mut.remove(*op.mixin);
            }
            else if (op.op_type == dnmx_mutate_op_to_back) {
                if (!op.mixin) type_mut.to_back(op.mixin_name.to_std());
                else type_mut.to_back(*op.mixin);
            }
            else {
                return -1;
            }
        }
''')]
E['c_mutate_find_loop'] = [(CM,'''            auto o = itlib::pfind_if(ops, [&](const dnmx_mutate_op& op) {
                if (op.op_type != dnmx_mutate_op_add) return false; // only collect add ops
                if (!op.init_override) return false; // ... which have an init override
                // ... for the mixin in question
                if (op.mixin) return op.mixin == m;
                return op.mixin_name == m->name;
            });
''','''            const dnmx_mutate_op* o = nullptr;
            for (auto& op : ops) {
                if (op.op_type != dnmx_mutate_op_add || !op.init_override) continue;
                const bool match = op.mixin ? op.mixin == m : op.mixin_name == m->name;
                if (match) {
                    o = &op;
                    break;
                }
            }
''')]
E['c_mutate_to_args'] = [(CM,'''                if (o->init_new) {
                    auto err = o->init_new({&args.info, args.mixin_buf, &args.target_type, nullptr, args.target_index, invalid_mixin_index, o->user_data});
                    if (err) {
                        throw_exception::obj_mut_user_error(args.target_type, "mutate_to", "init", args.info, err);
                    }
                }
                else {
                    util::default_init_new_func(args);
                }
''','''                if (!o->init_new) {
                    util::default_init_new_func(args);
                    return;
                }
                auto err = o->init_new({&args.info, args.mixin_buf, &t, nullptr, args.target_index, invalid_mixin_index, o->user_data});
                if (err != result_success) {
                    throw_exception::obj_mut_user_error(t, "mutate_to", "init", args.info, err);
                }
''')]
E['c_compare_init'] = [(CO,'''    dnmx_int_result ret;
    try {
        ret.result = self->compare(*object::from_c_handle(b));
        ret.error = dnmx_result_success;
    }
    catch (std::exception&) {
        ret.error = -1;
    }
    return ret;
''','''    dnmx_int_result ret;
    ret.error = -1;
    try {
        auto& other = *object::from_c_handle(b);
        ret.result = self->compare(other);
        ret.error = dnmx_result_success;
    }
    catch (std::exception&) {
        // the error is already set
    }
    return ret;
''')]
E['c_clear_else'] = [(CO,'''    if (self->sealed()) return false;
    self->clear();
    return true;
''','''    auto* obj = self;
    const bool can = !obj->sealed();
    if (can) obj->clear();
    return can;
''')]
E['c_reset_inverse'] = [(CO,'''        if (ht) {
            self->reset_type(*type::from_c_handle(ht));
        }
        else {
            self->clear();
        }
        return dnmx_result_success;
''','''        if (!ht) {
            self->clear();
            return dnmx_result_success;
        }
        const type& t = *type::from_c_handle(ht);
        self->reset_type(t);
        return dnmx_result_success;
''')]
E['c_tm_get_mixins_ptr'] = [(CTM,'''    const auto& vec = self->mixins;
    *out_num_mixins = dnmx_mixin_index_t(vec.size());
    return vec.data();
''','''    auto* mut = self;
    *out_num_mixins = static_cast<dnmx_mixin_index_t>(mut->mixins.size());
    return mut->mixins.data();
''')]
# ---------------------------------------------------------------- diagnostics
E['dd_output_sep'] = [(DD,'''    bool first = true;
    for (const auto& m : mixins) {
        if (first) {
            first = false;
        }
        else {
            out << ", ";
        }
        out << '\\'' << m->name.to_std() << '\\'';
    }
''','''    for (size_t i = 0; i < mixins.size(); ++i) {
        if (i != 0) out << ", ";
        out << '\\'' << mixins[i]->name.to_std() << '\\'';
    }
''')]
E['dd_count_helper'] = [(DD,'''    int num_features = 0;
    itlib::span ftable(t.ftable, t.ftable_length);
    for (auto& f : ftable) num_features += !!f;
''','''    itlib::span ftable(t.ftable, t.ftable_length);
    int num_features = 0;
    for (auto& f : ftable) {
        if (f) ++num_features;
    }
''')]
E['te_foreign_cond'] = [(TE,'''    e<domain_error> out(dom);
    out << "unregister foreign feature " << info << ", id = " << info.iid() << ", domain = ";
    if (info.dom) {
        out << *domain::from_c_handle(info.dom);
    }
    else {
        out << "<null>";
    }
    out << do_throw;
''','''    e<domain_error> out(dom);
    out << "unregister foreign feature " << info << ", id = " << info.iid() << ", domain = ";
    if (!info.dom) out << "<null>";
    else out << *domain::from_c_handle(info.dom);
    out << do_throw;
''')]
# ---------------------------------------------------------------- the C headers
E['sv_cmp_min'] = [(SV,'''    if (alen == blen) {
        return memcmp(a.begin, b.begin, alen);
    }
    else if (alen < blen) {
        int cmp = memcmp(a.begin, b.begin, alen);
        return cmp == 0 ? -1 : cmp;
    }
    else {
        int cmp = memcmp(a.begin, b.begin, blen);
        return cmp == 0 ? 1 : cmp;
    }
''','''    size_t min = alen < blen ? alen : blen;
    int cmp = memcmp(a.begin, b.begin, min);
    if (cmp) return cmp;
    if (alen == blen) return 0;
    return alen < blen ? -1 : 1;
''')]
E['sv_find_last_for'] = [(SV,'''    size_t len = dnmx_sv_len(sv);
    while (len--) {
        if (sv.begin[len] == q) return sv.begin + len;
    }
    return NULL;
''','''    for (const char* p = sv.end; p != sv.begin; ) {
        --p;
        if (*p == q) return p;
    }
    return NULL;
''')]
E['sv_starts_loop'] = [(SV,'''    if (svlen == 0 && plen == 0) return true; // avoid memcmp with null
''','''    if (plen == 0) return true; // avoid memcmp with null
''')]
E['sv_eq_len'] = [(SV,'''    return dnmx_sv_cmp(a, b) == 0;
''','''    return !dnmx_sv_cmp(a, b);
''')]
E['di_order_nested'] = [(DI,'''    int32_t ca = a->order_priority, cb = b->order_priority;
    if (ca != cb) return ca < cb;
    int cmp = dnmx_sv_cmp(a->name, b->name);
    if (cmp) return cmp < 0;
''','''    if (a->order_priority < b->order_priority) return true;
    if (b->order_priority < a->order_priority) return false;
    const int cmp = dnmx_sv_cmp(a->name, b->name);
    if (cmp < 0) return true;
    if (cmp > 0) return false;
''')]
E['di_align_common'] = [(DI,'''    if (a < dnmx_sizeof_ptr) {
        // if alignment is less than sizeof_ptr, we would still have to align the object pointer in the buf
        // so we force the alignment to fit the pointer
        info->obj_buf_size = info->size + dnmx_sizeof_ptr;
        info->obj_buf_alignment_and_mixin_offset = dnmx_sizeof_ptr;
    }
    else {
        info->obj_buf_size = info->size + info->alignment;
        info->obj_buf_alignment_and_mixin_offset = info->alignment;
    }
''','''    dnmx_byte_size_t eff = a;
    if (eff < dnmx_sizeof_ptr) eff = dnmx_sizeof_ptr;
    info->obj_buf_size = s + eff;
    info->obj_buf_alignment_and_mixin_offset = eff;
''')]
E['di_external_ifs'] = [(DI,'''        return !move_init || allocator || force_external;
''','''        if (force_external) return true;
        if (allocator) return true;
        return !move_init;
''')]
E['bt_at_ge'] = [(BT,'''        if (id.i < ftable_length) return ftable[id.i];
        return {nullptr, nullptr, nullptr};
''','''        if (id.i >= ftable_length) return dnmx_ftable_entry{};
        return *(ftable + id.i);
''')]
E['cf_eq_cmp'] = [(CF,'''    return memcmp(a, b, info->size) == 0;
''','''    return dnmx_mixin_common_cmp_func(info, a, b) == 0;
''')]
E['cf_move_via_copy'] = [(CF,'''    memcpy(ptr, src, info->size);
    memset(src, 0, info->size);
''','''    const dnmx_byte_size_t size = info->size;
    memcpy(ptr, src, size);
    memset(src, 0, size);
''')]
# ---------------------------------------------------------------- v1compat
E['v_and_if'] = [(VC,'''        _result = _result && bool(r);

        return _result; // stop at the first false
''','''        if (!r) _result = false;
        return _result; // stop at the first false
''')]
E['v_or_if'] = [(VC,'''        _result = _result || bool(r);

        return !_result; // stop at the first true
''','''        if (_result) return false;
        _result = static_cast<bool>(r);
        return !_result; // stop at the first true
''')]
E['v_sum_plus'] = [(VC,'''        _result += r;
        return true;
''','''        _result = _result + r;
        return true;
''')]
E['v_mean_local'] = [(VC,'''        return _sum / result_type(_num_results);
''','''        const result_type n = static_cast<result_type>(_num_results);
        return _sum / n;
''')]
E['v_bid_init'] = [(VD,'''    message_perks<Message> mp;
    mp.bid = b;
    return mp;
''','''    return message_perks<Message>{b, 0};
''')]
E['v_perks_locals'] = [(VD,'''        super::template implements<Message>(util::builder_literals::feature_bid_priority(mp.bid, mp.priority));
        return *this;
''','''        auto perks = util::builder_literals::feature_bid_priority(mp.bid, mp.priority);
        this->template implements<Message>(perks);
        return *this;
''')]
E['pa_bytes_local'] = [(PA,'''        return static_cast<T*>(m_resource.allocate(n * sizeof(T), alignof(T)));
''','''        const std::size_t bytes = sizeof(T) * n;
        void* p = m_resource.allocate(bytes, alignof(T));
        return static_cast<T*>(p);
''')]
E['pa_neq'] = [(PA,'''    friend bool operator!=(const allocator& lhs, const allocator& rhs) noexcept {
        return lhs.resource() != rhs.resource();
    }
''','''    friend bool operator!=(const allocator& lhs, const allocator& rhs) noexcept {
        return !(lhs == rhs);
    }
''')]
