E = {}
D='code/dynamix/'; N='code/dnmx/'; V='v1compat/code/dynamix/v1compat/'
def m(n, f, a, b): E[n] = [(f, a, b)]
# operations
m('cmi_add_if_lacking', D+'common_mixin_init.hpp', 'mut.add(*this->affected_info)', 'mut.add_if_lacking(*this->affected_info)')
m('ops_overrides_false', D+'object_mutate_ops.hpp', '''    virtual bool overrides_init() const noexcept final override { return true; }
    virtual void do_init(init_new_args args) final override {
        impl::''', '''    virtual bool overrides_init() const noexcept final override { return sizeof...(Args) != 0; }
    virtual void do_init(init_new_args args) final override {
        impl::''')
m('ops_remove_name_dedup', D+'mutate_ops.hpp', 'void apply_to_type_mutation(type_mutation& mut) { mut.remove(name); }', 'void apply_to_type_mutation(type_mutation& mut) { if (mut.mixins.size() > 1) mut.remove(name); }')
m('ops_back_by_name_add', D+'mutate_ops.hpp', 'void apply_to_type_mutation(type_mutation& mut) { mut.to_back(name); }', 'void apply_to_type_mutation(type_mutation& mut) { if (!mut.has(name)) mut.to_back(name); }')
m('ops_add_name_info_kept', D+'mutate_ops.hpp', 'this->affected_info = &mut.add(name); }', 'auto& i = mut.add(name); if (!this->affected_info) this->affected_info = &i; }')
m('ops_add_name_info_first', D+'mutate_ops.hpp', 'this->affected_info = &mut.add(name); }', 'mut.add(name); this->affected_info = mut.mixins.front(); }')
m('mto_construct_name_once', D+'mutate_to_ops.hpp', 'this->affected_info = obj.get_domain().get_mixin_info(name);', 'this->affected_info = obj.get_domain().get_mixin_info(name.substr(0, name.find(char(0))));')
m('ops_remove_adds', D+'mutate_ops.hpp', 'inline mutate_op_just_add_by_info add(const dynamix::mixin_info& info) { return mutate_op_just_add_by_info(info); }', 'inline mutate_op_to_back_by_info add(const dynamix::mixin_info& info) { return mutate_op_to_back_by_info(info); }')
# any / payloads
m('any_fwd_owning', D+'any.hpp', '''auto fwd_any(T* ptr) noexcept -> t_any<T> {
    return t_any<T>(any{}, ptr);''', '''auto fwd_any(T* ptr) noexcept -> t_any<T> {
    return ptr ? t_any<T>(any{}, ptr) : t_any<T>{};''')
m('any_make_alloc', D+'any.hpp', '>::type>(alloc, std::forward<T>(t));', '>::type>(allocator{}, std::forward<T>(t));')
m('fid_default_by_copy', D+'feature_info_data.hpp', '''        m_data.default_payload_storage = storage;
        m_data.info.default_payload = m_data.default_payload_storage.get();''', '''        m_data.info.default_payload = m_data.default_payload_storage.get();
        m_data.default_payload_storage = storage;''')
m('fid_store_name_view', D+'feature_info_data.hpp', 'return name(m_data.stored_name);', 'return name(sname);')
m('cfi_clash', D+'common_feature_info.hpp', 'allow_clashes = clash;', 'allow_clashes = clash && default_pl;')
m('cmi_sv', D+'common_mixin_info.hpp', ': common_mixin_info(dnmx_sv::from_std(n))', ': common_mixin_info(dnmx_sv::from_std(n.data()))')
m('typeid_name', D+'bits/type_name_from_typeid.hpp', 'std::string ret = demangled;', 'std::string ret = typeid_name;')
m('next_multiple_up', D+'alloc_util.hpp', '((s + n - 1) / n)', '((s + n) / n)')
# messages
m('msg_uni_is_multi', D+'msg/msg_traits.hpp', 'return caller::call_unicast(Msg::info, obj,', 'return caller::call_unicast(Msg::info, obj, ' if False else 'return caller::call_multicast(Msg::info, obj,')
m('fdom', D+'domain.from_info.hpp', 'return domain::from_c_handle(info.dom);', 'return info.id == invalid_mixin_id ? nullptr : domain::from_c_handle(info.dom);')
# c
m('tmc_from_type_add', D+'type_mutation-c.cpp', 'return self->add_if_lacking(*info);', 'self->add_if_lacking(*info); return true;')
m('tmc_backname', D+'type_mutation-c.cpp', 'return &self->to_back(name.to_std());', 'return self->has(name.to_std()) ? &self->to_back(name.to_std()) : nullptr;')
m('tmc_set_append', D+'type_mutation-c.cpp', 'self->mixins.assign(mixins, mixins + num_mixins);', 'self->mixins.insert(self->mixins.end(), mixins, mixins + num_mixins);')
m('tmc_impl_strong', D+'type_mutation-c.cpp', '''bool dnmx_type_mutation_implements(dnmx_type_mutation_handle hmut, const dnmx_feature_info* info) {
    return self->implements(*info);''', '''bool dnmx_type_mutation_implements(dnmx_type_mutation_handle hmut, const dnmx_feature_info* info) {
    return self->implements_strong(*info);''')
m('tmc_destroy_noop', D+'type_mutation-c.cpp', '    delete self;', '    if (!self->mixins.empty()) delete self;')
m('tc_index', D+'type-c.cpp', 'return self->index_of(info->id);', 'return self->has(*info) ? self->index_of(info->id) : 0;')
m('tc_copyc', D+'type-c.cpp', 'return self->copy_constructible();', 'return self->copyable();')
m('tc_numobj', D+'type-c.cpp', 'return self->num_objects();', 'return self->num_mixins();')
m('c_ftable_at', N+'basic_type.h', 'if (id.i < type->ftable_length) return type->ftable[id.i];', 'if (id.i <= type->ftable_length) return type->ftable[id.i];')
m('cpp_ftable_size', N+'basic_type.h', 'return uint32_t(end - begin);', 'return uint32_t(top_bid_back - begin + 1);')
m('mi_util_asgn', N+'mixin_info_util.h', '''    (mi).copy_asgn = dnmx_mixin_common_copy_func; \\''', '''    (mi).copy_asgn = dnmx_mixin_noop_copy_func; \\''')
m('mi_util_empty_cmp', N+'mixin_info_util.h', '''    (mi).compare = dnmx_mixin_noop_cmp_func; \\
''', '')
# pmr
m('pmr_sizeless', D+'compat/pmr/allocator.hpp', 'm_resource.deallocate(p, n * sizeof(T), alignof(T));', 'm_resource.deallocate(p, n * sizeof(T));')
m('pmr_copy_default', D+'compat/pmr/allocator.hpp', ': m_resource(*other.resource())', ': m_resource(*get_default_resource())')
m('pmr_select', D+'compat/pmr/allocator.hpp', 'select_on_container_copy_construction() const { return {}; }', 'select_on_container_copy_construction() const { return *this; }')
# v1
m('v1_or_continue', V+'combinators.hpp', 'return !_result; // stop at the first true', 'return true; // stop at the first true')
m('v1_sum_order', V+'combinators.hpp', '''        _result += r;
        return true;''', '''        _result += r;
        return bool(_result);''')
m('v1_mean_zero', V+'combinators.hpp', 'return _sum / result_type(_num_results);', 'return result_type(_sum / _num_results);')
m('v1_subst', V+'common_mutation_rules.hpp', '''            mut.remove<SourceMixin>();
            mut.add<TargetMixin>();''', '''            mut.remove<SourceMixin>();
            mut.add_if_lacking<TargetMixin>();''')
m('v1_dep_master', V+'mutation_rules.cpp', '''        if (!i->dependency) dynamix::throw_exception::type_mut_error(mut, "rule with no dep", *i);
        mut.add_if_lacking(*i);''', '''        mut.add_if_lacking(*i);
        if (!i->dependency) dynamix::throw_exception::type_mut_error(mut, "rule with no dep", *i);''')
m('v1_removed_stays', V+'mutation_rules.cpp', 'auto r = std::move(rules[id]);', 'auto r = rules[id];')
m('v1_add_before', V+'mutation_rules.cpp', '''    dom.add_mutation_rule(rule->info());
    *r = std::move(rule);''', '''    *r = std::move(rule);
    dom.add_mutation_rule((*r)->info());''')
m('v1_prio', V+'define_mixin.hpp', '''    mp.priority = p;
    return mp;''', '''    mp.priority = p;
    mp.bid = p;
    return mp;''')
m('v1_bid_perks', V+'define_mixin.hpp', '''    perks.bid = b;
    return perks;''', '''    Perks<Message> np;
    np.bid = b;
    return np;''')
m('v1_dep_val', V+'define_mixin.hpp', 'super::dependency(dep.value);', 'super::dependency(true);')
m('v1_ext', V+'define_mixin.hpp', 'data.info.force_external = true;', 'data.info.force_external = sizeof(Mixin) > 1;')
m('v1_nextb', V+'next_bidder.hpp', 'return has_next_bidder_set<Message>(mixin);', 'return has_next_bidder_top<Message>(mixin);' if False else 'return has_next_impl_top<Message>(mixin);' if False else 'return has_next_bidder_set<Message>(mixin) || Message::multicast;')
m('v1_copy', V+'object.cpp', '''    object ret;
    ret.copy_from(*this);
    return ret;''', '''    object ret;
    if (!empty()) ret.copy_from(*this);
    return ret;''')
m('v1_tclass', V+'type_class.hpp', 'I_DNMX_PP_CAT(_implement_, tc)(*::dynamix::type::from_c_handle(th)); \\', '!!th && I_DNMX_PP_CAT(_implement_, tc)(*::dynamix::type::from_c_handle(th)); \\')
# exceptions
m('exc_dom', D+'throw_exception.cpp', 'if (dom.name().empty()) {', 'if (!dom.name().data()) {')
