"""hostile edits written from the property texts: types, containers, declarations, defaults, qualifiers, macros"""
E = {}
def m(name, file, old, new, *more): E[name] = [(file, old, new)] + list(more)
C='code/dynamix/'; D=C+'domain.cpp'; OM=C+'object_mutation.cpp'; OMH=C+'object_mutation.hpp'; O=C+'object.cpp'; OH=C+'object.hpp'; T=C+'type.cpp'; TH=C+'type.hpp'
TM=C+'type_mutation.cpp'; TMH=C+'type_mutation.hpp'; MID=C+'mixin_info_data.hpp'; MIDC=C+'mixin_info_data.cpp'; MIU=C+'mixin_info_util.hpp'
MU=C+'mutate.hpp'; MT=C+'mutate_to.hpp'; MC=C+'mutate-c.cpp'; DH=C+'domain.hpp'; OC=C+'object-c.cpp'; DC=C+'domain-c.cpp'; TMC=C+'type_mutation-c.cpp'
MSG=C+'msg/msg_caller.hpp'; NX=C+'msg/next_impl.hpp'; TE=C+'throw_exception.cpp'; EX=C+'exception.hpp'
# --- narrowed types
m('n_rule_refs', D, "itlib::flat_map<const mutation_rule_info*, uint32_t, rule_compare, compat::pmr::vector<std::pair<const mutation_rule_info*, uint32_t>>>", "itlib::flat_map<const mutation_rule_info*, uint8_t, rule_compare, compat::pmr::vector<std::pair<const mutation_rule_info*, uint8_t>>>")
m('n_revision', D, "        uint64_t rules_revision = 0;\n    };", "        uint8_t rules_revision = 0;\n    };")
m('n_revision_local', D, "        uint64_t rules_revision = 0; // revision", "        uint8_t rules_revision = 0; // revision")
m('n_offsets', D, "itlib::span mixin_offsets(reinterpret_cast<uint32_t*>(bptr), mixins.size());", "itlib::span mixin_offsets(reinterpret_cast<uint16_t*>(bptr), mixins.size());", (TH, "itlib::span<const uint32_t> mixin_offsets;", "itlib::span<const uint16_t> mixin_offsets;"))
m('n_reachable', D, "compat::pmr::vector<uint32_t> m_num_reachable_pls;", "compat::pmr::vector<uint8_t> m_num_reachable_pls;")
m('n_total', D, "uint32_t m_num_total_pls = 0;", "uint8_t m_num_total_pls = 0;")
m('n_objects_8', TH, "itlib::atomic_relaxed_counter<size_t> m_num_objects", "itlib::atomic_relaxed_counter<uint8_t> m_num_objects")
m('n_objects_plain', TH, "mutable itlib::atomic_relaxed_counter<size_t> m_num_objects = {};", "mutable size_t m_num_objects = {};", (TH, "m_num_objects.load()", "m_num_objects"))
m('n_objects_ret', TH, "size_t num_objects() const noexcept {", "uint16_t num_objects() const noexcept {")
m('n_fill_index', D, "        for (mixin_index_t i = 0; i < mixins.size(); ++i) {\n            sparse_mixin_indices", "        for (uint8_t i = 0; i < mixins.size(); ++i) {\n            sparse_mixin_indices")
m('n_ftable_index', D, "for (mixin_index_t i = 0; i < m_mut.mixins.size(); ++i) {", "for (uint8_t i = 0; i < m_mut.mixins.size(); ++i) {")
m('n_bid', T, "    auto fbid = f->data->bid;", "    auto fbid = int8_t(f->data->bid);")
m('n_perk', MID, "        int32_t bid = perks_a.bid", "        int8_t bid = perks_a.bid")
m('n_perk_prio', MID, "        int32_t priority = perks_a.priority.value_or(perks_b", "        int16_t priority = perks_a.priority.value_or(perks_b")
m('n_rule_prio', MID, "        int32_t priority = perks.priority.value_or(0);", "        int8_t priority = int8_t(perks.priority.value_or(0));")
m('n_upto', OMH, "    mixin_index_t m_updated_upto;", "    uint8_t m_updated_upto;")
m('n_alloc_upto', OMH, "    mixin_index_t m_allocated_upto;", "    uint8_t m_allocated_upto;", (OM, "for (mixin_index_t& ti = m_allocated_upto;", "for (uint8_t& ti = m_allocated_upto;"))
m('n_uncaught', OMH, "    const int m_uncaught_exceptions =", "    const bool m_uncaught_exceptions =")
m('n_uncaught_grad', MU, "    const int m_uncaught_exceptions =", "    const bool m_uncaught_exceptions =")
m('n_err_bool', OM, "    auto err = info.init(&info, args.mixin_buf);\n    if (err)", "    auto err = int8_t(info.init(&info, args.mixin_buf));\n    if (err)")
m('n_err_neg', MC, "                    if (err) {\n                        throw_exception::obj_mut_user_error(args.target_type, \"mutate_to\", \"init\"", "                    if (err < 0) {\n                        throw_exception::obj_mut_user_error(args.target_type, \"mutate_to\", \"init\"")
m('n_cmp_bool', O, "        if (auto cmp = info.compare(&info, own_mixin, other_mixin)) return cmp;", "        if (bool cmp = info.compare(&info, own_mixin, other_mixin)) return cmp;")
m('n_cmp_char', O, "        if (auto cmp = info.compare(&info, own_mixin, other_mixin)) return cmp;", "        if (signed char cmp = info.compare(&info, own_mixin, other_mixin)) return cmp;")
m('n_maxid', D, "            return (*max_by_id)->iid() + 1;", "            return uint16_t((*max_by_id)->iid() + 1);")
m('n_num_mixins', TH, "        return mixin_index_t(mixins.size());", "        return uint8_t(mixins.size());")
m('n_size_type', 'code/dnmx/size.h', "dnmx_byte_size_t;", "dnmx_byte_size_t_wide; typedef unsigned short dnmx_byte_size_t;")
m('n_free_id', D, "            for (dnmx_id_int_t i = 0; i < sparse.size(); ++i) {\n                if (!sparse[i]) {", "            for (uint8_t i = 0; i < sparse.size(); ++i) {\n                if (!sparse[i]) {")
# --- containers which move their elements, lifetimes
m('c_rule_vec', MID, "compat::pmr::deque<mutation_rule_info> mutation_rule_info_storage;", "compat::pmr::vector<mutation_rule_info> mutation_rule_info_storage;")
m('c_name_vec', MID, "compat::pmr::deque<compat::pmr::string> mutation_rule_info_names_storage;", "compat::pmr::vector<compat::pmr::string> mutation_rule_info_names_storage;")
m('c_rule_local', MID, "        mutation_rule_info& info = m_data.mutation_rule_info_storage.emplace_back();", "        static mutation_rule_info info;")
m('c_name_view', MID, "        m_data.stored_name = sname;\n        return name(m_data.stored_name);", "        m_data.stored_name = sname;\n        return name(sname);")
m('c_payload_dropped', MID, "        auto* stored = m_data.feature_payload_storage.emplace_back(std::move(payload)).get();", "        auto* stored = payload.get();")
m('c_alloc_notkept', MID, "        m_data.stored_alloc = alloc;\n        m_data.info.allocator = m_data.stored_alloc->to_c_hanlde();", "        m_data.info.allocator = alloc->to_c_hanlde();")
m('c_features_before', MID, "        m_data.feature_payloads.push_back({&info, stored, bid, priority});\n        m_data.info.set_features(m_data.feature_payloads);", "        m_data.info.set_features(m_data.feature_payloads);\n        m_data.feature_payloads.push_back({&info, stored, bid, priority});")
m('c_rule_name_temp', MID, "        auto& stored_name = m_data.mutation_rule_info_names_storage.emplace_back(std::move(name));\n", "        compat::pmr::string stored_name = m_data.mutation_rule_info_names_storage.emplace_back(std::move(name));\n")
m('c_static_data', C+'define_mixin.hpp', "        static util::mixin_info_data data;\n        return data;", "        static thread_local util::mixin_info_data data;\n        return data;")
m('c_typeset_less', D, "    size_t as = a.size(), bs = b.size();\n    if (as != bs) return as < bs;\n    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());", "    size_t as = a.size(), bs = b.size();\n    return std::lexicographical_compare(a.begin(), a.begin() + std::min(as, bs), b.begin(), b.begin() + std::min(as, bs));")
m('c_empty_dom', C+'type_mutation.cpp', "    : dom(d)\n    , mixins(alloc)\n{}", "    : dom(d)\n    , mixins()\n{}")
# --- defaults and perks
m('a_perks_order', MID, "perks_a.bid.value_or(perks_b.bid.value_or(0))", "perks_b.bid.value_or(perks_a.bid.value_or(0))")
m('a_sealed_default', OH, "bool create_sealed = false", "bool create_sealed = true")
m('a_fallback', OH, "bool fallback_to_init = false", "bool fallback_to_init = true")
m('a_dependency', MID, "self& dependency(bool b = true)", "self& dependency(bool b = false)")
m('a_upto', OMH, "void default_construct_each_new_mixin(mixin_index_t upto_index = invalid_mixin_index);", "void default_construct_each_new_mixin(mixin_index_t upto_index = 1);")
m('a_dom_settings', DH, "domain_settings settings = {}, uintptr_t", "domain_settings settings = {true, false, false}, uintptr_t")
m('a_seal_init', OH, "    bool m_sealed = false;", "    bool m_sealed = true;")
m('a_align', 'code/dynamix/compat/pmr/memory_resource.hpp', "std::size_t alignment = alignof(std::max_align_t)) {\n        return do_allocate", "std::size_t alignment = 1) {\n        return do_allocate")
m('a_alloc_default', OH, "    [[nodiscard]] object copy(const allocator& alloc = {}) const;", "    [[nodiscard]] object copy(const allocator& alloc) const;\n    [[nodiscard]] object copy() const { return copy(m_allocator); }")
# --- noexcept
m('e_asgn_noexcept', OH, "    object& operator=(object&& o);", "    object& operator=(object&& o) noexcept;", (O, "object& object::operator=(object&& o) {", "object& object::operator=(object&& o) noexcept {"))
m('e_mut_dtor', OMH, "    ~object_mutation() noexcept(false);", "    ~object_mutation();", (OM, "object_mutation::~object_mutation() noexcept(false) {", "object_mutation::~object_mutation() {"))
m('e_grad_dtor', MU, "    ~gradual_mutation() noexcept(false) {", "    ~gradual_mutation() {")
m('e_isof', OH, "    bool is_of(std::string_view name) const; //", "    bool is_of(std::string_view name) const noexcept; //", (O, "bool object::is_of(std::string_view name) const {", "bool object::is_of(std::string_view name) const noexcept {"))
m('e_gettype', D, "    const type& get_type(type_mutation& mutation) {", "    const type& get_type(type_mutation& mutation) noexcept {")
m('e_tm_toback', TMH, "    void to_back(const mixin_info& info);", "    void to_back(const mixin_info& info) noexcept;", (TM, "void type_mutation::to_back(const mixin_info& info) {", "void type_mutation::to_back(const mixin_info& info) noexcept {"))
m('e_copyfrom', OH, "    void copy_from(const object& o);", "    void copy_from(const object& o) noexcept;", (O, "void object::copy_from(const object& o) {", "void object::copy_from(const object& o) noexcept {"))
m('e_default_init', OMH, "    void default_construct_each_new_mixin(mixin_index_t", "    void default_construct_each_new_mixin(mixin_index_t", (OMH, "    void update_next_mixin(ConstructNew_Func&& construct_new, UpdateCommon_Func&& update_common) {", "    void update_next_mixin(ConstructNew_Func&& construct_new, UpdateCommon_Func&& update_common) noexcept {"))
m('e_register', MIDC, "void mixin_info_data::register_in(domain& dom) {", "void mixin_info_data::register_in(domain& dom) noexcept {", (MID, "    void register_in(domain& dom);", "    void register_in(domain& dom) noexcept;"))
m('e_equals', O, "        else {\n            return false;\n        }\n    }\n\n    return true;", "        else {\n            throw_exception::obj_mut_error(get_type(), \"equals\", \"missing equals\", info);\n        }\n    }\n\n    return true;")
m('e_move_trait', MIU, "else if constexpr (std::is_nothrow_move_constructible_v<Mixin>)", "else if constexpr (std::is_move_constructible_v<Mixin>)")
m('e_asgn_trait', MIU, "else if constexpr (std::is_nothrow_move_assignable_v<Mixin>)", "else if constexpr (std::is_move_assignable_v<Mixin>)")
m('e_call_noexcept', MSG, "    static Ret try_default_payload(const feature_info& info, Object& obj, Args&&... args) {", "    static Ret try_default_payload(const feature_info& info, Object& obj, Args&&... args) noexcept {")
# --- identity
m('i_common_info', C+'common_mixin_info.hpp', "    common_mixin_info(const common_mixin_info&) = delete;", "    common_mixin_info(const common_mixin_info&) = default;")
m('i_domain', DH, "    domain(const domain&) = delete;\n    domain& operator=(const domain&) = delete;\n    domain(domain&&) = delete;\n    domain& operator=(domain&&) = delete;\n", "")
m('i_domain_move', DH, "    domain(domain&&) = delete;\n", "    domain(domain&&) = default;\n")
m('i_mutation', OMH, "    object_mutation(const object_mutation&) = delete;\n", "    object_mutation(const object_mutation&) = default;\n")
m('i_gradual', MU, "    gradual_mutation(const gradual_mutation&) = delete;\n", "    gradual_mutation(const gradual_mutation&) = default;\n")
m('i_traverse', C+'domain_traverse.hpp', "    domain_traverse(const domain_traverse&) = delete;\n", "    domain_traverse(const domain_traverse&) = default;\n")
m('i_feature', C+'common_feature_info.hpp', "(const common_feature_info&) = delete;", "(const common_feature_info&) = default;")
m('i_object', OH, "    object(const object& o) = delete;\n", "    object(const object& o) : dnmx_basic_object(o), m_allocator(o.m_allocator) {}\n")
# --- macros
m('p_tc_name', C+'define_type_class.hpp', "= {dnmx_make_sv_lit(#tc), func};", "= {dnmx_make_sv_lit(\"tc\"), func};")
m('p_mixin_name', C+'define_mixin.hpp', "dnmx_make_sv_lit(I_DNMX_PP_STRINGIZE(mixin)))", "dnmx_make_sv_lit(\"mixin\"))")
m('p_init_mi', MIU, "    mi.name = dnmx_make_sv_lit(I_DNMX_PP_STRINGIZE(mixin_type)); \\\n", "")
m('p_msg_mech', C+'msg/define_msg.hpp', "msg_name::traits::caller::I_DNMX_PP_CAT(call_, mechanism)", "msg_name::traits::caller::call_unicast")
m('p_msg_clash', C+'msg/define_msg.hpp', "I_DNMX_PP_STRINGIZE(msg_name)), clash, (void*)", "I_DNMX_PP_STRINGIZE(msg_name)), true, (void*)")
m('p_msg_default', C+'msg/define_msg.hpp', "(void*)(static_cast<msg_name::traits::sig_t*>(default_impl))", "nullptr")
m('p_msg_simple_clash', C+'msg/define_msg.hpp', "DYNAMIX_DEFINE_SIMPLE_MSG_EX(msg_name, mechanism, true, nullptr)", "DYNAMIX_DEFINE_SIMPLE_MSG_EX(msg_name, mechanism, false, nullptr)")
m('p_func_fwd', C+'msg/func_traits.hpp', "return m->func_name(std::forward<Args>(args)...);", "return m->func_name(args...);")
# --- dropped or doubled user errors
m('u_copy_err_sign', O, '        if (err) throw_exception::obj_mut_user_error(mtype, "copy", "copy init", info, err);', '        if (err > 0) throw_exception::obj_mut_user_error(mtype, "copy", "copy init", info, err);')
m('u_rule_err_sign', D, "if (auto err = info.apply(mutation.to_c_hanlde(), info.user_data)) {", "if (auto err = info.apply(mutation.to_c_hanlde(), info.user_data); err < 0) {")
m('u_c_reset', OC, "            self->clear();\n        }\n        return dnmx_result_success;\n    }\n    catch (std::exception&) {\n        return -1;", "            self->clear();\n        }\n        return dnmx_result_success;\n    }\n    catch (std::exception&) {\n        return self->sealed() ? -1 : dnmx_result_success;")
m('u_c_op_default', MC, "            default:\n                return -1;", "            default:\n                break;")
m('u_c_init_userdata', MC, "o->init_override({&args.info, args.mixin_buf, &args.target_type, nullptr, args.target_index, invalid_mixin_index, o->user_data})", "o->init_override({&args.info, args.mixin_buf, &args.target_type, nullptr, args.target_index, args.target_index, o->user_data})")
m('u_c_catch_dom', DC, "        return &self->get_type(std::move(*pmut));\n    }\n    catch (std::exception&) {", "        return &self->get_type(std::move(*pmut));\n    }\n    catch (std::runtime_error&) {")
m('u_c_unreg_catch', DC, "        self->unregister_mixin(*info);\n    }\n    catch (std::exception&) {", "        self->unregister_mixin(*info);\n    }\n    catch (std::bad_alloc&) {")
m('u_mutate_catch', MC, "        return result_success;\n    }\n    catch (std::exception&) {\n        return -1;\n    }\n}\n\nDYNAMIX_API", "        return result_success;\n    }\n    catch (std::logic_error&) {\n        return -1;\n    }\n}\n\nDYNAMIX_API")
# --- locks
m('l_gc_shared', D, "        auto l = m_type_registry.unique_lock();\n        auto& types = l->types;", "        auto l = m_type_registry.shared_lock();\n        auto& types = const_cast<type_set&>(l->types);", (D, "        auto& queries = l->type_queries;\n        for (auto it = types", "        auto& queries = const_cast<type_query_map&>(l->type_queries);\n        for (auto it = types"))
m('l_name_temp', D, "        return basic_get_by_name_l(name, m_element_registry.shared_lock()->sparse_mixins);", "        auto& sparse = m_element_registry.shared_lock()->sparse_mixins;\n        return basic_get_by_name_l(name, sparse);")
m('l_rule_user', D, "            auto reg = m_type_registry.shared_lock();\n            {\n                auto f = reg->type_queries.find(mutation.mixins);", "            auto reg = m_type_registry.unique_lock();\n            {\n                auto f = reg->type_queries.find(mutation.mixins);")
m('l_unreg_hold', D, "            auto reg = m_element_registry.shared_lock();\n            auto& sparse_mixins = reg->sparse_mixins;\n            if (info.iid() >= sparse_mixins.size() || sparse_mixins[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);\n        }\n\n        {", "            auto ereg = m_element_registry.shared_lock();\n            auto& sparse_mixins = ereg->sparse_mixins;\n            if (info.iid() >= sparse_mixins.size() || sparse_mixins[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);\n        {", (D, "                it = types.erase(it);\n            }\n        }\n\n        auto reg", "                it = types.erase(it);\n            }\n        }}\n\n        auto reg"))
m('l_settings_mutable', D, "        if (found) {\n            // we found", "        if (found) {\n            m_type_registry.unique_lock()->rules_revision += 0;\n            // we found")
# --- exceptions
m('x_class', TE, "domain_error", "type_error")
m('x_base', EX, "struct DYNAMIX_API object_error : public exception {\n    using exception::exception;", "struct DYNAMIX_API object_error : public std::runtime_error {\n    using std::runtime_error::runtime_error;")
m('x_private', EX, "struct DYNAMIX_API exception : public std::runtime_error {", "struct DYNAMIX_API exception : private std::runtime_error {")
# --- two sites
m('t_alloc_pair', OM, "        info.obj_buf_size,\n        info.obj_buf_alignment_and_mixin_offset\n    ));", "        info.obj_buf_size,\n        info.alignment\n    ));")
m('t_alloc_pair2', OM, "        info.obj_buf_size,\n        info.obj_buf_alignment_and_mixin_offset\n    ));", "        info.obj_buf_size + sizeof_ptr,\n        info.obj_buf_alignment_and_mixin_offset\n    ));", (OM, "        ptr,\n        info.obj_buf_size,", "        ptr,\n        info.obj_buf_size + info.alignment,"))
m('t_ctor_mem_order', MIDC, "        while (num_added-- > 0) {", "        while (--num_added > 0) {")
m('t_unreg_order', MIDC, "    dom.unregister_mixin(info);\n    for (auto* r : mutation_rule_infos) {\n        dom.remove_mutation_rule(*r);\n    }", "    for (auto* r : mutation_rule_infos) {\n        dom.remove_mutation_rule(*r);\n    }\n    dom.unregister_mixin(info);")
m('t_sv_eq_len', 'code/dnmx/bits/sv.h', "        return to_std() == other.to_std();", "        return begin == other.begin && end == other.end;")
m('t_name_ref', D, "                if (tc->name == new_tc.name) throw", "                if (tc->name.begin == new_tc.name.begin) throw")
m('t_cap_args', C+'object_mutate_ops.hpp', "    std::tuple<Args...> args_tup;", "    std::tuple<std::decay_t<Args>...> args_tup;")
m('t_cap_args_ref', C+'object_mutate_ops.hpp', "    std::tuple<Args...> args_tup;", "    std::tuple<Args&&...> args_tup;")
m('t_grad_order', MU, "    bool m_applied = false;\n    const int", "    static inline bool m_applied = false;\n    const int")
