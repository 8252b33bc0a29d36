"""Functions of the confirmed tree which decide each property (regular expressions over qualified names; 'f:' over files)."""
D = r'^dynamix::'
DI = r'^dynamix::domain::impl::'
C = r'^dnmx_'
def A(*xs): return list(xs)
ANCHORS = {
 'C01': A(DI + r'(register|unregister)_(mixin|feature)$', DI + r'basic_(register|unregister)_l$', DI + r'basic_get_by_id_l$', D + r'domain::(un)?register_(mixin|feature)$', D + r'domain::get_(mixin|feature)_info$', DI + r'get_(mixin|feature)_info$', C + r'(un)?register_(mixin|feature)$', C + r'get_(mixin|feature)_info_by_id$'),
 'C02': A(DI + r'(register)_(mixin|feature)$', DI + r'basic_register_l$', DI + r'basic_get_by_(name|id)_l$', D + r'domain::get_(mixin|feature)_info$', DI + r'get_(mixin|feature)_info$', D + r'domain::register_(mixin|feature)$', C + r'get_(mixin|feature)_info_by_name$', r'^dnmx_sv_eq$', r'^(dnmx_sv::)?operator(==|!=)$'),
 'C03': A(DI + r'(un)?register_(mixin|feature)$', DI + r'basic_(un)?register_l$', D + r'domain::(un)?register_(mixin|feature)$', r'^dnmx_mixin_info::(registered|iid)$', r'^dnmx_feature_info::iid$', C + r'(un)?register_(mixin|feature)$'),
 'C04': A(r'domain::(impl::)?((un)?register|get)_type_class$', D + r'type::is_of$', D + r'object::is_of$', C + r'((un)?register|get)_type_class$', C + r'(type|object)_is_of(_by_name)?$', r'v1compat::object::is_a$'),
 'C05': A(r'domain::(impl::)?(add|remove)_mutation_rule$', r'domain::(impl::)?get_type$', r'num_mutation_rules$', r'num_type_queries$', r'rule_compare::operator\(\)$', C + r'(add|remove)_mutation_rule$'),
 'C06': A(DI + r'apply_mutation_rules_l$', r'rule_compare::operator\(\)$', r'domain::(impl::)?get_type$', r'domain::(impl::)?add_mutation_rule$', D + r'type_mutation::dedup$'),
 'C07': A(r'domain::(impl::)?get_type$', DI + r'create_type$', DI + r'type_compare::', DI + r'type_query_compare::', r'mixin_span_less$', r'domain::get_empty_type$', D + r'domain::num_types$', D + r'domain::num_type_queries$', C + r'get_type$', C + r'get_empty_type$'),
 'C08': A(DI + r'create_type$', r'domain::(impl::)?get_type$', DI + r'basic_get_by_id_l$'),
 'C10': A(D + r'type::(index_of|has|lacks|num_mixins)$', DI + r'create_type$', C + r'type_(index_of_mixin|has|index_of|num_mixins)\w*$', C + r'type_index_of\w*$', r'^dnmx_basic_type', D + r'object::(has|get|get_at|num_mixins)$', C + r'object_(has|get|unchecked_get|num_mixins)\w*$', r'^dnmx_basic_object', r'^dnmx_object_unchecked'),
 'C11': A(DI + r'create_type$', r'next_multiple$', r'^dnmx_mixin_info::(set_size_alignment|external)$', r'^dnmx_set_mixin_info_size_and_alignment$', D + r'type::(de)?allocate_object_buffer$'),
 'C12': A(DI + r'create_type$', DI + r'deleter::', r'ftable_build_helper::', DI + r'~?impl$'),
 'C13': A(r'ftable_build_helper::', DI + r'create_type$', r'ftable_at$', r'^dnmx_ftable_entry::', r'dnmx_ftable_at$'),
 'C14': A(D + r'type::find_next_', r'find_implementer$', C + r'type_find_next\w*$', C + r'\w*next\w*$', r'ftable_at$'),
 'C15': A(D + r'type::implements(_strong)?$', D + r'type_mutation::implements(_strong)?$', D + r'object::implements(_strong)?$', C + r'(type|object|type_mutation)_implements\w*$', r'^dnmx_ftable_entry::operator bool$', r'ftable_at$', r'v1compat::object::implements$', r'^dnmx_feature_info::iid$'),
 'C16': A(D + r'type::compare$', D + r'type::operator', r'dnmx_mixin_canonical_order$', r'canonical_mixin_order', D + r'\w*canonical\w*', r'mixin_span_less$', r'sort_by_canonical_order', r'^dnmx_sv_cmp$', r'mixin_info.*operator\(\)$', DI + r'type_compare::'),
 'C17': A(r'garbage_collect_types$', DI + r'deleter::', D + r'type::num_objects$', C + r'garbage_collect'),
 'C18': A(r'domain::(impl::)?unregister_mixin$', r'mixin_info_data\w*::unregister_from$', C + r'unregister_mixin$', DI + r'deleter::', DI + r'basic_unregister_l$'),
 'C19': A(D + r'type::(de)?allocate_object_buffer$', D + r'type::num_objects$', D + r'object_mutation::', D + r'object::(clear_mixin_data|clear|reset_type|~object|operator=|object)$', C + r'type_num_objects'),
 'C20': A(D + r'object_mutation::', D + r'perform_object_mutation', D + r'mutate$', D + r'mutate_to$', D + r'gradual_mutation::', D + r'object::(reset_type|copy_from|copy|copy_matching_from|move_matching_from|object|operator=)$', C + r'mutate', C + r'object_reset_type$', D + r'util::default_init_new_func'),
 'C21': A(D + r'object_mutation::', D + r'perform_object_mutation', D + r'type::(de)?allocate_object_buffer$', D + r'util::(default|noop|move|copy)'),
 'C22': A(D + r'object_mutation::', D + r'object::(clear_mixin_data|clear|~object|reset_type|operator=|object|copy|copy_from)$', D + r'util::default_init_new_func', C + r'(object_clear|destroy_object|object_reset_type)$'),
 'C23': A(D + r'object_mutation::', D + r'object::(clear_mixin_data|~object|clear|operator=|object|get_allocator)$', D + r'type::(de)?allocate_object_buffer$', DI + r'create_type$', DI + r'deleter::', r'mixin_allocator::', r'allocator', D + r'any'),
 'C24': A(D + r'object::', C + r'object_(seal|sealed|is_sealed|clear|reset_type|copy\w*|move\w*)$', C + r'create_object\w*$', D + r'object_mutation::object_mutation$', D + r'mutate$', D + r'mutate_to$'),
 'C25': A(r'object_of$', r'set_object$', D + r'object::(object|operator=|move_matching_from|copy_from|copy|clear_mixin_data)$', D + r'object_mutation::(allocate_mixin_data|finalize|object_mutation|update_next_mixin|update_at)$', r'^dnmx_object_mixin_data', D + r'object_mixin_data', r'v1compat::object::of$'),
 'C26': A(D + r'object::(object|operator=|clear|clear_mixin_data|~object)$', C + r'create_object\w*$', C + r'object_\w*(usurp|move)\w*$', r'set_object$'),
 'C27': A(D + r'object::(copy|copy_from|copyable|object|operator=)$', D + r'type::(copyable|copy_constructible|copy_assignable)$', C + r'(create_object_copy|object_copy\w*|type_is_copyable)$', r'v1compat::object::(copy|copyable)$', r'noop_udpate_common_func'),
 'C28': A(D + r'object::(copy_matching_from|move_matching_from)$', C + r'object_\w*matching\w*$'),
 'C29': A(D + r'object::(equals|compare|operator==|operator!=)$', D + r'operator(==|!=)', C + r'object_(equals|compare)$', D + r'type::(compare|operator==|operator!=)$', C + r'type_compare$'),
 'C30': A(D + r'object::(get|get_at|has|get_type|num_mixins|empty|get_domain|is_of|unchecked_get_at)$', D + r'object::', r'^dnmx_basic_object', r'^dnmx_object_unchecked', C + r'object_(get|has|unchecked|num|is_empty|empty)\w*$', D + r'type::(index_of|has)$'),
 'C31': A(D + r'object_mutation::', D + r'perform_object_mutation', C + r'mutate'),
 'C32': A(D + r'object_mutation::', D + r'util::(default|noop|move|copy)', D + r'object::(copy_from|copy|copy_matching_from|move_matching_from|equals|compare|reset_type)$', DI + r'apply_mutation_rules_l$', r'domain::(impl::)?get_type$', C + r'mutate', D + r'object_mutate_op', D + r'mutate_to$', D + r'throw_exception::'),
 'C33': A(D + r'object_mutation::', D + r'object::', DI, D + r'util::default', r'common_init_mixin_info', D + r'type::(copy|default|compar|equal|is_of)\w*$'),
 'C34': A(r'msg_caller<.*>::(call|call_unicast)$', r'basic_msg_traits<.*call_unicast$', r'ftable_at$', r'make_payload', r'^dnmx_object_unchecked', r'unchecked_get_at$'),
 'C35': A(r'msg_caller<.*>::(call|call_multicast|call_with_v1_combinator)$', r'basic_msg_traits<.*call_multicast$', r'ftable_at$', r'combinators::', r'set_num_results|add_result'),
 'C36': A(r'msg_caller<', r'default_payload', r'feature_info_data'),
 'C37': A(D + r'(call_next_|has_next_)', r'v1compat::(call|has)_next_bidder$', D + r'type::find_next_', r'object_of$'),
 'C38': A(r'mixin_info_data', r'feature_info_data', r'builder_literals', r'literals', r'builder_perks', r'feature_bid', r'operator""', r'mixin_info_data.*(register_in|unregister_from)$', r'store_name'),
 'C39': A(r'mixin_info_data_instance', r'registered_type_class_instance', r'v1compat::type_class', r'the_data_safe', r'get_feature_info_safe', D + r'get_(domain|mixin_info)$', r'_dynamix_'),
 'C40': A(r'common_init_mixin_info', r'call_mixin_', r'mixin_info_util', r'set_size_alignment$', r'get_type_name_from_typeid', r'make_nullptr', r'common_mixin_init', 'f:mixin_info_util.hpp'),
 'C41': A(r'make_any$', r'fwd_any$', r'feature_info_data', r'mixin_info_data', r'default_payload'),
 'C42': A(D + r'type_mutation::', C + r'type_mutation_\w*$', C + r'(create|destroy)\w*type_mutation\w*$', 'f:type_mutation'),
 'C43': A(D + r'mutate$', D + r'mutate_to$', D + r'gradual_mutation::', r'mutate_op', r'mutate_to_op', D + r'perform_object_mutation', r'common_mixin_init', C + r'mutate', D + r'construct', 'f:mutate'),
 'C44': A(r'apply_basic_mixin_dep', r'get_rule_for', r'attaches_to|also_adds', r'common_mutation_rules', r'adds_mutation_rule', r'::dependency$'),
 'C48': A('f:-c\\.cpp$'),
 'C49': A('f:-c\\.cpp$', 'f:code/dnmx/.*\\.h$', r'(from_c_handle|to_c_hanlde)$'),
 'C51': A('f:bits/sv\\.h$'),
 'C52': A(r'domain_from_info$', 'f:dnmx/(mixin_id|feature_id|mixin_info|feature_info|mixin_index|type_class|mutation_rule_info|basic_type|basic_object|object_mixin_data)\\.h$', r'common_mixin_info', r'common_feature_info', 'f:bits/id_int_t', r'canonical'),
 'C53': A('f:mixin_common_funcs'),
 'C55': A(r'make_from_tuple'),
 'C56': A(r'combinators::', 'f:v1compat/combinators.hpp'),
 'C57': A('f:v1compat/(mutation_rules\\.cpp|mutation_rule\\.hpp|common_mutation_rules\\.hpp)'),
 'C58': A('f:compat/pmr', 'f:dynamix/allocator.hpp', r'pmr_allocator', r'get_allocator$', 'f:mixin_allocator'),
 'C59': A(D + r'domain::(domain|~domain|name|settings|get_context|get_allocator|get_empty_type|from_c_handle|to_c_hanlde)$', DI + r'~?impl$', r'domain_settings', C + r'get_domain_\w*$', C + r'(create|destroy)_domain$', r'sort_by_canonical_order', r'dnmx_mixin_canonical_order'),
 'C62': A('f:throw_exception', 'f:dynamix/exception'),
 'C63': A(D + r'type::(default_constructible|copy_constructible|copy_assignable|copyable|comparable|equality_comparable)$', C + r'type_is_\w*$', C + r'type_\w*(able|ible)$', r'v1compat::object::copyable$'),
 'C64': A(r'domain_traverse::', D + r'dbg_dmp', 'f:dbg_dmp'),
}
# instantiations and macro expansions of the drivers, and what only they reach
for _p, _xs in {
 'C34': A(r'^drv_(uni|traits_uni|call|payload)', r'^(amsg|mmu)$', r'^(amsg_t|smsg_t|mm_uni|mm_s)::(call|info)#init$', r'is_const#init$', r'_dynamix_basic_traits_for'),
 'C35': A(r'^drv_(multi|traits_multi|comb|call|payload)', r'^(bmsg|mmm)$', r'^(bmsg_t|mm_multi|mm_sm)::(call|info)#init$', r'is_const#init$', r'_dynamix_basic_traits_for'),
 'C36': A(r'^drv_(uni|multi|default|traits)', r'^(amsg|bmsg|mmu|mmm)$', r'::get_info_safe$', r'::(call|info)#init$', r'common_feature_info::'),
 'C37': A(r'^drv_(has_next|next|has_set|set|top|v1_)', r'^mm_mixin::(mmu|mmm|mmt|v1)', r'v1[um]::multicast#init'),
 'C38': A(r'^drv_[bpf]_', r'^drv_v_(ctor|msg|none|ud|bound|name|dep|perks)', 'f:v1compat/define_mixin.hpp', r'^_dynamix_mixin_info_data_instance_for'),
 'C39': A(r'^drv_(def|g)_', r'^_dynamix_', r'^_implement', r'm_dynamix_type_class#init', D + r'g::', D + r'v1compat::domain::instance$', r'::get_info_safe$'),
 'C40': A(r'^drv_(cm_|u_|drv_m)', r'^drvc_(common|empty)_mi$'),
 'C41': A(r'^drv_b_(impl|alloc)', r'^drv_f_(def|by|with)', r'^drv_payload'),
 'C43': A(r'^drv_m', r'init_new_args|update_common_args', r'^drv_g'),
 'C31': A(r'init_new_args|update_common_args'),
 'C44': A(r'^drv_b_onmut', r'(attaches_to|also_adds).*#init$'),
 'C51': A(r'^drvc_lit'),
 'C52': A(r'domain_from_info$', r'^drvc_', r'^drv_(cfi|cmi)', r'^dynamix::(invalid_|result_|sizeof_)\w*#init$', r'dnmx_ftable_at$'),
 'C53': A(r'^drvc_(common|empty)_mi$'),
 'C56': A(r'^drv_comb_', r'v1compat::none#init'),
 'C57': A(r'^drv_v_(mand|depr|subst|os|dp)'),
 'C25': A(r'^drv_(obj_of|v_of)', r'^mm_mixin::me'),
 'C59': A(D + r'v1compat::domain::instance$', r'_dynamix_get_domain$'),
 'C04': A(r'^drv_v_isa$', r'm_dynamix_type_class#init', r'^_implement', r'type_class'),
 'C15': A(r'^drv_v_impl$'),
 'C62': A(r'do_throw#init'),
 'C12': A(D + r'type::type$'),
 'C24': A(D + r'v1compat::object::'), 'C26': A(D + r'v1compat::object::(~?object|operator=)$'), 'C22': A(D + r'v1compat::object::~?object$'),
 'C10': A(r'^drvc_ft$'), 'C13': A(r'^drvc_ft$'),
}.items(): ANCHORS[_p] = ANCHORS[_p] + _xs
