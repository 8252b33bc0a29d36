#!/usr/bin/env python3
# source of /verif/properties.jsonl
import json
P=[]
def p(id,title,stmt,over,quant,why,files,mech,obs):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=quant),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs)))
D='code/dynamix/domain.cpp'; O='code/dynamix/object.cpp'; OM='code/dynamix/object_mutation.cpp'; OMH='code/dynamix/object_mutation.hpp'
T='code/dynamix/type.cpp'; TH='code/dynamix/type.hpp'; TM='code/dynamix/type_mutation.cpp'
H=['histories','inputs']; HF=['histories','fault_sequences']; I=['inputs']; PR=['programs']
p('C01','Registered infos get unique, least free ids',
 'Registering a mixin or feature gives it the least id not in use in its domain, and no two registered infos of a kind ever share an id. Unregistering frees exactly that id and leaves the info marked as not registered; looking an id up gives exactly the info registered with it, or nothing when the slot is free or the id is out of range.',
 H,'every sequence of register, unregister and lookup calls','The tests register a handful of infos in one order; the guarantee is about every interleaving of holes, reuse and lookups.',
 [D,'code/dnmx/bits/id_int_t.h'],[('basic_register_l',D),('basic_unregister_l',D),('basic_get_by_id_l',D)],['domain::register_*','domain::unregister_*','domain::get_*_info'])
p('C02','Names are unique per kind unless the settings allow duplicates',
 'With duplicate names disallowed, no two registered infos of a kind have equal names and empty names are rejected; a rejected registration changes nothing. Names are compared by their whole contents, and lookup by name gives a registered info with exactly that name (the one with the least id) or nothing.',
 H,'every registration history, name and domain setting','Tests use a few short distinct literals; prefixes, common storage, holes and every setting combination are not enumerated.',
 [D,'code/dnmx/bits/sv.h'],[('basic_register_l',D),('basic_get_by_name_l',D),('dnmx_sv equality','code/dnmx/bits/sv.h')],['domain::register_mixin','domain::register_feature','domain::get_mixin_info','domain::get_feature_info'])
p('C03','Domains only touch infos which are theirs',
 'A mixin belongs to at most one domain: registering one which belongs to another domain, or an info which is registered already, is refused without effect. Unregistering an info which is not registered in the domain is refused before anything in the domain or the info changes.',
 H,'every history over several domains sharing infos','The tests have one or two such refusals and do not look at what else changed.',
 [D],[('info.dom / id checks',D),('foreign checks in unregister',D)],['domain::register_mixin','domain::unregister_mixin','domain::unregister_feature'])
p('C04','Type classes are found by name exactly while registered',
 'A type class with a name and a match function is found by its name from registration until it is unregistered, whatever was registered or unregistered meanwhile; a second one with the same name is refused. Asking a type or an object about a class gives the result of its match function for that type, and asking about an unknown name is an error.',
 H,'every history of type class registration','Tests do not reuse freed slots or unregister in the middle.',
 [D,T,TH],[('register_type_class',D),('type::is_of',T)],['domain::register_type_class','domain::get_type_class','type::is_of'])
p('C05','Mutation rules live as long as their references and drop cached queries',
 'A mutation rule is active in a domain from its first addition until it was removed as many times as it was added; removing one which is not there does nothing. Whenever the set of active rules changes every remembered type query is forgotten, and a query answered with an older set of rules is never remembered.',
 ['histories','schedules'],'every history and interleaving of adding and removing rules and requesting types','Tests add each rule once or twice and request few types.',
 [D],[('add/remove_mutation_rule',D),('rules_revision',D)],['domain::add_mutation_rule','domain::remove_mutation_rule','domain::num_mutation_rules','domain::num_type_queries'])
p('C06','Rules are applied in order until the type is stable',
 'To resolve a request, mixins which are mere dependencies are dropped, then all active rules are applied in order of priority, then name, again and again until a pass changes nothing. If that is not reached within the bounded number of passes the request fails as cyclic, and an error returned by a rule fails the request with that error.',
 H,'every set of rules and every request','Tests have a few two-rule cases; convergence and order hold for any rule set.',
 [D],[('apply_mutation_rules_l',D),('rule_compare',D)],['domain::get_type'])
p('C07','A request for a type gives one and the same type for the same mixins',
 'Requesting a type gives the registered type with exactly the mixins (in order) left after the rules were applied, the domain\'s empty type when none are left, and a mutation of another domain is refused. Remembered queries always lead to the type which the request would give without them, and a type is created only when none with the same mixins exists.',
 ['histories','schedules'],'every history of requests, and concurrent requests for the same type','Tests request a few combinations from one thread.',
 [D],[('get_type',D),('type_compare, type_query_compare',D),('create_type registration',D)],['domain::get_type','domain::num_types'])
p('C08','Invalid mixin combinations never become types',
 'A request whose resolved mixins contain an unregistered mixin, a mixin of another domain, or the same mixin twice is refused and leaves no new type behind.',
 I,'every list of mixins','Tests have one case of each kind.',
 [D],[('validity checks in create_type',D)],['domain::get_type'])
p('C10','A type\'s mixin indices agree with its mixins',
 'For every type and every mixin id or name, the index lookup gives the position of that mixin in the type\'s mixin list, or the invalid index when it has none, never reading beyond the lookup table. The C and C++ forms of has, lacks, index_of and num_mixins agree with it.',
 I,'every type and every id, including ids above the greatest id in the type','Tests probe a few ids of a few types.',
 [T,TH,D,'code/dnmx/basic_type.h','code/dynamix/type-c.cpp'],[('type::index_of',TH),('sparse_mixin_indices fill',D)],['type::index_of','type::has','dnmx_type_*'])
p('C11','Mixins in the object buffer are aligned, in bounds and disjoint',
 'In the object buffer of every type each internal mixin starts at a multiple of its alignment, has room for the pointer to its object right before it, does not overlap anything else and ends within the buffer size; the buffer is at least as aligned as each of them. External mixins have no place in the buffer and are marked as such.',
 I,'every list of mixin sizes and alignments','Tests check a few sizes; the arithmetic must hold for all.',
 [D,'code/dynamix/alloc_util.hpp','code/dnmx/mixin_info.h'],[('object buffer loop in create_type',D),('next_multiple','code/dynamix/alloc_util.hpp'),('set_size_alignment, external()','code/dnmx/mixin_info.h')],['type::object_buffer_size','type::mixin_offsets'])
p('C12','A type\'s single allocation holds all of its tables and is freed with its size',
 'The allocation of a type is exactly the sum of its tables, each table is placed in its own part with its own length, and the allocation is given back to the same allocator with the same size and alignment.',
 I,'every list of mixins and features','Only a few types are made by the tests, under no allocator which checks sizes.',
 [D],[('create_type',D),('deleter',D),('calc_ftable_byte_size',D)],['domain allocator calls'])
p('C13','Feature table entries are ordered and clashes refused',
 'For each feature implemented in a type the table has every implementing mixin once, ordered by bid (highest first), then priority, then mixin order with the last mixin first, and the entry\'s top-bid part is exactly those with the highest bid. Two implementers with the same bid and priority are refused unless the feature allows clashes.',
 I,'every combination of bids, priorities and mixin orders','Tests have a few combinations.',
 [D,'code/dnmx/basic_type.h'],[('ftable_build_helper',D),('ftable_at','code/dnmx/basic_type.h')],['type ftable','dnmx_basic_type::ftable_at'])
p('C14','The next implementer and next bidder set are the following ones',
 'The next implementer of a feature after a mixin is the one right after that mixin\'s in the feature\'s order, and the next bidder set is the whole group of implementers with the next lower bid; nothing is given when the mixin or the feature is not in the type or none follows.',
 I,'every type, feature and mixin','Tests have a few positions.',
 [T],[('find_next_implementer, find_next_bidder_set',T)],['type::find_next_implementer','type::find_next_bidder_set'])
p('C15','A type implements a feature iff a mixin does or it has a default payload',
 'A type implements a feature strongly exactly when one of its mixins has the feature, and implements it when it does so strongly or the feature has a default payload. All forms of the question, by info, id or name, of types and of type mutations, in C and C++, agree.',
 I,'every type and feature','Tests sample a few.',
 [T,TM,'code/dynamix/type-c.cpp','code/dnmx/basic_type.h'],[('implements, implements_strong',T)],['type::implements*','dnmx_type_implements*'])
p('C16','Comparison of types and the canonical mixin order are total orders',
 'Types compare equal only to themselves, and otherwise by domain and then lexicographically by the canonical order of their mixins. The canonical order puts mixins with a smaller order priority first, then orders by name contents, then by id, and so is a strict order of distinct mixins of a domain.',
 I,'all pairs and triples of types and mixins','Tests compare a few types.',
 [T,'code/dnmx/mixin_info.h','code/dnmx/bits/sv.h'],[('type::compare',T),('canonical_mixin_order','code/dynamix/mixin_info.hpp')],['type::compare','canonical_mixin_order'])
p('C17','Garbage collection drops exactly the types without objects',
 'After a garbage collection no type without live objects remains registered, every type with objects remains, and no remembered query leads to a dropped type while all others remain.',
 H,'every set of types, objects and queries','Tests collect once or twice.',
 [D],[('garbage_collect_types',D)],['domain::garbage_collect_types','domain::num_types','domain::num_type_queries'])
p('C18','Unregistering a mixin leaves no type or query which refers to it',
 'When a mixin is unregistered, every type which contains it and every remembered query which contains it or leads to such a type are dropped, all others stay, and the mixin\'s id becomes free.',
 H,'every set of types and queries','Tests look at one or two types.',
 [D],[('unregister_mixin',D)],['domain::unregister_mixin'])
p('C19','The object count of a type is the number of live object buffers',
 'The number of objects of a type goes up by one exactly when an object buffer of the type was allocated and down by one exactly when one is released, also when a mutation fails or an allocation throws.',
 HF,'every history of object creation, mutation and destruction with any failure','Tests check the count at rest in a few cases.',
 [T,OM],[('allocate/deallocate_object_buffer',T)],['type::num_objects'])
p('C20','A failed mutation leaves the object as it was',
 'If anything fails while an object is mutated (an allocation, a missing or failing initializer, a user function), everything created for the new type is destroyed and released exactly once, what the object had before is untouched, and the object keeps its old type.',
 ['fault_sequences','histories'],'failure at every point of a mutation','Tests fail at a few points.',
 [OM,OMH],[('rollback',OM),('destroy_new_mixins, deallocate_mixin_data',OM),('~object_mutation',OM)],['object state after a failed mutation'])
p('C21','A successful mutation carries common mixins over and drops the others',
 'After a successful mutation every mixin of the new type is constructed, mixins in both types keep their value (external ones keep their address, internal ones are move-constructed and their old place destroyed), mixins only in the old type are destroyed and released, and the old buffer is released.',
 H,'every pair of types','Tests have a few pairs.',
 [OM,OMH],[('finalize',OM),('update_next_mixin',OMH)],['object after mutation'])
p('C22','Each mixin is constructed and destroyed exactly once',
 'Over the life of an object each mixin buffer is allocated, constructed, destroyed and released exactly once and in that order, clearing or destroying an object destroys all its mixins, and an object never refers to a released buffer.',
 HF,'every history of an object, failures included','Tests count in a few scenarios.',
 [OM,O],[('object_mutation',OM),('clear_mixin_data',O)],['calls of mixin functions and allocators'])
p('C23','Memory goes back to its allocator with the same size and alignment',
 'Every buffer obtained from a mixin\'s allocator, an object\'s allocator or a domain\'s allocator is released to that same allocator with the size and alignment of its allocation.',
 HF,'every allocation, on every path including failures','Tests use a counting allocator in a few cases.',
 [OM,T,D,'code/dnmx/mixin_info.h'],[('allocate/deallocate_external_mixin',OM),('deallocate_object_buffer',T)],['allocator calls'])
p('C24','A sealed object never changes type',
 'No operation changes the type or replaces the mixins of a sealed object: clear, reset, mutation, copy and move assignment onto it are refused and leave it as it was. Moving out of it carries the seal to the new owner.',
 H,'every mutating operation on a sealed object','Tests try some of the operations.',
 [O,OM],[('m_sealed checks',O)],['object::clear','object::reset_type','object::operator=','object::copy_from','mutate'])
p('C25','From a mixin one always gets to its object',
 'Whenever user code runs on a mixin of an object (from its construction on, including after moves of the object and after mutations) the object found from the mixin pointer is the object which owns it.',
 H,'every history of construction, mutation and move','Tests look after a few operations.',
 ['code/dynamix/object_of.hpp','code/dnmx/object_mixin_data.h',OM,O],[('set_object','code/dynamix/object_mixin_data.hpp'),('object_of','code/dynamix/object_of.hpp')],['object_of','dm_this'])
p('C26','Moving an object transfers everything and leaves an empty object',
 'Moving from an object transfers its type, mixins, seal and mixin addresses to the target and leaves the source an empty object of the same domain. Move assignment first destroys what the target had, is refused between different allocators without effect, and does nothing for the same object.',
 H,'every pair of objects','Tests move a few objects.',
 [O],[('usurp, operator=',O)],['object(object&&)','object::operator='])
p('C27','A copy has the same type and each mixin copied from its counterpart',
 'Copying an object gives an object of the same type where each mixin was copy-initialized from the source\'s mixin of the same index; copying onto an object copy-assigns common mixins and copy-initializes the new ones. A mixin without the needed function makes it fail before anything is changed (copying onto) or with nothing left behind (copying).',
 HF,'every pair of objects and every failure','Tests copy a few types.',
 [O],[('copy, copy_from',O)],['object::copy','object::copy_from'])
p('C28','Matching copy and move transfer exactly the common mixins',
 'Copying or moving matching mixins assigns each mixin which both objects have from its counterpart, with the documented fallback to re-construction for moves only when allowed, and touches no other mixin; when a function is missing it fails before anything is changed.',
 HF,'every pair of types','Tests have a few pairs.',
 [O],[('copy_matching_from, move_matching_from',O)],['object::copy_matching_from','object::move_matching_from'])
p('C29','Object equality and comparison consult every mixin in order',
 'Two different objects are equal only if they have the same type and all their mixins are equal by their own equality, or else comparison, function; without either they are not. Comparison orders by type and then by the first mixin which differs, and is an error when a mixin cannot be compared.',
 I,'all pairs of objects','Tests compare a few objects.',
 [O],[('equals, compare',O)],['object::equals','object::compare'])
p('C30','Getting a mixin gives the mixin or null',
 'Getting a mixin of an object by id, name, info or static type, const or not, through C or C++, gives the buffer of that mixin if the object has it and null otherwise.',
 I,'every object and mixin','Tests try some.',
 [O,'code/dynamix/object.hpp','code/dynamix/object-c.cpp','code/dnmx/basic_object.h'],[('safe_get_mixin',O),('unchecked_get_at','code/dnmx/basic_object.h')],['object::get','object::has','dnmx_object_get_*'])
p('C31','Piecewise mutation goes over the mixins once, in order',
 'A piecewise mutation visits each mixin of the new type once, in order, calling the construction function for new and the update function for common mixins with their index and address, default-constructs the ones skipped over, and refuses an index before the ones done or out of range.',
 H,'every sequence of piecewise calls','Tests have a few sequences.',
 [OMH,OM],[('update_next_mixin, update_each_mixin, update_at',OMH)],['object_mutation'])
p('C32','An error returned by a user function is never lost',
 'Whenever a user-supplied function which can fail (initialization, copy, mutation rule, allocator) reports an error, the operation which called it fails and the error reaches the caller as an exception or an error code.',
 ['fault_sequences'],'an error at every call of a user function','Tests inject some errors.',
 [O,OM,D,'code/dynamix/mixin_allocator-c.cpp'],[('checks of error returns',O)],['exceptions of mutation, copy and type requests'])
p('C33','Missing optional functions are never called',
 'A mixin function, allocator, payload or match function which is not provided is never called: it is skipped where optional and reported as an error where required.',
 I,'every combination of provided and missing functions','Tests leave out some functions.',
 [O,OM,D,T],[('null checks',O)],['mixin function calls'])
p('C34','A unicast message calls the top implementer with the mixin and arguments',
 'A unicast message to an object calls exactly one function: the payload of the first implementer in the feature\'s order, with that mixin of the object and the given arguments, and returns its result.',
 I,'every object and message','Tests send a few messages.',
 ['code/dynamix/msg/msg_caller.hpp','code/dynamix/msg/msg_traits.hpp'],[('call_unicast','code/dynamix/msg/msg_caller.hpp')],['msg calls'])
p('C35','A multicast message calls every top bidder once, top one last',
 'A multicast message calls every implementer with the top bid exactly once, in reverse of the feature\'s order so that the first one is called last, and returns the result of that last call; with a combinator all results are added in call order until it asks to stop, after it was told their number.',
 I,'every object and message','Tests have up to a few bidders.',
 ['code/dynamix/msg/msg_caller.hpp'],[('call_multicast, call_with_v1_combinator','code/dynamix/msg/msg_caller.hpp')],['msg calls'])
p('C36','Messages without an implementer use the default or fail',
 'A message to an object none of whose mixins implements it calls the feature\'s default payload with the object and the arguments, or fails with an exception when there is none; it never calls anything else.',
 I,'every object and message','Tests have one default message.',
 ['code/dynamix/msg/msg_caller.hpp'],[('try_default_payload','code/dynamix/msg/msg_caller.hpp')],['msg calls'])
p('C37','Next-implementer calls call the next implementers or fail',
 'From within a mixin, calling the next implementer, the next bidder set or its top calls those payloads on the same object with the given arguments, in the multicast order for sets, and fails with an exception when there is none; the has-next queries tell exactly whether it would.',
 I,'every object, mixin and message','Tests have a few chains.',
 ['code/dynamix/msg/next_impl.hpp'],[('call_next_*','code/dynamix/msg/next_impl.hpp')],['call_next_impl_msg','call_next_bidder_set','call_next_bidder_top'])
p('C38','Building mixin and feature infos stores what was asked for',
 'Each builder call sets exactly what it names in the info and keeps what it stores alive and referenced by the info; registering the built data adds its rules and mixin, unregistering removes both, and a failed registration leaves neither.',
 ['programs','fault_sequences'],'every chain of builder calls','Tests use some chains.',
 ['code/dynamix/mixin_info_data.hpp','code/dynamix/mixin_info_data.cpp','code/dynamix/feature_info_data.hpp','code/dynamix/mixin_info_data_literals.hpp'],[('builders','code/dynamix/mixin_info_data.hpp'),('register_in, unregister_from','code/dynamix/mixin_info_data.cpp')],['mixin_info_data_builder','feature_info_data_builder'])
p('C39','Statically defined mixins and type classes are registered for their lifetime',
 'A statically defined mixin or type class is registered in its domain on construction of its static instance and removed on its destruction if it is still registered.',
 PR,'every program with static definitions','Tests see one load order and no destruction.',
 ['code/dynamix/define_mixin.hpp','code/dynamix/define_type_class.hpp'],[('mixin_info_data_instance','code/dynamix/define_mixin.hpp'),('registered_type_class_instance','code/dynamix/define_type_class.hpp')],['static definitions'])
p('C40','A mixin class gets exactly the functions it supports',
 'The info made for a mixin class has its size and alignment and a default/copy/move initializer, assigner or destroyer exactly when the class is constructible, copyable or (without throwing) movable or needs destruction, and each function performs that operation of the class on the given memory.',
 PR,'every mixin class','Tests use a few classes; the matrix of traits is large.',
 ['code/dynamix/mixin_info_util.hpp'],[('common_init_mixin_info','code/dynamix/mixin_info_util.hpp')],['common_init_mixin_info','call_mixin_*'])
p('C41','Stored payloads are kept alive and referenced values are not owned',
 'A payload stored in an info is owned by a shared handle for as long as the info data lives, and a forwarded reference refers to the caller\'s object itself without owning, copying or destroying it.',
 PR,'every payload','Tests look at a few values.',
 ['code/dynamix/any.hpp','code/dynamix/feature_info_data.hpp','code/dynamix/mixin_info_data.hpp'],[('make_any, fwd_any','code/dynamix/any.hpp')],['fwd_any','make_any'])
p('C42','Edits of a type mutation keep the order of the other mixins',
 'Adding appends, removing takes out every/one occurrence as documented, moving to back keeps the order of the rest, deduplication leaves the last occurrence of each, and the queries of a mutation answer for its current list. Unknown names are errors in the throwing and null in the safe forms, with the mutation unchanged.',
 H,'every sequence of edits','Tests have a few sequences.',
 [TM,'code/dynamix/type_mutation.hpp','code/dynamix/type_mutation-c.cpp'],[('type_mutation',TM)],['type_mutation'])
p('C43','Mutation operations have their effect on type and object exactly once',
 'Mutating an object with operations edits a mutation of its type by each operation in order, mutates the object to the resulting type once, and initializes a mixin with the given function or arguments exactly when it is new and present in that type; gradual mutations apply once unless cancelled or unwound by an exception.',
 H,'every list of operations','Tests use a few lists.',
 ['code/dynamix/mutate.hpp','code/dynamix/mutate_to.hpp','code/dynamix/mutate_ops.hpp','code/dynamix/mutate_to_ops.hpp','code/dynamix/object_mutate_ops.hpp'],[('mutate, mutate_to','code/dynamix/mutate_to.hpp'),('gradual_mutation','code/dynamix/mutate.hpp')],['mutate','mutate_to','gradual_mutation'])
p('C44','Common mutation rules add the dependent iff the primary is there',
 'The rule made by attaching one mixin to another adds the dependent exactly when the type has the primary and lacks the dependent; only attaching makes the mixin a dependency.',
 I,'every type','Tests have a few types.',
 ['code/dynamix/common_mutation_rules.hpp'],[('apply_basic_mixin_dep','code/dynamix/common_mutation_rules.hpp')],['attaches_to','also_adds'])
p('C45','Registries are only accessed under their lock',
 'Each access to a domain\'s registries of elements, types, rules and queries, from any function which can run concurrently, happens while the lock of that registry is held, exclusively for changes.',
 ['schedules'],'every interleaving of threads','Tests rarely race, and a race may go unnoticed.',
 [D,'code/dynamix/dbg_dmp.cpp'],[('data_mutex',D)],['domain functions from several threads'])
p('C46','Locks are taken in one order and never twice by a thread',
 'No thread ever waits for a registry lock it already holds, no two functions take the two registry locks in opposite orders while holding one, and no user code runs under an exclusive lock.',
 ['schedules'],'every interleaving of threads','A deadlock needs a particular interleaving.',
 [D,'code/dynamix/dbg_dmp.cpp'],[('shared_lock/unique_lock scopes',D)],['domain functions from several threads'])
p('C48','No exception leaves the C interface',
 'Every C function catches whatever (standard or library) exception its implementation throws and reports it as an error code or null; it reports success or a result only when the implementation succeeded.',
 ['fault_sequences'],'a failure at every point of every C function','Tests make some C calls fail.',
 ['code/dynamix/domain-c.cpp','code/dynamix/object-c.cpp','code/dynamix/type-c.cpp','code/dynamix/type_mutation-c.cpp','code/dynamix/mutate-c.cpp','code/dynamix/mixin_allocator-c.cpp'],[('try/catch in C functions','code/dynamix/domain-c.cpp')],['dnmx_* functions'])
p('C49','Every declared function is defined, and C functions do what their C++ counterparts do',
 'Each function declared in the headers is defined, and each C function passes its arguments unchanged to the corresponding operation and its result back.',
 I,'every argument','Tests call a part of the C functions.',
 ['code/dynamix/domain-c.cpp','code/dynamix/object-c.cpp','code/dynamix/type-c.cpp','code/dynamix/type_mutation-c.cpp','code/dynamix/mutate-c.cpp'],[('C wrappers','code/dynamix/domain-c.cpp')],['dnmx_* functions'])
p('C51','String views behave as their contents',
 'String views compare, test equal, convert and report emptiness by their length and bytes exactly as the standard view of the same bytes does, and views made of literals or strings refer to exactly those bytes.',
 I,'all pairs of views, including common storage and embedded or missing terminators','The tests compare a few literals.',
 ['code/dnmx/bits/sv.h'],[('dnmx_sv functions','code/dnmx/bits/sv.h')],['dnmx_sv_*','dnmx_sv members'])
p('C52','Ids, info defaults and info helpers are consistent in C and C++',
 'Freshly made infos are unregistered and otherwise zero, ids compare and test valid by value with one invalid value, and the helpers which set or query sizes, alignments, features and externality give the same results in C and C++.',
 I,'all values','Tests look at a few values.',
 ['code/dnmx/bits/id_int_t.h','code/dnmx/mixin_info.h','code/dnmx/feature_info.h','code/dnmx/mixin_index.h','code/dynamix/mixin_info.hpp','code/dynamix/common_mixin_info.hpp','code/dynamix/common_feature_info.hpp','code/dnmx/mixin_id.h','code/dnmx/feature_id.h'],[('dnmx_make_*_info','code/dnmx/mixin_info.h'),('ids','code/dnmx/bits/id_int_t.h')],['dnmx_make_mixin_info','dnmx_make_feature_info'])
p('C53','The common C mixin functions do bytewise what they are named for',
 'The provided bytewise mixin functions initialize, copy, move or compare exactly the bytes of the mixin\'s size at the given places, the no-op ones touch nothing, and all report success.',
 I,'every size and content','They are tested on one mixin.',
 ['code/dnmx/mixin_common_funcs.c'],[('dnmx_mixin_common_*','code/dnmx/mixin_common_funcs.c')],['dnmx_mixin_common_*'])
p('C55','Construction from a tuple forwards each element',
 'Constructing an object in given memory from a tuple passes every element once, in order and with its own value category, and constructs exactly at the given memory.',
 PR,'every tuple','Two tuples are tested.',
 ['code/dynamix/bits/make_from_tuple.hpp'],[('make_from_tuple','code/dynamix/bits/make_from_tuple.hpp')],['impl::make_from_tuple'])
p('C56','Version 1 combinators fold their results as named',
 'Each combinator of the version 1 compatibility layer yields the fold its name promises over all added results, stops further calls only when the outcome is settled, and starts from the proper neutral value.',
 I,'every sequence of results','Tests fold short sequences.',
 ['v1compat/code/dynamix/v1compat/combinators.hpp'],[('combinators','v1compat/code/dynamix/v1compat/combinators.hpp')],['combinators::*'])
p('C57','Version 1 mutation rules enforce their relation',
 'Each version 1 mutation rule leaves a mutation satisfying the relation it is named for (mandatory, mutually exclusive, substituting, bundled, deprecated mixins) and otherwise unchanged.',
 I,'every list of mixins','Tests have a few lists.',
 ['v1compat/code/dynamix/v1compat/mutation_rules.cpp','v1compat/code/dynamix/v1compat/common_mutation_rules.hpp'],[('rules','v1compat/code/dynamix/v1compat/mutation_rules.cpp')],['v1compat rules'])
p('C58','Memory resources forward sizes, alignments and identity',
 'Allocation through the library\'s allocators and memory resources passes size and alignment to the resource unchanged on allocation and release, the default resource is the one last set (or the new/delete one), and allocators are equal exactly when their resources are.',
 I,'every size, alignment and resource','Tests use one counting resource.',
 ['code/dynamix/compat/pmr/allocator.hpp','code/dynamix/compat/pmr/memory_resource.hpp','code/dynamix/compat/pmr/memory_resource.cpp'],[('allocator','code/dynamix/compat/pmr/allocator.hpp')],['allocator::allocate_bytes','get_default_resource'])
p('C59','Domains keep their settings, name and context',
 'A domain has the name, settings, user data and context it was created with, starts with its empty type and, only if asked to canonicalize types, one rule sorting mixins canonically after all others; the settings builder changes only the setting it is asked to.',
 ['configurations'],'every settings combination','Tests use a few settings.',
 [D,'code/dynamix/domain_settings_builder.hpp','code/dnmx/domain_settings.h'],[('domain::domain',D),('domain_settings_builder','code/dynamix/domain_settings_builder.hpp')],['domain','domain_settings_builder'])
p('C60','Objects with identity cannot be copied',
 'Domains, types, mutations in progress and infos with identity cannot be copied or moved in ways which would duplicate what they own.',
 PR,'every program','A test cannot show that programs fail to compile.',
 ['code/dynamix/domain.hpp',TH,OMH,'code/dynamix/mutate.hpp','code/dynamix/common_mixin_info.hpp','code/dynamix/common_feature_info.hpp','code/dynamix/object.hpp'],[('deleted copies',TH)],['copy and move of library classes'])
p('C61','Functions marked as not throwing do not let exceptions out',
 'No function which is declared not to throw can be left by an exception the library throws, so that no error reported by the library terminates the program.',
 ['fault_sequences'],'every failure in every such function','Tests do not fail inside each of them.',
 [D,O,OM,'code/dynamix/mixin_info_data.cpp'],[('noexcept declarations','code/dynamix/domain.hpp')],['noexcept functions'])
p('C62','Errors have their documented exception types',
 'Each kind of error is reported with its own exception type, all derived from the library\'s base exception types so that they can be caught as such, and the error-raising functions never return.',
 I,'every error','Tests catch some of them.',
 ['code/dynamix/throw_exception.cpp','code/dynamix/exception.hpp','code/dynamix/exception.cpp'],[('throw_exception','code/dynamix/throw_exception.cpp')],['exceptions'])
p('C63','Type trait queries tell whether all mixins have the function',
 'A type is default-constructible, copyable in either way, or comparable exactly when each of its mixins has the functions that takes.',
 I,'every type','Tests have a few types.',
 [T],[('type traits',T)],['type::default_constructible','type::copy_constructible','type::copy_assignable','type::comparable','type::equality_comparable'])
p('C64','Traversal shows every registered element once',
 'Traversing a domain calls the given function exactly once for each registered mixin, feature, rule, type class, type and query, and for nothing else.',
 H,'every history','Tests traverse one domain.',
 [D,'code/dynamix/domain_traverse.hpp'],[('domain_traverse',D)],['domain_traverse'])
p('C90','Costs of messages and lookups do not depend on the number of mixins',
 'Sending a unicast message and getting a mixin by id take constant time.',I,'every object','Timing is not tested.',
 ['code/dynamix/msg/msg_caller.hpp'],[('ftable','code/dnmx/basic_type.h')],['msg calls'])
p('C91','Concurrent requests are linearizable',
 'Any interleaving of type requests, registrations and collections from several threads gives results of some sequential order of them.',['schedules'],'all interleavings','Tests run few threads.',
 [D],[('data_mutex',D)],['domain'])
json_lines='\n'.join(json.dumps(x) for x in P)+'\n'
open('/verif/properties.jsonl','w').write(json_lines)
print(len(P), max(len(x['title']) for x in P))
