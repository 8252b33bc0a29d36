# behaviour-preserving edits: renamed private members, added members, algorithms for loops, types of helpers
E = {}
I='code/dynamix/'
D=I+'domain.cpp'; TY=I+'type.cpp'; OMC=I+'object_mutation.cpp'; OM=I+'object_mutation.hpp'; OC=I+'object.cpp'; TM=I+'type_mutation.cpp'; MU=I+'mutate.hpp'
MC=I+'msg/msg_caller.hpp'; NI=I+'msg/next_impl.hpp'; DT=I+'domain_traverse.hpp'; TH=I+'type.hpp'
SV='code/dnmx/bits/sv.h'; CM=I+'mutate-c.cpp'; V='v1compat/code/dynamix/v1compat/'; MR=V+'mutation_rules.cpp'; VC=V+'combinators.hpp'
DB=I+'mixin_info_data.hpp'; MID=I+'mixin_info_data.cpp'; MT=I+'mutate_to.hpp'
import os
def ren(old, new, *files):
    import re
    r = []
    for f in files:
        s = open(os.path.join('/repo', f)).read()
        t = re.sub(r'\b%s\b' % old, new, s)
        assert s != t, (f, old)
        r.append((f, s, t))
    return r
E['ren_updated_upto'] = ren('m_updated_upto', 'm_num_updated', OM, OMC)
E['ren_registry_fields'] = ren('sparse_mixins', 'mixins_by_id', D)
E['ren_type_registry'] = ren('type_queries', 'query_cache', D)
E['ren_gradual'] = ren('m_type_mut', 'm_pending', MU)
E['ren_helper_fn'] = ren('apply_mutation_rules_l', 'run_rules_locked', D)
E['ren_helper_class'] = ren('ftable_build_helper', 'feature_table_builder', D)
E['ren_om_old'] = ren('m_old_mixin_data', 'm_src_data', OM, OMC)
E['ren_v1_registry'] = ren('the_registry', 'g_rules', MR)
E['ren_v1_sum'] = ren('_result', 'm_value', VC)
E['ren_free_fn'] = ren('mixin_span_less', 'query_less', D)
E['ren_build_data'] = ren('feature_payload_storage', 'payload_owners', DB)
E['om_member_order'] = [(OM, '''    mixin_index_t m_allocated_upto;

    // ... mixins for target_type have been updated
    // * target-only mixins have been constructed
    // * common mixins have been updated
    mixin_index_t m_updated_upto;
''', '''    // (declared below) mixins which needed allocation
    // ... mixins for target_type have been updated
    // * target-only mixins have been constructed
    // * common mixins have been updated
    mixin_index_t m_updated_upto;
    mixin_index_t m_allocated_upto;
''')]
E['om_same_type_member'] = [(OM, '''    bool m_complete = false;

    // rust''', '''    bool m_complete = false;

    // mutating to the type the object already has
    bool is_same_type() const noexcept { return &m_target_type == m_old_type; }

    // rust'''), (OMC, '''    if (&m_target_type != m_old_type) {
        // tag''', '''    if (!is_same_type()) {
        // tag'''), (OMC, '''    if (&m_target_type == m_old_type) {
        // tag: same_type_shortcut
        m_old''', '''    if (is_same_type()) {
        // tag: same_type_shortcut
        m_old'''), (OMC, '''    if (&m_target_type == m_old_type) {
        // tag: same_type_shortcut
        // we've''', '''    if (is_same_type()) {
        // tag: same_type_shortcut
        // we've''')]
E['om_cached_flag'] = [(OM, '''    bool m_complete = false;

    // rust''', '''    bool m_complete = false;

    // whether there are old mixins at all
    const bool m_had_mixins = m_old_mixin_data != nullptr;

    // rust'''), (OMC, '''        if (m_old_mixin_data && m_old_type->has(info.id)) continue; // not new''', '''        if (m_had_mixins && m_old_type->has(info.id)) continue; // not new''')]
E['pad_formula'] = [(D, '''            auto padding = util::next_multiple(obj_buf_size, ma) - obj_buf_size;
            if (padding < sizeof_ptr) padding += ma;

            obj_buf_size += padding;
''', '''            // room for the object pointer in front of the mixin
            obj_buf_size = byte_size_t(util::next_multiple(byte_size_t(obj_buf_size + sizeof_ptr), ma));
''')]
E['trav_for_each'] = [(D, '''    for (auto* m : m_impl->er->sparse_mixins) {
        if (m) func(*m);
    }''', '''    const auto& all = m_impl->er->sparse_mixins;
    std::for_each(all.begin(), all.end(), [&func](const mixin_info* info) {
        if (info == nullptr) return;
        func(*info);
    });'''), (D, '''    for (auto& mr : m_impl->tr->mutation_rules) {
        func(*mr.first, mr.second);
    }''', '''    for (auto& [rule, refs] : m_impl->tr->mutation_rules) {
        func(*rule, refs);
    }''')]
E['rules_limit_min'] = [(D, '''        for (int i = 0; ; ++i) {
            // apply rules''', '''        const int max_passes = std::min<int>(max_depenency_depth, int(rules.size()));
        for (int i = 0; ; ++i) {
            // apply rules'''), (D, '''if (i == max_depenency_depth || i == int(rules.size())) {''', '''if (i == max_passes) {''')]
E['rule_inc_short'] = [(D, '''        auto& rc = reg->mutation_rules[&info];
        ++rc;
        if (rc != 1) return; // not first-time registering
''', '''        if (++reg->mutation_rules[&info] > 1) return; // not first-time registering
''')]
E['next_set_find_if'] = [(TY, '''    auto fbid = f->data->bid;
    while (f != fe.end && f->data->bid == fbid) ++f; // find the end of the current bidder set
    if (f == fe.end) return {}; // provided mixin was of the last bidder set - there is no next one

    auto begin = f;
    auto end = begin + 1;
    while (end != fe.end && end->data->bid == f->data->bid) ++end; // find the end of the next bidder set
    return {begin, end};''', '''    auto end_of_set = [&fe](const ftable_payload* i) {
        const auto bid = i->data->bid;
        return std::find_if(i, static_cast<const ftable_payload*>(fe.end), [bid](const ftable_payload& p) { return p.data->bid != bid; });
    };
    auto begin = end_of_set(f);
    if (begin == fe.end) return {};
    return {begin, end_of_set(begin)};'''), (TY, '#include "type.hpp"\n', '#include "type.hpp"\n#include <algorithm>\n')]
E['top_bid_find'] = [(D, '''                for (auto pl = entry.begin + 1; pl != entry.end; ++pl) {
                    if (pl->data->bid != entry.top_bid_back->data->bid) {
                        // top bid end reached
                        break;
                    }
                    entry.top_bid_back = pl;
                }''', '''                const auto top_bid = entry.begin->data->bid;
                auto top_end = std::find_if(entry.begin, entry.end, [top_bid](const type::ftable_payload& p) { return p.data->bid != top_bid; });
                entry.top_bid_back = top_end - 1;''')]
E['clash_adjacent_find'] = [(D, '''                    for (auto ie = entry.begin; ie != entry.end - 1; ++ie) {
                        const auto& cur = *ie;
                        const auto& next = *(ie + 1);
                        if (cur.data->bid == next.data->bid && cur.data->priority == next.data->priority) {
                            // same bid and prio = clash
                            throw_exception::feature_clash(m_mut, cur, next);
                        }
                    }''', '''                    auto clash = std::adjacent_find(entry.begin, entry.end, [](const type::ftable_payload& x, const type::ftable_payload& y) {
                        return x.data->bid == y.data->bid && x.data->priority == y.data->priority;
                    });
                    if (clash != entry.end) throw_exception::feature_clash(m_mut, clash[0], clash[1]);''')]
E['sparse_max_lambda'] = [(D, '''            auto max_by_id = std::max_element(mixins.begin(), mixins.end(), [](const mixin_info* a, const mixin_info* b) {
                return a->iid() < b->iid();
            });
            return (*max_by_id)->iid() + 1;''', '''            mixin_id::int_t num = 0;
            for (auto m : mixins) num = std::max<mixin_id::int_t>(num, m->iid() + 1);
            return num;''')]
E['compare_mismatch'] = [(TY, '''    while (true) {
        if (m == mend) {
            assert(o != oend); // sanity: how is this the same type?
            return -1;
        }

        if (o == oend) return 1;

        if (*m != *o) {
            canonical_mixin_order cmp;
            return cmp(*m, *o) ? -1 : 1;
        }

        ++m;
        ++o;
    }''', '''    for (; m != mend && o != oend; ++m, ++o) {
        if (*m == *o) continue;
        return canonical_mixin_order{}(*m, *o) ? -1 : 1;
    }
    return m == mend ? -1 : 1;''')]
E['obj_compare_ptr'] = [(OC, '''    for (size_t index = 0; index < mtype.mixins.size(); ++index) {
        auto& info = *mtype.mixins[index];
        if (!info.compare) throw''', '''    size_t index = 0;
    for (auto* pinfo : mtype.mixins) {
        auto& info = *pinfo;
        if (!info.compare) throw'''), (OC, '''        if (auto cmp = info.compare(&info, own_mixin, other_mixin)) return cmp;
    }
''', '''        if (auto cmp = info.compare(&info, own_mixin, other_mixin)) return cmp;
        ++index;
    }
''')]
E['multi_reverse_it'] = [(MC, '''            for (auto i = fe.top_bid_back; i != fe.begin; --i) {
                call(*i, obj, args...); // args are copied! return value is ignored
            }
            // return first (top) result
            return call(*fe.begin, obj, std::forward<Args>(args)...);''', '''            auto const first = fe.begin;
            auto cur = fe.top_bid_back;
            while (cur > first) {
                call(*cur, obj, args...);
                cur = cur - 1;
            }
            return call(*first, obj, std::forward<Args>(args)...);''')]
E['usurp_swap_sealed'] = [(OC, '''    m_type = other.m_type;
    m_mixin_data = other.m_mixin_data;
    m_sealed = other.m_sealed;

    // we also need to redirect mixin datas to this
    for (size_t i = 0; i < num_mixins(); ++i) {
        m_mixin_data[i].set_object(this);
    }

    // clear other object
    other.m_type = &get_domain().get_empty_type();
    other.m_mixin_data = nullptr;''', '''    m_type = std::exchange(other.m_type, &other.get_domain().get_empty_type());
    m_mixin_data = std::exchange(other.m_mixin_data, nullptr);
    m_sealed = other.m_sealed;

    // we also need to redirect mixin datas to this
    auto data = m_mixin_data;
    const auto end = data + num_mixins();
    for (; data != end; ++data) {
        data->set_object(this);
    }'''), (OC, '#include "object.hpp"\n', '#include "object.hpp"\n#include <utility>\n')]
E['copy_init_fn'] = [(OC, '''    perform_object_mutation(*this, tt,
        [&](init_new_args args) {
            auto source = o.m_mixin_data[args.target_index].mixin;
            auto err = args.info.copy_init(&args.info, args.mixin_buf, source);
            if (err) throw_exception::obj_mut_user_error(tt, "copy_from", "copy init", args.info, err);
        },
        [&](update_common_args args) {
            auto source = o.m_mixin_data[args.target_index].mixin;
            auto err = args.info.copy_asgn(&args.info, args.mixin_buf, source);
            if (err) throw_exception::obj_mut_user_error(tt, "copy_from", "copy assign", args.info, err);
        }
    );''', '''    auto copy_one = [&](const init_new_args& args, auto func, const char* op) {
        if (auto err = func(&args.info, args.mixin_buf, o.m_mixin_data[args.target_index].mixin)) {
            throw_exception::obj_mut_user_error(tt, "copy_from", op, args.info, err);
        }
    };

    perform_object_mutation(*this, tt,
        [&](init_new_args args) { copy_one(args, args.info.copy_init, "copy init"); },
        [&](update_common_args args) { copy_one(args, args.info.copy_asgn, "copy assign"); }
    );''')]
E['om_raii_rollback'] = [(OMC, '''    if (std::uncaught_exceptions() > m_uncaught_exceptions) {
        rollback();
        return;
    }

    try {
        default_construct_each_new_mixin();
    }
    catch (...) {
        rollback();
        throw; // forward the exception to the outside world
    }

    assert(m_complete);
    finalize();''', '''    const bool unwinding = std::uncaught_exceptions() > m_uncaught_exceptions;
    if (!unwinding) {
        try {
            default_construct_each_new_mixin();
        }
        catch (...) {
            rollback();
            throw; // forward the exception to the outside world
        }
        assert(m_complete);
        finalize();
    }
    else {
        rollback();
    }''')]
E['reg_rules_guard'] = [(MID, '''    size_t num_added = 0;
    try {
        for (auto* r : mutation_rule_infos) {
            dom.add_mutation_rule(*r);
            ++num_added;
        }
        dom.register_mixin(info);
    }
    catch (...) {
        // don't leave rules of a mixin which is not registered in the domain
        while (num_added-- > 0) {
            dom.remove_mutation_rule(*mutation_rule_infos[num_added]);
        }
        throw;
    }''', '''    struct added_rules {
        domain& d;
        const compat::pmr::deque<const mutation_rule_info*>& rules;
        size_t num = 0;
        bool keep = false;
        ~added_rules() {
            if (keep) return;
            while (num-- > 0) d.remove_mutation_rule(*rules[num]);
        }
    } added{dom, mutation_rule_infos};
    for (auto* r : mutation_rule_infos) {
        dom.add_mutation_rule(*r);
        ++added.num;
    }
    dom.register_mixin(info);
    added.keep = true;''')]
E['v1_excl_index'] = [(MR, '''    std::reverse(mut.mixins.begin(), mut.mixins.end());
    bool found = false;
    itlib::erase_all_if(mut.mixins, [&](const mixin_info* i) {
        auto f = itlib::pfind(infos, i);
        if (!f) return false; // don't care about this one
        if (found) return true; // erase if another mutually exclusive was found
        found = true;
        return false; // keep the first
    });
    std::reverse(mut.mixins.begin(), mut.mixins.end());''', '''    bool found = false;
    for (auto i = mut.mixins.size(); i-- > 0; ) {
        if (!itlib::pfind(infos, mut.mixins[i])) continue; // don't care about this one
        if (!found) {
            found = true; // keep the last
            continue;
        }
        mut.mixins.erase(mut.mixins.begin() + i);
    }''')]
E['v1_find'] = [(MR, '''    auto r = itlib::pfind(rules, nullptr);
    if (!r) {
        r = &rules.emplace_back();
    }
''', '''    auto it = std::find(rules.begin(), rules.end(), nullptr);
    if (it == rules.end()) it = rules.insert(rules.end(), std::shared_ptr<mutation_rule>{});
    auto* r = &*it;
'''), (MR, '#include <mutex>\n', '#include <mutex>\n#include <algorithm>\n')]
E['gc_remove_if'] = [(D, '''                if (iq->second == it->get()) {
                    iq = queries.erase(iq);
                }
                else {
                    ++iq;
                }
            }
            it = types.erase(it);''', '''                const bool leads_to_dropped = iq->second == it->get();
                iq = leads_to_dropped ? queries.erase(iq) : std::next(iq);
            }
            it = types.erase(it);''')]
