S = {}
S['least-id-with-duplicates'] = dict(property='C01', needs='a domain which allows duplicate names, two free slots before the next registration',
 breaks='the info gets the last free id instead of the least one', edits=[('code/dynamix/domain.cpp', '''                    free_id = id_t{i};
                    break;''', '''                    free_id = id_t{i};''')],
 demo=r'''
struct A{}; struct B{}; struct C{}; struct D{};
int main() {
    domain dom("d", domain_settings_builder().allow_duplicate_mixin_names());
    mx<A> a("a"); mx<B> b("b"); mx<C> c("c"); mx<D> d("d");
    a.register_in(dom); b.register_in(dom); c.register_in(dom);
    a.unregister_from(dom); b.unregister_from(dom);
    d.register_in(dom);
    REQ(d.info.iid() == 0);
    REQ(dom.get_mixin_info(d.info.id) == &d.info);
    return 0;
}
''')

S['unregister-keeps-query'] = dict(property='C18', needs='a rule which removes a mixin, a cached query in which that mixin is not the last, then unregistering it',
 breaks='the cached query still refers to the unregistered mixin', edits=[('code/dynamix/domain.cpp', 'else if (itlib::pfind(iq->first, &info)) {', 'else if (!iq->first.empty() && iq->first.back() == &info) {')],
 demo=r"""
#include <dynamix/domain_traverse.hpp>
struct A{}; struct B{};
static const mixin_info* g_drop;
int main() {
    domain dom("d");
    mx<A> a("a"); mx<B> b("b"); a.register_in(dom); b.register_in(dom);
    mutation_rule_info r = {}; r.name = dnmx_make_sv_lit("drop a"); g_drop = &a.info;
    r.apply = [](dnmx_type_mutation_handle m, uintptr_t) -> error_return_t { type_mutation::from_c_handle(m)->remove(*g_drop); return 0; };
    dom.add_mutation_rule(r);
    { const mixin_info* q[] = {&a.info, &b.info}; REQ(dom.get_type(q).num_mixins() == 1); }
    a.unregister_from(dom);
    int bad = 0;
    domain_traverse(dom).traverse_type_queries([&](itlib::span<const mixin_info* const> k, const type&) {
        for (auto m : k) if (m == &a.info) ++bad;
    });
    REQ(bad == 0);
    return 0;
}
""")
S['gc-one-query'] = dict(property='C17', needs='two cached queries which lead to the same type without objects, then a collection',
 breaks='one of the queries keeps leading to the dropped type', edits=[('code/dynamix/domain.cpp', """                if (iq->second == it->get()) {
                    iq = queries.erase(iq);
                }
                else {
                    ++iq;
                }
            }
            it = types.erase(it);""", """                if (iq->second == it->get()) {
                    queries.erase(iq);
                    break;
                }
                ++iq;
            }
            it = types.erase(it);""")],
 demo=r"""
struct A{}; struct B{};
int main() {
    domain dom("d", domain_settings_builder().canonicalize_types());
    mx<A> a("a"); mx<B> b("b"); a.register_in(dom); b.register_in(dom);
    const mixin_info* q1[] = {&a.info, &b.info}; const mixin_info* q2[] = {&b.info, &a.info};
    const type* t = &dom.get_type(q1); REQ(t == &dom.get_type(q2));
    dom.garbage_collect_types();
    REQ(dom.num_types() == 0);
    REQ(dom.num_type_queries() == 0);
    return 0;
}
""")
S['offsets-padding'] = dict(property='C11', needs='an over-aligned mixin placed after one whose end leaves a gap smaller than a pointer',
 breaks='the object pointer of the mixin overwrites the end of the mixin before it', edits=[('code/dynamix/domain.cpp', 'if (padding < sizeof_ptr) padding += ma;', 'if (padding == 0) padding += ma;')],
 demo=r"""
struct A { char c[4] = {1, 2, 3, 4}; }; struct B { int64_t i = 5; };
int main() {
    domain dom("d");
    mx<A> a("a"); mx<B> b("b"); a.register_in(dom); b.register_in(dom);
    const mixin_info* q[] = {&a.info, &b.info};
    object o(dom.get_type(q));
    auto pa = static_cast<char*>(o.get(a.info.id)); auto pb = static_cast<char*>(o.get(b.info.id));
    REQ(pb - sizeof(void*) >= pa + sizeof(A));
    for (int i = 0; i < 4; ++i) REQ(pa[i] == i + 1);
    REQ(object_of(reinterpret_cast<B*>(pb)) == &o);
    return 0;
}
""")
S['clash-low-bids'] = dict(property='C13', needs='two mixins with the same bid and priority below the top one',
 breaks='a clash which is not among the top bidders is accepted', edits=[('code/dynamix/domain.cpp', 'for (auto ie = entry.begin; ie != entry.end - 1; ++ie) {', 'for (auto ie = entry.begin; ie != entry.end - 1 && (ie == entry.begin || ie->data->bid == entry.begin->data->bid); ++ie) {')],
 demo=r"""
struct A{}; struct B{}; struct C{}; struct D{};
int main() {
    domain dom("d");
    common_feature_info f; f.name = dnmx_make_sv_lit("f");
    int pl = 0;
    mx<A> a("a"); mx<B> b("b"); mx<C> c("c");
    util::mixin_info_data_builder<A>(nullptr, a).implements_by(f, pl, {5, {}});
    util::mixin_info_data_builder<B>(nullptr, b).implements_by(f, pl, {1, 3});
    util::mixin_info_data_builder<C>(nullptr, c).implements_by(f, pl, {1, 3});
    util::mixin_info_data d; util::mixin_info_data_builder<D>(d, std::string_view("d")).implements_by(f, pl, {2, 0});
    a.register_in(dom); b.register_in(dom); c.register_in(dom); d.register_in(dom);
    const mixin_info* q[] = {&a.info, &d.info, &b.info, &c.info};
    bool thrown = false;
    try { dom.get_type(q); } catch (const std::exception&) { thrown = true; }
    REQ(thrown);
    return 0;
}
""")
S['next-set-inside-own-set'] = dict(property='C14', needs='a mixin which is not the last of its set of bidders with equal bids, and at least two sets',
 breaks='for a mixin in the middle of its set the next set starts inside the own set', edits=[('code/dynamix/type.cpp', 'while (f != fe.end && f->data->bid == fbid) ++f; // find the end of the current bidder set', '++f; // find the end of the current bidder set\n    if (f != fe.end && f->data->bid == fbid) ++f;')],
 demo=r"""
struct A{}; struct B{}; struct C{}; struct D{};
int main() {
    domain dom("d");
    common_feature_info f; f.name = dnmx_make_sv_lit("f"); f.allow_clashes = true;
    int pl = 0;
    mx<A> a("a"); mx<B> b("b"); mx<C> c("c"); mx<D> d("d");
    util::mixin_info_data_builder<A>(nullptr, a).implements_by(f, pl, {5, {}});
    util::mixin_info_data_builder<B>(nullptr, b).implements_by(f, pl, {5, {}});
    util::mixin_info_data_builder<C>(nullptr, c).implements_by(f, pl, {5, {}});
    util::mixin_info_data_builder<D>(nullptr, d).implements_by(f, pl, {1, {}});
    a.register_in(dom); b.register_in(dom); c.register_in(dom); d.register_in(dom);
    const mixin_info* q[] = {&d.info, &c.info, &b.info, &a.info};
    auto& t = dom.get_type(q);
    for (auto m : {&a.info, &b.info, &c.info}) {
        auto s = t.find_next_bidder_set(f, *m);
        REQ(s.size() == 1);
        REQ(t.mixins[s.begin()->mixin_index] == &d.info);
    }
    REQ(t.find_next_bidder_set(f, d.info).empty());
    return 0;
}
""")
S['rollback-destroys-unbuilt'] = dict(property='C22', needs='a mixin whose initialisation fails while later mixins are already allocated',
 breaks='mixins which have never been constructed are destroyed in the rollback', edits=[('code/dynamix/object_mutation.cpp', """    for (mixin_index_t ti = m_updated_upto; ti-- > 0; ) {""", """    for (mixin_index_t ti = m_allocated_upto; ti-- > 0; ) {""")],
 demo=r"""
#include <stdexcept>
static int g_live = 0;
struct A { A() { ++g_live; } ~A() { --g_live; } A(A&&) noexcept { ++g_live; } };
struct B { B() { throw std::runtime_error("b"); } B(B&&) noexcept {} };
struct C { C() { ++g_live; } ~C() { --g_live; } C(C&&) noexcept { ++g_live; } };
int main() {
    domain dom("d");
    mx<A> a("a"); mx<B> b("b"); mx<C> c("c"); a.register_in(dom); b.register_in(dom); c.register_in(dom);
    const mixin_info* q[] = {&a.info, &b.info, &c.info};
    auto& t = dom.get_type(q);
    bool thrown = false;
    try { object o(t); } catch (const std::exception&) { thrown = true; }
    REQ(thrown); REQ(g_live == 0);
    return 0;
}
""")
S['rollback-frees-common-external'] = dict(property='C20', needs='a mutation which fails after it took over an external mixin of the object',
 breaks='the rollback frees the buffer of a mixin which the object keeps', edits=[('code/dynamix/object_mutation.cpp', """        if (m_old_mixin_data && m_old_type->has(info.id)) {
            // we have that type""", """        if (m_old_mixin_data && !info.allocator && m_old_type->has(info.id)) {
            // we have that type""")],
 demo=r"""
#include <stdexcept>
static int g_bufs = 0;
struct my_alloc : public mixin_allocator {
    byte_t* alloc_mixin_buf(const mixin_info& info) override { ++g_bufs; return static_cast<byte_t*>(std::malloc(info.obj_buf_size + 64)); }
    void dealloc_mixin_buf(byte_t*, const mixin_info&) noexcept override { --g_bufs; }
};
struct A { int i = 7; };
struct B { B() { throw std::runtime_error("b"); } B(B&&) noexcept {} };
int main() {
    domain dom("d");
    my_alloc al;
    mx<A> a("a"); util::mixin_info_data_builder<A>(nullptr, a).uses_allocator(al);
    mx<B> b("b"); a.register_in(dom); b.register_in(dom);
    const mixin_info* q1[] = {&a.info}; const mixin_info* q2[] = {&a.info, &b.info};
    object o(dom.get_type(q1));
    REQ(g_bufs == 1);
    bool thrown = false;
    try { o.reset_type(dom.get_type(q2)); } catch (const std::exception&) { thrown = true; }
    REQ(thrown);
    REQ(o.num_mixins() == 1); REQ(g_bufs == 1);
    REQ(static_cast<A*>(o.get(a.info.id))->i == 7);
    return 0;
}
""")
S['matching-move-drops-target'] = dict(property='C28', needs='a mixin without move assignment, moved with the fallback, with a destructor which is seen',
 breaks='the fallback destroys the source instead of the target', edits=[('code/dynamix/object.cpp', 'if (info.destroy) info.destroy(&info, m_mixin_data[own_index].mixin);', 'if (info.destroy) info.destroy(&info, o.m_mixin_data[own_index].mixin);')],
 demo=r"""
struct A { std::string s = "initial value of the mixin, long enough for the heap"; A() = default; A(A&& o) noexcept : s(std::move(o.s)) {} A& operator=(A&&) = delete; ~A() { s = "dead"; } };
int main() {
    domain dom("d");
    mx<A> a("a"); a.register_in(dom);
    const mixin_info* q[] = {&a.info};
    auto& t = dom.get_type(q);
    object o1(t), o2(t);
    static_cast<A*>(o2.get(a.info.id))->s = "another value which does not fit in the small buffer";
    o1.move_matching_from(o2, true);
    REQ(static_cast<A*>(o1.get(a.info.id))->s == "another value which does not fit in the small buffer");
    return 0;
}
""")
S['usurp-first-not-redirected'] = dict(property='C26', needs='moving an object with mixins and going from a mixin to its object',
 breaks='mixins of a moved object still lead to the moved-out object when it has more than one', edits=[('code/dynamix/object.cpp', """    for (size_t i = 0; i < num_mixins(); ++i) {
        m_mixin_data[i].set_object(this);""", """    for (size_t i = num_mixins(); i-- > 1; ) {
        m_mixin_data[i].set_object(this);""")],
 demo=r"""
struct A { int i = 1; }; struct B { int i = 2; };
int main() {
    domain dom("d");
    mx<A> a("a"); mx<B> b("b"); a.register_in(dom); b.register_in(dom);
    const mixin_info* q[] = {&a.info, &b.info};
    object o1(dom.get_type(q));
    object o2(std::move(o1));
    REQ(object_of(static_cast<B*>(o2.get(b.info.id))) == &o2);
    REQ(object_of(static_cast<A*>(o2.get(a.info.id))) == &o2);
    REQ(o1.empty());
    return 0;
}
""")
S['rule-order-by-address'] = dict(property='C06', needs='rules with the same priority and different names',
 breaks='rules of equal priority are ordered by address and not by name', edits=[('code/dynamix/domain.cpp', """            auto name_cmp = dnmx_sv_cmp(a->name, b->name);
            if (name_cmp != 0) return name_cmp < 0;
            return a < b;""", """            if (a != b) return a < b;
            return dnmx_sv_cmp(a->name, b->name) < 0;""")],
 demo=r"""
static std::string g_log;
struct A{};
int main() {
    domain dom("d");
    mutation_rule_info r[2] = {};
    auto f = [](dnmx_type_mutation_handle, uintptr_t ud) -> error_return_t { g_log += char(ud); return 0; };
    r[0].name = dnmx_make_sv_lit("b"); r[1].name = dnmx_make_sv_lit("a"); r[0].apply = r[1].apply = f; r[0].user_data = 'b'; r[1].user_data = 'a';
    dom.add_mutation_rule(r[0]); dom.add_mutation_rule(r[1]);
    mx<A> a("a"); a.register_in(dom);
    const mixin_info* q[] = {&a.info}; dom.get_type(q);
    REQ(g_log.substr(0, 2) == "ab");
    return 0;
}
""")
S['sv-null-compare'] = dict(property='C51', needs='comparing a null view with an empty view which is not null',
 breaks='a null view and an empty view compare as different', edits=[('code/dnmx/bits/sv.h', 'if (!a.begin) return -!!blen;', 'if (!a.begin) return -!!b.begin;')],
 demo=r"""
int main() {
    dnmx_sv n = {}; dnmx_sv e = dnmx_make_sv_lit("");
    REQ(dnmx_sv_cmp(n, e) == 0); REQ(dnmx_sv_cmp(e, n) == 0); REQ(dnmx_sv_eq(n, e));
    REQ(dnmx_sv_cmp(n, dnmx_make_sv_lit("x")) < 0);
    return 0;
}
""")
S['multicast-moves-args'] = dict(property='C35', needs='a multicast message with an argument passed as an rvalue and at least two bidders',
 breaks='the first call takes the argument, the others see a moved-from one', edits=[('code/dynamix/msg/msg_caller.hpp', """            for (auto i = fe.top_bid_back; i != fe.begin; --i) {
                call(*i, obj, args...); // args are copied! return value is ignored""", """            for (auto i = fe.top_bid_back; i != fe.begin; --i) {
                call(*i, obj, std::forward<Args>(args)...); // args are copied! return value is ignored""")],
 demo=r"""
#include <dynamix/msg/msg_caller.hpp>
struct A{}; struct B{};
static int g_good = 0;
static int pf(const void*, std::string s) { if (s == "an argument which is too long for the small buffer") ++g_good; return 0; }
int main() {
    domain dom("d");
    common_feature_info f; f.name = dnmx_make_sv_lit("f"); f.allow_clashes = true;
    mx<A> a("a"); mx<B> b("b");
    util::mixin_info_data_builder<A>(nullptr, a).implements_by(f, *reinterpret_cast<char*>(&pf));
    util::mixin_info_data_builder<B>(nullptr, b).implements_by(f, *reinterpret_cast<char*>(&pf));
    a.register_in(dom); b.register_in(dom);
    const mixin_info* q[] = {&a.info, &b.info};
    object o(dom.get_type(q));
    msg_caller<object, int, std::string>::call_multicast(f, o, std::string("an argument which is too long for the small buffer"));
    REQ(g_good == 2);
    return 0;
}
""")
S['mean-reset'] = dict(property='C56', needs='using a mean again after reset',
 breaks='reset drops the number of the results and keeps the sum', edits=[('v1compat/code/dynamix/v1compat/combinators.hpp', """    void reset() {
        _sum = 0;
    }""", """    void reset() {
        _num_results = 0;
    }""")],
 demo=r"""
#include <dynamix/v1compat/combinators.hpp>
int main() {
    dynamix::v1compat::combinators::mean<int> m;
    m.set_num_results(2); m.add_result(3); m.add_result(5); REQ(m.result() == 4);
    m.reset();
    m.set_num_results(2); m.add_result(1); m.add_result(3); REQ(m.result() == 2);
    return 0;
}
""")
S['c-api-narrow-catch'] = dict(property='C48', needs='an exception other than bad_alloc inside of the C function',
 breaks='an exception leaves a C function', edits=[('code/dynamix/domain-c.cpp', """        self->add_mutation_rule(*info);
        return 0;
    }
    catch (std::exception&) {""", """        self->add_mutation_rule(*info);
        return 0;
    }
    catch (std::bad_alloc&) {""")],
 demo=r"""
#include <dnmx/domain.h>
int main() {
    domain dom("d");
    mutation_rule_info r = {}; r.name = dnmx_make_sv_lit("no function");
    bool left = false; error_return_t e = 0;
    try { e = dnmx_add_mutation_rule(dom.to_c_hanlde(), &r); } catch (...) { left = true; }
    REQ(!left); REQ(e != 0);
    return 0;
}
""")

# ---- second batch
S['type-class-outlives-lock'] = dict(property='C45', needs='looking up a type class while another thread is inside a registration',
 breaks='the table of type classes is grown without its lock', edits=[('code/dynamix/domain.cpp', """        auto reg = m_element_registry.unique_lock();

        // search in reverse order while also checking for name clashes
        const type_class** free_slot = nullptr;
        for (auto i = reg->sparse_type_classes.rbegin(); i != reg->sparse_type_classes.rend(); ++i) {""", """        auto& sparse = m_element_registry.unique_lock()->sparse_type_classes;

        // search in reverse order while also checking for name clashes
        const type_class** free_slot = nullptr;
        for (auto i = sparse.rbegin(); i != sparse.rend(); ++i) {"""), ('code/dynamix/domain.cpp', "free_slot = &reg->sparse_type_classes.emplace_back();", "free_slot = &sparse.emplace_back();")],
 demo=r"""
#include <memory_resource>
#include <thread>
#include <atomic>
#include <chrono>
static std::atomic<bool> armed{false}, inside{false}, looked{false}, overlapped{false};
struct slow : public std::pmr::memory_resource {
    void* do_allocate(size_t n, size_t) override {
        if (armed.exchange(false)) {
            inside = true;
            for (int i = 0; i < 50 && !looked; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10));
            if (looked) overlapped = true;
        }
        return std::malloc(n ? n : 1);
    }
    void do_deallocate(void* p, size_t, size_t) override { std::free(p); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
static bool yes(dnmx_type_handle) noexcept { return true; }
int main() {
    static slow mr;
    domain dom("d", {}, 0, nullptr, allocator(&mr));
    static type_class c; c.name = dnmx_make_sv_lit("c"); c.matches = yes;
    armed = true;
    std::thread w([&]() { dom.register_type_class(c); });
    while (!inside) std::this_thread::yield();
    auto f = dom.get_type_class("c"); looked = true; // has to wait for the registration
    w.join();
    REQ(!overlapped); REQ(f == &c);
    return 0;
}
""")
S['unregister-locks-inverted'] = dict(property='C46', needs='unregistering a mixin while another thread applies a rule which looks up mixins',
 breaks='the two threads wait for each other for ever', edits=[('code/dynamix/domain.cpp', """            auto reg = m_element_registry.shared_lock();
            auto& sparse_mixins = reg->sparse_mixins;
            if (info.iid() >= sparse_mixins.size() || sparse_mixins[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);
        }

        {
            auto treg""", """        }

        auto reg = m_element_registry.unique_lock();
        auto& sparse_mixins = reg->sparse_mixins;
        if (info.iid() >= sparse_mixins.size() || sparse_mixins[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);

        {
            auto treg"""), ('code/dynamix/domain.cpp', """        auto reg = m_element_registry.unique_lock();
        auto& sparse_mixins = reg->sparse_mixins;

        // mixin is not our own?
        if (info.iid() >= sparse_mixins.size() || sparse_mixins[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);
        sparse_mixins""", """        sparse_mixins""")],
 demo=r"""
#include <thread>
#include <atomic>
#include <chrono>
#include <unistd.h>
struct A{}; struct B{};
static std::atomic<bool> in_rule{false};
static std::atomic<int> once{0};
static error_return_t look(dnmx_type_mutation_handle m, uintptr_t) {
    if (once++ == 0) { in_rule = true; std::this_thread::sleep_for(std::chrono::milliseconds(400)); }
    type_mutation::from_c_handle(m)->dom.get_mixin_info("a");
    return 0;
}
int main() {
    alarm(15);
    domain dom("d");
    mx<A> a("a"); mx<B> b("b"); a.register_in(dom); b.register_in(dom);
    mutation_rule_info r = {}; r.name = dnmx_make_sv_lit("looks up"); r.apply = look;
    dom.add_mutation_rule(r);
    std::thread w([&]() { const mixin_info* q[] = {&a.info}; dom.get_type(q); });
    while (!in_rule) std::this_thread::yield();
    b.unregister_from(dom);
    w.join();
    REQ(!dom.get_mixin_info("b"));
    return 0;
}
""")
S['c-update-index-swapped'] = dict(property='C49', needs='dnmx_mutate_to with an update function, a common mixin at another index in the new type',
 breaks='the update function gets the target index as the source index', edits=[('code/dynamix/mutate-c.cpp', '&args.source_type, args.target_index, args.source_index, o->user_data', '&args.source_type, args.target_index, args.target_index, o->user_data')],
 demo=r"""
#include <dnmx/mutate.h>
struct A{}; struct B{};
static uint32_t g_src = 77, g_tgt = 77;
static dnmx_error_return_t upd(dnmx_mutate_func_args a) { g_src = a.source_index; g_tgt = a.target_index; return 0; }
int main() {
    domain dom("d");
    mx<A> a("a"); mx<B> b("b"); a.register_in(dom); b.register_in(dom);
    const mixin_info* q1[] = {&a.info, &b.info}; const mixin_info* q2[] = {&b.info};
    object o(dom.get_type(q1));
    dnmx_mutate_to_override ov = {}; ov.mixin = &b.info; ov.update_common = upd;
    REQ(dnmx_mutate_to(o.to_c_hanlde(), &dom.get_type(q2), &ov, 1) == 0);
    REQ(g_tgt == 0); REQ(g_src == 1);
    return 0;
}
""")

S['count-before-allocation'] = dict(property='C19', needs='an allocation of the object buffer which fails',
 breaks='the failed allocation is counted as an object', edits=[('code/dynamix/type.cpp', """    auto ret = alloc.allocate_bytes(object_buffer_size, object_buffer_alignment);
    ++m_num_objects;
    return""", """    ++m_num_objects;
    auto ret = alloc.allocate_bytes(object_buffer_size, object_buffer_alignment);
    return""")],
 demo=r"""
#include <memory_resource>
#include <new>
struct A{};
struct none : public std::pmr::memory_resource {
    void* do_allocate(size_t, size_t) override { throw std::bad_alloc(); }
    void do_deallocate(void*, size_t, size_t) override {}
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
int main() {
    static none mr;
    domain dom("d"); mx<A> a("a"); a.register_in(dom);
    const mixin_info* q[] = {&a.info};
    auto& t = dom.get_type(q);
    bool thrown = false;
    try { object o(t, allocator(&mr)); } catch (std::bad_alloc&) { thrown = true; }
    REQ(thrown); REQ(t.num_objects() == 0);
    return 0;
}
""")
S['sealed-copy-from-empty'] = dict(property='C24', needs='a sealed object, copying from an empty one',
 breaks='the sealed object loses its mixins', edits=[('code/dynamix/object.cpp', """        if (m_sealed) throw_exception::obj_mut_sealed_object(get_type(), "copy_from");
        clear_mixin_data();""", """        if (m_sealed && !get_type().copy_assignable()) throw_exception::obj_mut_sealed_object(get_type(), "copy_from");
        clear_mixin_data();""")],
 demo=r"""
struct A { int x = 5; };
int main() {
    domain dom("d"); mx<A> a("a"); a.register_in(dom);
    const mixin_info* q[] = {&a.info};
    object e(dom); object o(dom.get_type(q), {}, true);
    bool thrown = false;
    try { o.copy_from(e); } catch (std::exception&) { thrown = true; }
    REQ(thrown); REQ(o.has(a.info)); REQ(o.num_mixins() == 1);
    return 0;
}
""")
S['external-without-object'] = dict(property='C25', needs='an external mixin with an allocator of its own',
 breaks='the way from such a mixin to its object is not set', edits=[('code/dynamix/object_mutation.cpp', """                    data.buf = allocate_external_mixin(info);
                }

                data.mixin = data.buf + info.obj_buf_alignment_and_mixin_offset;
                data.set_object(&m_object);""", """                    data.buf = allocate_external_mixin(info);
                }

                data.mixin = data.buf + info.obj_buf_alignment_and_mixin_offset;
                if (!info.allocator) data.set_object(&m_object);""")],
 demo=r"""
struct A { int x = 5; };
struct al : public mixin_allocator {
    byte_t* alloc_mixin_buf(const mixin_info& i) override { return static_cast<byte_t*>(std::calloc(1, i.obj_buf_size)); }
    void dealloc_mixin_buf(byte_t* p, const mixin_info&) noexcept override { std::free(p); }
};
int main() {
    al alloc;
    domain dom("d"); mx<A> a("a"); a.info.allocator = alloc.to_c_hanlde(); a.register_in(dom);
    const mixin_info* q[] = {&a.info};
    object o(dom.get_type(q));
    REQ(object_of(static_cast<A*>(o.get(a.info.id))) == &o);
    return 0;
}
""")
S['copy-update-own-index'] = dict(property='C27', needs='copying between objects in which a common mixin has different indices',
 breaks='the mixin is assigned from another one of the source', edits=[('code/dynamix/object.cpp', """        [&](update_common_args args) {
            auto source = o.m_mixin_data[args.target_index].mixin;""", """        [&](update_common_args args) {
            auto source = o.m_mixin_data[args.source_index < o.num_mixins() ? args.source_index : args.target_index].mixin;""")],
 demo=r"""
struct A { int x = 1; }; struct B { int x = 2; };
int main() {
    domain dom("d"); mx<A> a("a"); mx<B> b("b"); a.register_in(dom); b.register_in(dom);
    const mixin_info* q1[] = {&b.info}; const mixin_info* q2[] = {&a.info, &b.info};
    object o(dom.get_type(q1)); object s(dom.get_type(q2));
    static_cast<A*>(s.get(a.info.id))->x = 10; static_cast<B*>(s.get(b.info.id))->x = 20;
    o.copy_from(s);
    REQ(static_cast<A*>(o.get(a.info.id))->x == 10); REQ(static_cast<B*>(o.get(b.info.id))->x == 20);
    return 0;
}
""")
S['equals-less-is-equal'] = dict(property='C29', needs='a mixin with only a compare function, and a first object which is less',
 breaks='different objects are equal', edits=[('code/dynamix/object.cpp', 'if (info.compare(&info, own_mixin, other_mixin)) return false;', 'if (info.compare(&info, own_mixin, other_mixin) > 0) return false;')],
 demo=r"""
struct A { int x = 1; };
int main() {
    domain dom("d"); mx<A> a("a"); a.info.equals = nullptr;
    a.info.compare = [](const mixin_info*, const void* l, const void* r) noexcept -> int { return static_cast<const A*>(l)->x - static_cast<const A*>(r)->x; };
    a.register_in(dom);
    const mixin_info* q[] = {&a.info};
    object o(dom.get_type(q)), p(dom.get_type(q));
    REQ(o.equals(p));
    static_cast<A*>(p.get(a.info.id))->x = 2;
    REQ(!o.equals(p)); REQ(!p.equals(o));
    return 0;
}
""")
S['positive-error-lost'] = dict(property='C32', needs='a copy assignment which returns a positive error',
 breaks='the error is not seen by the caller', edits=[('code/dynamix/object.cpp', """            auto err = args.info.copy_asgn(&args.info, args.mixin_buf, source);
            if (err) throw""", """            auto err = args.info.copy_asgn(&args.info, args.mixin_buf, source);
            if (err < 0) throw""")],
 demo=r"""
struct A { int x = 1; };
int main() {
    domain dom("d"); mx<A> a("a");
    a.info.copy_asgn = [](const mixin_info*, void*, const void*) -> dnmx_error_return_t { return 7; };
    a.register_in(dom);
    const mixin_info* q[] = {&a.info};
    object o(dom.get_type(q)), p(dom.get_type(q));
    bool thrown = false;
    try { o.copy_from(p); } catch (std::exception&) { thrown = true; }
    REQ(thrown);
    return 0;
}
""")
S['feature-names-by-mixin-setting'] = dict(property='C02', needs='a domain which allows duplicate mixin names and not duplicate feature names, features registered along with mixins',
 breaks='two features get the same name', edits=[('code/dynamix/domain.cpp', '*const_cast<feature_info*>(f.info), reg->sparse_features, !m_domain.m_settings.allow_duplicate_feature_names', '*const_cast<feature_info*>(f.info), reg->sparse_features, !m_domain.m_settings.allow_duplicate_mixin_names')],
 demo=r"""
struct A{}; struct B{};
int main() {
    domain dom("d", domain_settings_builder().allow_duplicate_mixin_names());
    common_feature_info f, g; f.name = g.name = dnmx_make_sv_lit("f"); int pl = 0;
    mx<A> a("a"); mx<B> b("b");
    util::mixin_info_data_builder<A>(nullptr, a).implements_by(f, pl); util::mixin_info_data_builder<B>(nullptr, b).implements_by(g, pl);
    a.register_in(dom);
    bool thrown = false;
    try { b.register_in(dom); } catch (std::exception&) { thrown = true; }
    REQ(thrown); REQ(dom.get_feature_info("f") == &f);
    return 0;
}
""")
S['unregister-by-name'] = dict(property='C03', needs='unregistering a feature of another domain which has the same id and name',
 breaks="a domain unregisters another domain's feature", edits=[('code/dynamix/domain.cpp', """        if (info.iid() >= sparse.size() || sparse[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);

        sparse""", """        if (info.iid() >= sparse.size() || !sparse[info.iid()] || sparse[info.iid()]->name != info.name) throw_exception::unreg_foreign(m_domain, info);

        sparse""")],
 demo=r"""
int main() {
    domain d1("1"), d2("2");
    common_feature_info f, g; f.name = g.name = dnmx_make_sv_lit("f");
    d1.register_feature(f); d2.register_feature(g);
    bool thrown = false;
    try { d1.unregister_feature(g); } catch (std::exception&) { thrown = true; }
    REQ(thrown); REQ(d1.get_feature_info("f") == &f); REQ(d2.get_feature_info("f") == &g); REQ(g.iid() == 0);
    return 0;
}
""")
S['external-freed-with-own-alignment'] = dict(property='C23', needs='an external mixin whose own alignment is less than that of its buffer',
 breaks='the buffer is given back with another alignment than it was asked for', edits=[('code/dynamix/object_mutation.cpp', """    m_object.m_allocator.deallocate_bytes(
        ptr,
        info.obj_buf_size,
        info.obj_buf_alignment_and_mixin_offset
    );""", """    m_object.m_allocator.deallocate_bytes(
        ptr,
        info.obj_buf_size,
        info.alignment
    );""")],
 demo=r"""
#include <memory_resource>
struct A { char c = 1; };
static int g_bad = 0;
struct rec : public std::pmr::memory_resource {
    std::map<void*, std::pair<size_t, size_t>> live;
    void* do_allocate(size_t n, size_t a) override { auto p = std::malloc(n ? n : 1); live[p] = {n, a}; return p; }
    void do_deallocate(void* p, size_t n, size_t a) override { if (live[p] != std::make_pair(n, a)) ++g_bad; live.erase(p); std::free(p); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
int main() {
    static rec mr;
    { domain dom("d"); mx<A> a("a"); a.info.force_external = true; a.register_in(dom);
      const mixin_info* q[] = {&a.info};
      object o(dom.get_type(q), allocator(&mr)); }
    REQ(mr.live.empty()); REQ(g_bad == 0);
    return 0;
}
""")
S['to-back-swaps'] = dict(property='C42', needs='a type with at least three mixins, moving one which is neither last nor next to last',
 breaks='the last mixin takes the place of the one moved to the back', edits=[('code/dynamix/type_mutation.cpp', """    auto* val = *i;
    vec.erase(i);
    vec.push_back(val);""", """    std::swap(*i, vec.back());""")],
 demo=r"""
struct A{}; struct B{}; struct C{};
int main() {
    domain dom("d"); mx<A> a("a"); mx<B> b("b"); mx<C> c("c"); a.register_in(dom); b.register_in(dom); c.register_in(dom);
    type_mutation m(dom); m.add(a.info); m.add(b.info); m.add(c.info);
    m.to_back(b.info);
    REQ(m.mixins[0] == &a.info && m.mixins[1] == &c.info && m.mixins[2] == &b.info);
    m.to_back("a");
    REQ(m.mixins[0] == &c.info && m.mixins[1] == &b.info && m.mixins[2] == &a.info);
    return 0;
}
""")
S['sparse-indices-half-cleared'] = dict(property='C10', needs='a type with a gap of ids between its mixins, in memory which is not zero',
 breaks='the type seems to have mixins which it does not', edits=[('code/dynamix/domain.cpp', 'std::fill(sparse_mixin_indices.begin(), sparse_mixin_indices.end(), invalid_mixin_index);', 'std::fill_n(sparse_mixin_indices.begin(), mixins.size(), invalid_mixin_index);')],
 demo=r"""
#include <memory_resource>
#include <cstring>
struct A{}; struct B{}; struct C{};
struct dirty : public std::pmr::memory_resource {
    void* do_allocate(size_t n, size_t) override { auto p = std::malloc(n ? n : 1); std::memset(p, 0, n); return p; }
    void do_deallocate(void* p, size_t, size_t) override { std::free(p); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
int main() {
    static dirty mr;
    domain dom("d", {}, 0, nullptr, allocator(&mr));
    mx<A> a("a"); mx<B> b("b"); mx<C> c("c"); a.register_in(dom); b.register_in(dom); c.register_in(dom);
    const mixin_info* q[] = {&c.info};
    auto& t = dom.get_type(q);
    REQ(t.has(c.info)); REQ(!t.has(a.info)); REQ(!t.has(b.info)); REQ(t.index_of(b.info.id) == invalid_mixin_index);
    return 0;
}
""")
S['dependent-added-twice'] = dict(property='C44', needs='a dependent which is already in the type',
 breaks='the dependent is added a second time', edits=[('code/dynamix/common_mutation_rules.hpp', """        mut->add_if_lacking<Dependent>();""", """        if (mut->mixins.empty() || mut->mixins.back() != &g::get_mixin_info<Dependent>()) mut->add(g::get_mixin_info<Dependent>());""")],
 demo=r"""
#include <dynamix/common_mutation_rules.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/define_mixin.hpp>
DYNAMIX_DECLARE_MIXIN(struct A); DYNAMIX_DECLARE_MIXIN(struct B); DYNAMIX_DECLARE_MIXIN(struct C);
#include <dynamix/declare_domain.hpp>
#include <dynamix/define_domain.hpp>
struct tag;
DYNAMIX_DECLARE_DOMAIN(tag);
DYNAMIX_DEFINE_DOMAIN(tag);
struct A{}; struct B{}; struct C{};
DYNAMIX_DEFINE_MIXIN(tag, A); DYNAMIX_DEFINE_MIXIN(tag, B); DYNAMIX_DEFINE_MIXIN(tag, C);
int main() {
    auto& dom = g::get_domain<tag>();
    auto r = util::builder_literals::also_adds<B>::get_rule_for<A>();
    type_mutation m(dom);
    m.add(g::get_mixin_info<A>()); m.add(g::get_mixin_info<B>()); m.add(g::get_mixin_info<C>());
    REQ(r.apply(m.to_c_hanlde(), 0) == 0);
    REQ(m.mixins.size() == 3);
    return 0;
}
""")
S['rule-names-move'] = dict(property='C38', needs='at least two rules with short names added to one mixin',
 breaks='the names of the rules added first refer to memory which was given back', edits=[('code/dynamix/mixin_info_data.hpp', 'compat::pmr::deque<compat::pmr::string> mutation_rule_info_names_storage;', 'compat::pmr::vector<compat::pmr::string> mutation_rule_info_names_storage;')],
 demo=r'''
#include <memory_resource>
#include <cstring>
struct poison : std::pmr::memory_resource {
    void* do_allocate(size_t n, size_t a) override { return std::pmr::new_delete_resource()->allocate(n, a); }
    void do_deallocate(void* p, size_t n, size_t) override { std::memset(p, 'X', n); /* kept: the check below may look at it */ }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
struct A{};
static error_return_t nop(dnmx_type_mutation_handle, uintptr_t) { return 0; }
int main() {
    poison p;
    util::mixin_info_data data{allocator(&p)};
    util::mixin_info_data_builder<A> b(data, std::string_view("a"));
    b.adds_mutation_rule(compat::pmr::string("one", allocator(&p)), nop);
    b.adds_mutation_rule(compat::pmr::string("two", allocator(&p)), nop);
    b.adds_mutation_rule(compat::pmr::string("three", allocator(&p)), nop);
    REQ(data.mutation_rule_infos.size() == 3);
    REQ(data.mutation_rule_infos[0]->name.to_std() == "one");
    REQ(data.mutation_rule_infos[1]->name.to_std() == "two");
    REQ(data.mutation_rule_infos[2]->name.to_std() == "three");
    return 0;
}
''')
S['compare-by-name'] = dict(property='C16', needs='a domain which allows duplicate mixin names, two types which differ in mixins with the same name',
 breaks='comparing the two types says less in both directions', edits=[('code/dynamix/type.cpp', 'if (*m != *o) {', 'if ((*m)->name != (*o)->name) {')],
 demo=r'''
struct A{}; struct B{};
int main() {
    domain dom("d", domain_settings_builder().allow_duplicate_mixin_names());
    mx<A> a("same"); mx<B> b("same"); a.register_in(dom); b.register_in(dom);
    const mixin_info* qa[] = {&a.info}; const mixin_info* qb[] = {&b.info};
    auto& ta = dom.get_type(qa); auto& tb = dom.get_type(qb);
    REQ(&ta != &tb);
    int x = ta.compare(tb), y = tb.compare(ta);
    REQ(x != 0 && y != 0);
    REQ((x < 0) != (y < 0));
    return 0;
}
''')
S['implements-stops-at-gap'] = dict(property='C15', needs='a type which does not implement the feature with the least id, asked by name',
 breaks='features after the first one which is not implemented are not found by name', edits=[('code/dynamix/type.cpp', '''        if (!e) continue;
        if (e.begin->data->info->name == name) return true;''', '''        if (!e) break;
        if (e.begin->data->info->name == name) return true;''')],
 demo=r'''
struct A{};
static void f() {}
int main() {
    domain dom("d");
    common_feature_info f0(dnmx_make_sv_lit("f0")), f1(dnmx_make_sv_lit("f1")); dom.register_feature(f0); dom.register_feature(f1);
    util::mixin_info_data d; util::mixin_info_data_builder<A> b(d, std::string_view("a"));
    int pl = 5; b.implements_by(f1, pl); (void)f;
    d.register_in(dom);
    const mixin_info* q[] = {&d.info};
    auto& t = dom.get_type(q);
    REQ(t.implements_strong(f1.id));
    REQ(!t.implements_strong("f0"));
    REQ(t.implements_strong("f1"));
    return 0;
}
''')
S['duplicates-adjacent-only'] = dict(property='C08', needs='a mixin given twice with another one between',
 breaks='a type with the same mixin twice is made', edits=[('code/dynamix/domain.cpp', '''            for (size_t j = i + 1; j < mixins.size(); ++j) {
                if (mixins[i] == mixins[j]) throw''', '''            if (const size_t j = i + 1; j < mixins.size()) {
                if (mixins[i] == mixins[j]) throw''')],
 demo=r'''
struct A{}; struct B{};
int main() {
    domain dom("d"); mx<A> a("a"); mx<B> b("b"); a.register_in(dom); b.register_in(dom);
    const mixin_info* q2[] = {&a.info, &a.info, &b.info};
    bool t2 = false; try { dom.get_type(q2); } catch (const dynamix::exception&) { t2 = true; }
    REQ(t2);
    const mixin_info* q[] = {&a.info, &b.info, &a.info};
    bool t = false; try { dom.get_type(q); } catch (const dynamix::exception&) { t = true; }
    REQ(t);
    return 0;
}
''')
S['failed-apply-again'] = dict(property='C43', needs='a gradual mutation which is applied by hand, fails, and goes out of scope after the error was handled',
 breaks='the failed mutation is applied a second time by the destructor', edits=[('code/dynamix/mutate.hpp', '''        m_applied = true;
        auto& type = m_obj.get_domain().get_type(std::move(m_type_mut));
        m_obj.reset_type(type);
''', '''        auto& type = m_obj.get_domain().get_type(std::move(m_type_mut));
        m_obj.reset_type(type);
        m_applied = true;
''')],
 demo=r'''
struct A { static int n; A() { if (n++ == 0) throw 5; } }; int A::n = 0;
int main() {
    domain dom("d"); mx<A> a("a"); a.register_in(dom);
    object o(dom);
    {
        gradual_mutation m(o); m.add(a.info);
        bool t = false; try { m.apply(); } catch (int) { t = true; }
        REQ(t); REQ(o.empty());
    }
    REQ(A::n == 1); REQ(o.empty());
    return 0;
}
''')
S['next-top-is-last'] = dict(property='C37', needs='a next set of bidders with at least two mixins',
 breaks='the last one of the next set is called and not its top', edits=[('code/dynamix/msg/next_impl.hpp', 'return traits::caller::call(*next.begin(), *obj, std::forward<Args>(args)...);', 'return traits::caller::call(*(next.end() - 1), *obj, std::forward<Args>(args)...);')],
 demo=r'''
#include <dynamix/declare_domain.hpp>
#include <dynamix/define_domain.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/define_mixin.hpp>
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/msg/define_msg.hpp>
#include <dynamix/msg/next_impl.hpp>
#include <dynamix/msg/func_traits.hpp>
#include <dynamix/mutate.hpp>
DYNAMIX_DECLARE_DOMAIN(dd); DYNAMIX_DEFINE_DOMAIN(dd);
DYNAMIX_MAKE_FUNC_TRAITS(Ask);
DYNAMIX_DECLARE_MSG(ask_msg, Ask, int, (const object&));
DYNAMIX_DEFINE_MSG(ask_msg, unicast, Ask, int, (const object&));
DYNAMIX_DECLARE_MIXIN(class A); DYNAMIX_DECLARE_MIXIN(class B); DYNAMIX_DECLARE_MIXIN(class C);
class A { public: int Ask() const { return dynamix::call_next_bidder_top<ask_msg>(this); } };
class B { public: int Ask() const { return 2; } };
class C { public: int Ask() const { return 3; } };
DYNAMIX_DEFINE_MIXIN(dd, A).implements<ask_msg>(feature_bid(1));
DYNAMIX_DEFINE_MIXIN(dd, B).implements<ask_msg>(order_priority(2));
DYNAMIX_DEFINE_MIXIN(dd, C).implements<ask_msg>(order_priority(1));
int main() {
    object o(g::get_domain<dd>());
    mutate(o, add<A>(), add<B>(), add<C>());
    int all = o.get_type().ftable_at(ask_msg::info.id).end - o.get_type().ftable_at(ask_msg::info.id).begin;
    REQ(all == 3);
    REQ(Ask(o) == 3);
    return 0;
}
''')
S['exclusive-left-reversed'] = dict(property='C57', needs='a type with at least two mixins and none of the exclusive ones',
 breaks='the mixins of types which the rule does not concern are reversed', v1=True, edits=[('v1compat/code/dynamix/v1compat/mutation_rules.cpp', '''        return false; // keep the first
    });
    std::reverse''', '''        return false; // keep the first
    });
    if (!found) return; // nothing was changed
    std::reverse''')],
 demo=r'''
#include <dynamix/v1compat/common_mutation_rules.hpp>
struct A{}; struct B{}; struct C{};
struct rule : v1compat::mutually_exclusive_mixins { void put(const mixin_info* i) { infos.push_back(i); } };
int main() {
    domain dom("d"); mx<A> a("a"); mx<B> b("b"); mx<C> c("c"); a.register_in(dom); b.register_in(dom); c.register_in(dom);
    rule r; r.put(&c.info);
    type_mutation m(dom); m.add(a.info); m.add(b.info);
    static_cast<v1compat::mutation_rule&>(r).apply_to(m);
    REQ(m.mixins.size() == 2 && m.mixins[0] == &a.info && m.mixins[1] == &b.info);
    return 0;
}
''')
S['equality-needs-equals'] = dict(property='C63', needs='a type with a mixin which has only a compare function',
 breaks='objects which can be tested for equality are said not to be', edits=[('code/dynamix/type.cpp', 'return m->equals || m->compare; }', 'return m->equals != nullptr; }')],
 demo=r'''
struct A{};
static int cmp(const mixin_info*, const void*, const void*) noexcept { return 0; }
int main() {
    domain dom("d"); mx<A> a("a"); a.info.compare = cmp; a.register_in(dom);
    const mixin_info* q[] = {&a.info};
    REQ(dom.get_type(q).equality_comparable()); REQ(dom.get_type(q).comparable());
    return 0;
}
''')
S['no-num-results-by-default'] = dict(property='C36', needs='a multicast with a combinator on an object whose type does not implement the message, which has a default',
 breaks='the combinator is not told that there is one result', edits=[('code/dynamix/msg/msg_caller.hpp', '''            combinator.set_num_results(1);
''', '')],
 demo=r'''
#include <dynamix/msg/msg_caller.hpp>
static int dflt(const object&) { return 7; }
struct comb { size_t n = 0; std::vector<int> r; void set_num_results(size_t k) { n = k; } bool add_result(int i) { r.push_back(i); return true; } };
int main() {
    domain dom("d");
    common_feature_info f(dnmx_make_sv_lit("f")); f.default_payload = reinterpret_cast<feature_payload>(&dflt); dom.register_feature(f);
    const object o(dom);
    comb c; msg_caller<const object, int>::call_with_v1_combinator(f, c, o);
    REQ(c.r.size() == 1 && c.r[0] == 7);
    REQ(c.n == 1);
    return 0;
}
''')
S['tuple-elements-copied'] = dict(property='C55', needs='an element of the tuple which is an rvalue',
 breaks='elements are copied and not moved into the object', edits=[('code/dynamix/bits/make_from_tuple.hpp', '''    static_assert(std::is_constructible_v<T, decltype(std::get<I>(std::declval<Tuple>()))...>);
    new (ptr) T(std::get<I>(std::forward<Tuple>(tup))...);''', '''    static_assert(std::is_constructible_v<T, decltype(std::get<I>(std::declval<Tuple>()))...>);
    if constexpr (std::is_constructible_v<T, decltype(std::get<I>(tup))...>) new (ptr) T(std::get<I>(tup)...);
    else new (ptr) T(std::get<I>(std::forward<Tuple>(tup))...);''')],
 demo=r'''
#include <dynamix/bits/make_from_tuple.hpp>
struct T { int how; T(const std::string&) : how(1) {} T(std::string&&) : how(2) {} };
int main() {
    alignas(T) char buf[sizeof(T)];
    std::tuple<std::string> t("x");
    impl::make_from_tuple<T>(buf, t);
    REQ(reinterpret_cast<T*>(buf)->how == 1);
    impl::make_from_tuple<T>(buf, std::move(t));
    REQ(reinterpret_cast<T*>(buf)->how == 2);
    return 0;
}
''')
S['common-eq-stops-at-zero'] = dict(property='C53', needs='mixins which differ only after a zero byte',
 breaks='bytes after the first zero are not compared', edits=[('code/dnmx/mixin_common_funcs.c', 'return memcmp(a, b, info->size) == 0;', 'return strncmp((const char*)a, (const char*)b, info->size) == 0;')],
 demo=r'''
#include <dnmx/mixin_common_funcs.h>
#include <cstring>
int main() {
    common_mixin_info i; i.size = 8;
    char a[8] = {1, 0, 2, 3, 4, 5, 6, 7}, b[8];
    std::memcpy(b, a, 8);
    REQ(dnmx_mixin_common_eq_func(&i, a, b));
    b[6] = 9;
    REQ(!dnmx_mixin_common_eq_func(&i, a, b));
    return 0;
}
''')
S['instance-keeps-rules'] = dict(property='C39', needs='a statically defined mixin with a mutation rule, whose static instance is destroyed',
 breaks='the rules stay in the domain after the data they are in is gone', edits=[('code/dynamix/define_mixin.hpp', 'data.unregister_from(*domain::from_c_handle(dom));', 'domain::from_c_handle(dom)->unregister_mixin(data.info);')],
 demo=r'''
#include <dynamix/declare_domain.hpp>
#include <dynamix/define_domain.hpp>
#include <dynamix/define_mixin.hpp>
DYNAMIX_DECLARE_DOMAIN(dd); DYNAMIX_DEFINE_DOMAIN(dd);
struct A{};
static error_return_t nop(dnmx_type_mutation_handle, uintptr_t) { return 0; }
int main() {
    auto& dom = g::get_domain<dd>();
    using I = dynamix::impl::mixin_info_data_instance<dd, A>;
    {
        util::mixin_info_data_builder<A> b(I::the_data_safe(), std::string_view("a"));
        b.adds_mutation_rule(nop);
        I inst(b);
        REQ(dom.num_mutation_rules() == 1);
        REQ(dom.get_mixin_info("a"));
    }
    REQ(!dom.get_mixin_info("a"));
    REQ(dom.num_mutation_rules() == 0);
    return 0;
}
''')
S['gradual-dtor-terminates'] = dict(property='C61', needs='a gradual mutation which fails when it is applied at the end of its scope',
 breaks='the error terminates the program', edits=[('code/dynamix/mutate.hpp', '~gradual_mutation() noexcept(false) {', '~gradual_mutation() {')],
 demo=r'''
struct A { A() { throw 5; } };
int main() {
    domain dom("d"); mx<A> a("a"); a.register_in(dom);
    object o(dom);
    bool t = false;
    try { mutate(o).add(a.info); } catch (int) { t = true; }
    REQ(t); REQ(o.empty());
    return 0;
}
''')
S['type-freed-with-other-alignment'] = dict(property='C12', needs='a type which is dropped, a resource which looks at the alignment',
 breaks='the memory of a type is given back with another alignment than it was asked for', edits=[('code/dynamix/domain.cpp', 'deallocate_bytes(vptr, ptr->buf_size, alignof(type));', 'deallocate_bytes(vptr, ptr->buf_size);')],
 demo=r'''
#include <memory_resource>
struct res : std::pmr::memory_resource {
    std::map<void*, std::pair<size_t, size_t>> live; int bad = 0;
    void* do_allocate(size_t n, size_t a) override { void* p = std::pmr::new_delete_resource()->allocate(n, a); live[p] = {n, a}; return p; }
    void do_deallocate(void* p, size_t n, size_t a) override { auto i = live.find(p); if (i == live.end() || i->second != std::make_pair(n, a)) ++bad; std::pmr::new_delete_resource()->deallocate(p, i->second.first, i->second.second); live.erase(i); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
struct A{};
int main() {
    res r;
    {
        domain dom("d", {}, 0, nullptr, allocator(&r)); mx<A> a("a"); a.register_in(dom);
        const mixin_info* q[] = {&a.info}; dom.get_type(q);
        dom.garbage_collect_types();
        REQ(dom.num_types() == 0);
    }
    REQ(r.bad == 0); REQ(r.live.empty());
    return 0;
}
''')
S['canonical-rule-not-last'] = dict(property='C59', needs='a domain with canonical types and a rule of a very high priority which adds a mixin',
 breaks='rules of high priority come after the canonical order is made, so types are not canonical', edits=[('code/dynamix/domain.cpp', 'std::numeric_limits<int32_t>::max()', 'std::numeric_limits<int16_t>::max()')],
 demo=r'''
struct A{}; struct B{};
static const mixin_info* g_add;
int main() {
    domain dom("d", domain_settings_builder().canonicalize_types());
    mx<A> a("a"); mx<B> b("b"); a.register_in(dom); b.register_in(dom);
    mutation_rule_info r = {}; r.name = dnmx_make_sv_lit("add a"); r.order_priority = 100000; g_add = &a.info;
    r.apply = [](dnmx_type_mutation_handle m, uintptr_t) -> error_return_t { auto t = type_mutation::from_c_handle(m); t->remove(*g_add); t->add(*g_add); return 0; };
    dom.add_mutation_rule(r);
    const mixin_info* q[] = {&b.info, &a.info};
    auto& t = dom.get_type(q);
    REQ(t.num_mixins() == 2);
    REQ(t.mixins[0] == &a.info && t.mixins[1] == &b.info);
    return 0;
}
''')
S['upto-beyond-end'] = dict(property='C31', needs='a piecewise mutation told to go up to an index beyond the end',
 breaks='the mutation never ends', edits=[('code/dynamix/object_mutation.hpp', 'if (upto_index > m_target_type.num_mixins()) upto_index', 'if (upto_index == invalid_mixin_index) upto_index')],
 demo=r"""
#include <unistd.h>
struct A{}; struct B{};
int main() {
    alarm(10);
    domain dom("d"); mx<A> a("a"); mx<B> b("b"); a.register_in(dom); b.register_in(dom);
    const mixin_info* q[] = {&a.info, &b.info};
    object o(dom); int n = 0;
    {
        object_mutation m(o, dom.get_type(q));
        m.update_each_mixin([&](init_new_args x) { ++n; util::default_init_new_func(x); }, util::noop_udpate_common_func, 7);
        REQ(m.complete());
    }
    REQ(n == 2); REQ(o.num_mixins() == 2);
    return 0;
}
""")

S['throwing-move-accepted'] = dict(property='C40', needs='a class with a move constructor which may throw',
 breaks='a class whose move may throw gets a move initializer which terminates', edits=[('code/dynamix/mixin_info_util.hpp', 'else if constexpr (std::is_nothrow_move_constructible_v<Mixin>) info.move_init', 'else if constexpr (std::is_move_constructible_v<Mixin>) info.move_init')],
 demo=r'''
struct A { A() = default; A(A&&) noexcept(false) {} };
struct B { B() = default; B(B&&) noexcept {} };
struct C { C() = default; C(C&&) noexcept(false) {} C(const C&) {} };
int main() {
    mx<A> a("a"); mx<B> b("b"); mx<C> c("c");
    REQ(b.info.move_init); REQ(!c.info.move_init); REQ(!a.info.move_init);
    return 0;
}
''')
