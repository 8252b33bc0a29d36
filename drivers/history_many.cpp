// populations beyond one or two: what holds for a few must hold for more
#include <dynamix/domain.hpp>
#include <dynamix/domain_settings_builder.hpp>
#include <dynamix/domain_traverse.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/feature_info.hpp>
#include <dynamix/feature_for_mixin.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <dynamix/type_class.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/mutate_to.hpp>
using namespace dynamix;
namespace {
using sp = itlib::span<const mixin_info* const>;
#define L(x) dnmx_make_sv_lit(x)
error_return_t h_init(const mixin_info*, void*) { return 0; }
void h_move(const mixin_info*, void*, void*) noexcept {}
void h_destroy(const mixin_info*, void*) noexcept {}
struct hm : mixin_info {
    hm(dnmx_sv n, uint32_t s = 8, uint32_t a = 8, int32_t prio = 0) : mixin_info{} {
        name = n; id = invalid_mixin_id; set_size_alignment(s, a); order_priority = prio;
        init = h_init; move_init = move_asgn = h_move; destroy = h_destroy;
    }
};
struct hf : feature_info { hf(dnmx_sv n, bool c = false) : feature_info{} { name = n; id = invalid_feature_id; allow_clashes = c; } };
struct hr : mutation_rule_info { hr(dnmx_sv n, int32_t p) : mutation_rule_info{} { name = n; order_priority = p; } };
struct hs : domain_settings { hs(bool c) : domain_settings{} { canonicalize_types = c; } };
struct pop {
    domain d;
    hm a, b, c, e, f, g, h;
    explicit pop(bool canon = false) : d("h", hs(canon)), a(L("a")), b(L("b")), c(L("c")), e(L("e")), f(L("f")), g(L("g")), h(L("h")) {
        d.register_mixin(c); d.register_mixin(a); d.register_mixin(e); d.register_mixin(b); d.register_mixin(g); d.register_mixin(f); d.register_mixin(h);
    }
    const type& t(const mixin_info* x) { const mixin_info* q[] = {x}; return d.get_type(sp(q)); }
    const type& t(const mixin_info* x, const mixin_info* y) { const mixin_info* q[] = {x, y}; return d.get_type(sp(q)); }
    const type& t(const mixin_info* x, const mixin_info* y, const mixin_info* z) { const mixin_info* q[] = {x, y, z}; return d.get_type(sp(q)); }
};
struct need { const mixin_info* if_has; const mixin_info* add; };
error_return_t h_need(dnmx_type_mutation_handle m, uintptr_t ud) {
    auto n = reinterpret_cast<const need*>(ud); auto t = type_mutation::from_c_handle(m);
    if (t->has(*n->if_has)) t->add_if_lacking(*n->add);
    return 0;
}
error_return_t h_toggle(dnmx_type_mutation_handle m, uintptr_t ud) {
    auto t = type_mutation::from_c_handle(m); auto& i = *reinterpret_cast<const mixin_info*>(ud);
    if (!t->remove(i)) t->add(i);
    return 0;
}
bool h_match(dnmx_type_handle) noexcept { return true; }
}
// --- types which nobody uses, among others
void drv_C17_C07_hist_many_gc(size_t* out) {
    pop p;
    auto& t0 = p.t(&p.a); p.t(&p.b); p.t(&p.c); auto& t1 = p.t(&p.a, &p.b); p.t(&p.b, &p.a); p.t(&p.c, &p.e); p.t(&p.e);
    out[0] = p.d.num_types(); out[1] = p.d.num_type_queries();
    object o(t1);
    p.d.garbage_collect_types();
    out[2] = p.d.num_types(); out[3] = p.d.num_type_queries();
    out[4] = &p.t(&p.a, &p.b) == &t1;
    o.clear();
    p.t(&p.f); p.t(&p.g); p.t(&p.f, &p.g);
    p.d.garbage_collect_types();
    out[5] = p.d.num_types(); out[6] = p.d.num_type_queries();
}
void drv_C18_C07_hist_many_unregister(size_t* out) {
    pop p;
    p.t(&p.a); auto& tb = p.t(&p.b); p.t(&p.a, &p.b); p.t(&p.b, &p.a); p.t(&p.c, &p.a); auto& tc = p.t(&p.c);
    out[0] = p.d.num_types(); out[1] = p.d.num_type_queries();
    p.d.unregister_mixin(p.a);
    out[2] = p.d.num_types(); out[3] = p.d.num_type_queries();
    out[4] = (&p.t(&p.b) == &tb) + 2 * (&p.t(&p.c) == &tc);
    out[5] = p.d.num_types(); out[6] = p.d.num_type_queries();
    p.d.unregister_mixin(p.c);
    out[7] = p.d.num_types(); out[8] = p.d.num_type_queries();
    p.d.register_mixin(p.a);
    out[9] = p.t(&p.a).index_of(p.a.id); out[10] = p.t(&p.b, &p.a).index_of(p.a.id);
}
// --- duplicates and foreign mixins at any distance
void drv_C08_hist_many_dups(size_t* out) {
    pop p; domain z("z"); hm fm(L("c")), un(L("u")); z.register_mixin(fm);
    const mixin_info* q[] = {&p.a, &p.b, &p.c, &p.e, &p.f, &p.g, &p.h};
    out[0] = p.d.get_type(sp(q)).num_mixins();
    q[6] = &p.a; try { p.d.get_type(sp(q)); out[1] = 1; } catch (std::exception&) { out[1] = 2; }
    q[6] = &p.f; try { p.d.get_type(sp(q)); out[2] = 1; } catch (std::exception&) { out[2] = 2; }
    q[6] = &fm; try { p.d.get_type(sp(q)); out[3] = 1; } catch (std::exception&) { out[3] = 2; }
    q[6] = &un; try { p.d.get_type(sp(q)); out[4] = 1; } catch (std::exception&) { out[4] = 2; }
    q[6] = &p.h; q[2] = &p.h; try { p.d.get_type(sp(q)); out[5] = 1; } catch (std::exception&) { out[5] = 2; }
    out[6] = p.d.num_types(); out[7] = p.d.num_type_queries();
}
// --- order
void drv_C16_C07_hist_many_canonical(size_t* out) {
    pop p(true);
    p.f.order_priority = -1; p.b.order_priority = 2;
    const mixin_info* q[] = {&p.h, &p.b, &p.g, &p.f, &p.e, &p.c, &p.a};
    auto& t = p.d.get_type(sp(q));
    for (size_t i = 0; i < t.num_mixins(); ++i) out[i] = t.mixins[i]->id.i;
    const mixin_info* r[] = {&p.a, &p.b, &p.c, &p.e, &p.f, &p.g, &p.h};
    out[8] = &p.d.get_type(sp(r)) == &t; out[9] = p.d.num_types();
}
void drv_C16_hist_many_compare(int* out) {
    pop p; hm i(L("i")), j(L("j")), k(L("k")), l(L("l"), 8, 8, -3), m(L("m"));
    p.d.register_mixin(i); p.d.register_mixin(j); p.d.register_mixin(k); p.d.register_mixin(l); p.d.register_mixin(m);
    const mixin_info* q[] = {&p.a, &p.b, &p.c, &p.e, &p.f, &p.g, &p.h, &i, &j, &k, &m};
    auto& t0 = p.d.get_type(sp(q));
    auto& t1 = p.d.get_type(sp(q, 10));
    q[10] = &l; auto& t2 = p.d.get_type(sp(q));
    q[0] = &m; auto& t3 = p.d.get_type(sp(q, 3));
    auto s = [](int x) { return (x > 0) - (x < 0); };
    out[0] = s(t0.compare(t1)); out[1] = s(t1.compare(t0)); out[2] = s(t0.compare(t2)); out[3] = s(t2.compare(t0));
    out[4] = s(t3.compare(t0)); out[5] = s(t0.compare(t3)); out[6] = s(t1.compare(t2)); out[7] = s(t0.compare(t0));
}
void drv_C42_hist_many_type_mutation(size_t* out) {
    pop p; type_mutation m(p.d);
    m.add(p.a); m.add(p.b); m.add(p.c); m.add(p.a); m.add(p.e); m.add(p.b); m.add(p.f); m.add(p.a); m.add(p.g);
    m.dedup();
    out[0] = m.mixins.size(); for (size_t i = 0; i < m.mixins.size(); ++i) out[1 + i] = m.mixins[i]->id.i;
    m.to_back(p.c); m.to_back("e"); m.remove("g"); m.add_if_lacking(p.h); m.add_if_lacking("b"); m.remove(p.f); m.safe_add("q"); m.safe_add("f");
    out[10] = m.mixins.size(); for (size_t i = 0; i < m.mixins.size(); ++i) out[11 + i] = m.mixins[i]->id.i;
    out[20] = m.has(p.c) + 2 * (m.has("b") != nullptr) + 4 * m.has(p.g);
    auto& t = p.d.get_type(std::move(m));
    out[21] = t.num_mixins(); out[22] = t.index_of(p.c.id);
    type_mutation n(t); n.remove(p.c);
    out[23] = n.mixins.size(); out[24] = p.d.get_type(std::move(n)).num_mixins();
}
// --- rules which need each other
void drv_C06_hist_many_rules(size_t* out) {
    pop p;
    need n1{&p.a, &p.b}, n2{&p.b, &p.c}, n3{&p.c, &p.e}, n4{&p.e, &p.f}, n5{&p.f, &p.g};
    hr r1(L("r1"), 5), r2(L("r2"), 4), r3(L("r3"), 3), r4(L("r4"), 2), r5(L("r5"), 1), t(L("t"), 9);
    r1.apply = r2.apply = r3.apply = r4.apply = r5.apply = h_need;
    r1.user_data = reinterpret_cast<uintptr_t>(&n1); r2.user_data = reinterpret_cast<uintptr_t>(&n2); r3.user_data = reinterpret_cast<uintptr_t>(&n3);
    r4.user_data = reinterpret_cast<uintptr_t>(&n4); r5.user_data = reinterpret_cast<uintptr_t>(&n5);
    p.d.add_mutation_rule(r4); p.d.add_mutation_rule(r2); p.d.add_mutation_rule(r3); p.d.add_mutation_rule(r1);
    out[0] = p.t(&p.a).num_mixins(); out[1] = p.t(&p.c).num_mixins();
    p.d.add_mutation_rule(r5);
    try { out[2] = p.t(&p.a).num_mixins(); } catch (std::exception&) { out[2] = 100; }
    r1.order_priority = 5;
    out[3] = p.d.num_type_queries();
    p.d.remove_mutation_rule(r2); p.d.remove_mutation_rule(r3); p.d.remove_mutation_rule(r4); p.d.remove_mutation_rule(r5); 
    out[4] = p.t(&p.a).num_mixins();
    t.apply = h_toggle; t.user_data = reinterpret_cast<uintptr_t>(static_cast<const mixin_info*>(&p.h));
    p.d.add_mutation_rule(t);
    try { out[5] = p.t(&p.a).num_mixins(); } catch (std::exception&) { out[5] = 100; }
    out[6] = p.d.num_types(); out[7] = p.d.num_type_queries();
}
void drv_C05_C06_hist_rule_order(size_t* out) {
    pop p;
    need n1{&p.a, &p.b}, n2{&p.a, &p.c}, n3{&p.a, &p.e};
    hr r1(L("z"), 0), r2(L("y"), 0), r3(L("x"), 1), r4(L("y"), 0);
    r1.apply = r2.apply = r3.apply = r4.apply = h_need;
    r1.user_data = reinterpret_cast<uintptr_t>(&n1); r2.user_data = reinterpret_cast<uintptr_t>(&n2); r3.user_data = reinterpret_cast<uintptr_t>(&n3); r4.user_data = reinterpret_cast<uintptr_t>(&n3);
    p.d.add_mutation_rule(r3); p.d.add_mutation_rule(r1); p.d.add_mutation_rule(r2);
    auto& t = p.t(&p.a);
    for (size_t i = 0; i < t.num_mixins(); ++i) out[i] = t.mixins[i]->id.i;
    p.d.add_mutation_rule(r4); out[8] = p.d.num_mutation_rules();
    p.d.remove_mutation_rule(r2); out[9] = p.d.num_mutation_rules();
    p.d.remove_mutation_rule(r2); out[10] = p.d.num_mutation_rules();
    auto& u = p.t(&p.a);
    for (size_t i = 0; i < u.num_mixins(); ++i) out[11 + i] = u.mixins[i]->id.i;
    p.d.remove_mutation_rule(r2); p.d.remove_mutation_rule(r1); p.d.remove_mutation_rule(r3);
    out[16] = p.d.num_mutation_rules(); out[17] = p.t(&p.a).num_mixins();
}
// --- dependencies
void drv_C06_C44_hist_dependency(size_t* out) {
    pop p; p.b.dependency = true;
    need n1{&p.a, &p.b}; hr r1(L("r"), 0); r1.apply = h_need; r1.user_data = reinterpret_cast<uintptr_t>(&n1);
    p.d.add_mutation_rule(r1);
    auto& t = p.t(&p.a); out[0] = t.num_mixins();
    type_mutation m(t); m.remove(p.a);
    auto& u = p.d.get_type(std::move(m)); out[1] = u.num_mixins();
    type_mutation k(t); k.add(p.c); auto& v = p.d.get_type(std::move(k)); out[2] = v.num_mixins(); out[3] = v.index_of(p.b.id);
    out[4] = p.t(&p.b).num_mixins();
    p.d.remove_mutation_rule(r1);
    try { out[5] = p.t(&p.b, &p.c).num_mixins(); } catch (std::exception&) { out[5] = 100; }
    out[6] = p.d.num_type_queries();
}
// --- the function table
void drv_C13_C14_C15_hist_ftable(size_t* out) {
    pop p; hf x(L("x"), true), y(L("y"));
    static int pl[7], dfl; y.default_payload = &dfl;
    feature_for_mixin fa[] = {{&x, pl, 0, 1}, {&y, pl, 1, 0}}, fb[] = {{&x, pl + 1, 2, 0}}, fc[] = {{&x, pl + 2, 2, 5}}, fe[] = {{&y, pl + 3, 1, 2}, {&x, pl + 3, 0, 7}}, ff[] = {{&x, pl + 4, -1, 9}}, fg[] = {{&x, pl + 5, 2, 1}};
    domain& d = p.d;
    d.unregister_mixin(p.a); d.unregister_mixin(p.b); d.unregister_mixin(p.c); d.unregister_mixin(p.e); d.unregister_mixin(p.f); d.unregister_mixin(p.g);
    p.a.features = fa; p.a.num_features = 2; p.b.features = fb; p.b.num_features = 1; p.c.features = fc; p.c.num_features = 1;
    p.e.features = fe; p.e.num_features = 2; p.f.features = ff; p.f.num_features = 1; p.g.features = fg; p.g.num_features = 1;
    d.register_mixin(p.a); d.register_mixin(p.b); d.register_mixin(p.c); d.register_mixin(p.e); d.register_mixin(p.f); d.register_mixin(p.g);
    const mixin_info* q[] = {&p.f, &p.a, &p.b, &p.h, &p.c, &p.g, &p.e};
    auto& t = d.get_type(sp(q));
    auto n = t.ftable_at(x.id);
    out[0] = n.end - n.begin; out[1] = n.top_bid_back - n.begin;
    for (auto i = n.begin; i != n.end; ++i) { out[2 + (i - n.begin)] = i->mixin_index; out[10 + (i - n.begin)] = i->payload == pl; }
    out[20] = t.implements(x) + 2 * t.implements_strong(x) + 4 * t.implements(y) + 8 * t.implements_strong(y);
    auto nx = t.find_next_implementer(x, p.c); out[21] = nx ? nx->mixin_index : 99;
    nx = t.find_next_implementer(x, p.f); out[22] = nx ? nx->mixin_index : 99;
    nx = t.find_next_implementer(x, p.h); out[23] = nx ? nx->mixin_index : 99;
    auto s = t.find_next_bidder_set(x, p.b); out[24] = s.size(); out[25] = s.empty() ? 99 : s[0].mixin_index;
    s = t.find_next_bidder_set(x, p.e); out[26] = s.size(); out[27] = s.empty() ? 99 : s[0].mixin_index;
    s = t.find_next_bidder_set(x, p.f); out[28] = s.size();
    auto w = t.ftable_at(y.id); out[29] = w.end - w.begin; out[30] = w.begin->mixin_index; out[31] = w.top_bid_back - w.begin;
    auto& z = p.t(&p.h); out[32] = z.implements(x) + 2 * z.implements(y) + 4 * z.implements_strong(y);
    auto& v = p.t(&p.f, &p.e); out[33] = v.ftable_at(x.id).begin->mixin_index; out[34] = v.ftable_at(x.id).top_bid_back - v.ftable_at(x.id).begin;
}
void drv_C13_hist_clash(size_t* out, int32_t ba, int32_t pa, int32_t bb, int32_t pb) {
    domain d("h"); hf x(L("x")); static int pl[3];
    feature_for_mixin fa[] = {{&x, pl, ba, pa}}, fb[] = {{&x, pl + 1, bb, pb}}, fc[] = {{&x, pl + 2, 0, 0}};
    hm a(L("a")), b(L("b")), c(L("c"));
    a.features = fa; a.num_features = 1; b.features = fb; b.num_features = 1; c.features = fc; c.num_features = 1;
    d.register_mixin(a); d.register_mixin(b); d.register_mixin(c);
    const mixin_info* q[] = {&a, &b, &c};
    try {
        auto& t = d.get_type(sp(q)); auto n = t.ftable_at(x.id);
        for (auto i = n.begin; i != n.end; ++i) out[i - n.begin] = i->mixin_index;
        out[4] = n.top_bid_back - n.begin;
    } catch (std::exception&) { out[5] = 1; }
    out[6] = d.num_types(); out[7] = d.num_type_queries();
}
// --- layout
void drv_C11_hist_layout(size_t* out, bool* ext) {
    domain d("h");
    hm a(L("a"), 1, 1), b(L("b"), 12, 4), c(L("c"), 3, 2), e(L("e"), 256, 128), f(L("f"), 8, 8), g(L("g"), 64, 64), h(L("h"), 32, 16), i(L("i"), 0, 1), j(L("j"), 512, 256);
    j.force_external = true;
    d.register_mixin(a); d.register_mixin(b); d.register_mixin(c); d.register_mixin(e); d.register_mixin(f); d.register_mixin(g); d.register_mixin(h); d.register_mixin(i); d.register_mixin(j);
    const mixin_info* q[] = {&a, &e, &b, &j, &g, &c, &i, &h, &f};
    auto& t = d.get_type(sp(q));
    for (size_t k = 0; k < t.num_mixins(); ++k) { out[k] = t.mixin_offsets[k]; ext[k] = t.mixins[k]->external(); }
    out[10] = t.object_buffer_size; out[11] = t.object_buffer_alignment;
    const mixin_info* r[] = {&f, &a, &g};
    auto& u = d.get_type(sp(r));
    for (size_t k = 0; k < u.num_mixins(); ++k) out[12 + k] = u.mixin_offsets[k];
    out[16] = u.object_buffer_size; out[17] = u.object_buffer_alignment;
}
// --- ids and names
void drv_C01_C02_hist_many_ids(size_t* out) {
    pop p; hm x(L("x")), y(L("b")), z(L("z"));
    out[0] = p.c.id.i + 8 * p.a.id.i + 64 * p.h.id.i;
    p.d.unregister_mixin(p.e); p.d.unregister_mixin(p.a); p.d.unregister_mixin(p.f);
    p.d.register_mixin(x); out[1] = x.id.i;
    try { p.d.register_mixin(y); out[2] = 1; } catch (std::exception&) { out[2] = 2; }
    out[3] = y.id.i;
    p.d.register_mixin(z); out[4] = z.id.i;
    p.d.register_mixin(p.a); p.d.register_mixin(p.e); p.d.register_mixin(p.f);
    out[5] = p.a.id.i; out[6] = p.e.id.i; out[7] = p.f.id.i;
    out[8] = p.d.get_mixin_info("a") == &p.a; out[9] = p.d.get_mixin_info("z") == &z; out[10] = p.d.get_mixin_info("y") == nullptr; out[11] = p.d.get_mixin_info("b") == &p.b;
    p.d.unregister_mixin(p.h);
    out[12] = p.d.get_mixin_info("h") == nullptr; out[13] = p.h.id.i == x.id.i;
    p.d.register_mixin(p.h); out[14] = p.h.id.i;
}
void drv_C03_C02_hist_features_of_mixins(size_t* out) {
    domain d("h"); hf x(L("x")), y(L("y")), x2(L("x")), w(L("w")); static int pl[3];
    feature_for_mixin fa[] = {{&x, pl, 0, 0}, {&y, pl, 0, 0}}, fb[] = {{&y, pl, 0, 0}, {&x2, pl, 0, 0}}, fc[] = {{&w, pl, 0, 0}};
    hm a(L("a")), b(L("b")), c(L("a")), e(L("e"));
    a.features = fa; a.num_features = 2; b.features = fb; b.num_features = 2; c.features = fc; c.num_features = 1; e.features = fa; e.num_features = 2;
    d.register_mixin(a); out[0] = x.id.i; out[1] = y.id.i;
    try { d.register_mixin(b); out[2] = 1; } catch (std::exception&) { out[2] = 2; }
    out[3] = b.id.i; out[4] = x2.id.i; out[5] = b.dom == nullptr;
    try { d.register_mixin(c); out[6] = 1; } catch (std::exception&) { out[6] = 2; }
    out[7] = w.id.i; out[8] = c.id.i; out[9] = c.dom == nullptr; out[10] = d.get_feature_info("w") == &w;
    d.unregister_mixin(a); out[11] = x.id.i; out[12] = d.get_feature_info("x") == &x;
    d.unregister_feature(x);
    d.register_mixin(e); out[13] = x.id.i; out[14] = d.get_feature_info("x") == &x;
    d.unregister_feature(y); d.unregister_feature(x); out[15] = x.id.i == invalid_feature_id.i;
    d.register_feature(y); out[16] = y.id.i;
}
void drv_C04_hist_many_type_classes(size_t* out) {
    domain d("h");
    type_class a{L("a"), h_match}, b{L("b"), h_match}, c{L("c"), h_match}, e{L("e"), h_match}, f{L("f"), h_match}, b2{L("b"), h_match};
    d.register_type_class(c); d.register_type_class(f); d.register_type_class(a); d.register_type_class(e); d.register_type_class(b);
    try { d.register_type_class(b2); out[0] = 1; } catch (std::exception&) { out[0] = 2; }
    out[1] = d.get_type_class("a") == &a; out[2] = d.get_type_class("b") == &b; out[3] = d.get_type_class("c") == &c; out[4] = d.get_type_class("e") == &e; out[5] = d.get_type_class("f") == &f;
    d.unregister_type_class(b); d.unregister_type_class(e);
    out[6] = d.get_type_class("b") == nullptr; out[7] = d.get_type_class("a") == &a; out[8] = d.get_type_class("f") == &f; out[9] = d.get_type_class("c") == &c;
    d.register_type_class(b2); d.register_type_class(e);
    out[10] = d.get_type_class("b") == &b2; out[11] = d.get_type_class("e") == &e; out[12] = d.get_type_class("d") == nullptr;
    try { d.unregister_type_class(b); out[13] = 1; } catch (std::exception&) { out[13] = 2; }
    out[14] = d.get_type_class("b") == &b2;
    d.unregister_type_class(a); d.unregister_type_class(b2); d.unregister_type_class(c); d.unregister_type_class(e); d.unregister_type_class(f);
    out[15] = d.get_type_class("f") == nullptr;
}
// --- objects of several mixins
void drv_C43_hist_many_ops(size_t* out) {
    pop p; object o(p.t(&p.e, &p.a));
    int n = 0; auto fn = [&](init_new_args x) { ++n; out[20 + x.target_index] += 1; };
    mutate(o, mutate_ops::add(p.b, fn), mutate_ops::add("c", fn), mutate_ops::remove(p.a), mutate_ops::add(p.f, fn), mutate_ops::add("g", fn));
    for (size_t i = 0; i < o.num_mixins(); ++i) out[i] = o.get_type().mixins[i]->id.i;
    out[8] = n;
    auto& t = p.t(&p.g, &p.h, &p.b);
    mutate_to(o, t, mutate_ops::add(p.h, fn), mutate_ops::add("g", fn));
    out[9] = n; out[10] = &o.get_type() == &t; out[11] = p.t(&p.e, &p.a).num_objects();
}
void drv_C25_C21_hist_many_object(size_t* out) {
    pop p; p.c.force_external = true; p.g.force_external = true;
    const mixin_info* q[] = {&p.a, &p.c, &p.e, &p.g, &p.h};
    object o(p.d.get_type(sp(q)));
    object x(std::move(o));
    for (size_t i = 0; i < x.num_mixins(); ++i) out[i] = object_of(x.get_at(i)) == &x;
    const mixin_info* r[] = {&p.g, &p.b, &p.h, &p.c, &p.f};
    x.reset_type(p.d.get_type(sp(r)));
    for (size_t i = 0; i < x.num_mixins(); ++i) out[8 + i] = object_of(x.get_at(i)) == &x;
    out[16] = x.has(p.a) + 2 * x.has(p.c) + 4 * (x.get("h") != nullptr) + 8 * x.empty();
    x = std::move(o); out[17] = x.empty();
}
