// sequences of operations which begin with a new domain: what an operation leaves behind for later ones
#include <dynamix/domain.hpp>
#include <dynamix/domain_settings_builder.hpp>
#include <dynamix/domain_traverse.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/feature_info.hpp>
#include <dynamix/feature_for_mixin.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <dynamix/type_class.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/object.hpp>
using namespace dynamix;
namespace {
struct hm : mixin_info { hm(dnmx_sv n) : mixin_info{} { name = n; id = invalid_mixin_id; set_size_alignment(8, 8); } };
struct hf : feature_info { hf(dnmx_sv n) : feature_info{} { name = n; id = invalid_feature_id; } };
error_return_t h_rule(dnmx_type_mutation_handle, uintptr_t) { return 0; }
error_return_t h_rule_rem(dnmx_type_mutation_handle m, uintptr_t ud) { type_mutation::from_c_handle(m)->remove(*reinterpret_cast<const mixin_info*>(ud)); return 0; }
bool h_match(dnmx_type_handle) noexcept { return true; }
struct hr : mutation_rule_info { hr(dnmx_sv n, int32_t p) : mutation_rule_info{} { name = n; apply = h_rule; order_priority = p; } };
struct hs : domain_settings { hs(bool b) : domain_settings{} { allow_duplicate_mixin_names = b; allow_duplicate_feature_names = b; } };
}
// --- names
void drv_C02_C04_hist_mixin_name(dnmx_sv n, dnmx_sv m, const mixin_info** out) {
    domain d("h");
    hm a(n), b(n);
    out[0] = d.get_mixin_info(m.to_std());
    d.register_mixin(a);
    out[1] = d.get_mixin_info(m.to_std());
    d.unregister_mixin(a);
    out[2] = d.get_mixin_info(m.to_std());
    d.register_mixin(b);
    out[3] = d.get_mixin_info(m.to_std());
    out[4] = d.get_mixin_info(n.to_std());
}
void drv_C02_hist_feature_name(dnmx_sv n, dnmx_sv m, const feature_info** out) {
    domain d("h");
    hf a(n), b(n);
    out[0] = d.get_feature_info(m.to_std());
    d.register_feature(a);
    out[1] = d.get_feature_info(m.to_std());
    d.unregister_feature(a);
    out[2] = d.get_feature_info(m.to_std());
    d.register_feature(b);
    out[3] = d.get_feature_info(m.to_std());
    out[4] = d.get_feature_info(n.to_std());
}
void drv_C04_hist_type_class(dnmx_sv n, dnmx_sv m, const type_class** out) {
    domain d("h");
    type_class a{n, h_match}, b{n, h_match};
    out[0] = d.get_type_class(m.to_std());
    d.register_type_class(a);
    out[1] = d.get_type_class(m.to_std());
    d.unregister_type_class(a);
    out[2] = d.get_type_class(m.to_std());
    d.register_type_class(b);
    out[3] = d.get_type_class(m.to_std());
}
void drv_C04_hist_is_of(dnmx_sv n, bool* out) {
    domain d("h"), e("h");
    type_class a{n, h_match};
    d.register_type_class(a);
    out[0] = d.get_empty_type().is_of(n.to_std());
    try { out[1] = e.get_empty_type().is_of(n.to_std()); } catch (std::exception&) { out[2] = true; }
    d.unregister_type_class(a);
    try { out[3] = d.get_empty_type().is_of(n.to_std()); } catch (std::exception&) { out[4] = true; }
}
// --- ids
void drv_C01_hist_ids(dnmx_sv n, bool dup, mixin_id* out, const mixin_info** by) {
    domain d("h", hs(dup));
    hm a(dnmx_make_sv_lit("a")), b(dnmx_make_sv_lit("b")), c(dnmx_make_sv_lit("c")), e(dnmx_make_sv_lit("e"));
    d.register_mixin(a); d.register_mixin(b); d.register_mixin(c);
    out[0] = a.id; out[1] = b.id; out[2] = c.id;
    d.unregister_mixin(b);
    d.unregister_mixin(a);
    by[0] = d.get_mixin_info(out[0]); by[1] = d.get_mixin_info(out[1]); by[2] = d.get_mixin_info(out[2]);
    d.register_mixin(e);
    d.register_mixin(a);
    d.register_mixin(b);
    out[3] = a.id; out[4] = b.id; out[5] = c.id; out[6] = e.id;
    d.unregister_mixin(c);
    d.register_mixin(c);
    out[7] = c.id;
    by[3] = d.get_mixin_info(c.id); by[4] = d.get_mixin_info(b.id);
}
void drv_C01_hist_feature_ids(bool dup, feature_id* out, const feature_info** by) {
    domain d("h", hs(dup));
    hf a(dnmx_make_sv_lit("a")), b(dnmx_make_sv_lit("b")), c(dnmx_make_sv_lit("c"));
    d.register_feature(a); d.register_feature(b);
    d.unregister_feature(a); d.unregister_feature(b);
    d.register_feature(c); out[0] = c.id;
    d.register_feature(b); out[1] = b.id;
    d.register_feature(a); out[2] = a.id;
    by[0] = d.get_feature_info(c.id); by[1] = d.get_feature_info(a.id);
}
void drv_C03_hist_two_domains(const mixin_info** by, bool* out) {
    domain d("h"), e("i");
    hm a(dnmx_make_sv_lit("a")), b(dnmx_make_sv_lit("b"));
    d.register_mixin(a); e.register_mixin(b);
    try { e.unregister_mixin(a); out[0] = true; } catch (std::exception&) { out[0] = false; }
    try { e.register_mixin(a); out[1] = true; } catch (std::exception&) { out[1] = false; }
    by[0] = d.get_mixin_info(a.id); by[1] = e.get_mixin_info(b.id);
    d.unregister_mixin(a);
    e.register_mixin(a);
    by[2] = e.get_mixin_info(a.id); by[3] = d.get_mixin_info("a");
}
// --- types
void drv_C07_C18_hist_types(size_t* out) {
    domain d("h");
    hm a(dnmx_make_sv_lit("a")), b(dnmx_make_sv_lit("b")), c(dnmx_make_sv_lit("c"));
    d.register_mixin(a); d.register_mixin(b);
    const mixin_info* qa[] = {&a}; const mixin_info* qb[] = {&b};
    auto& ta = d.get_type(itlib::span<const mixin_info* const>(qa));
    auto& ta2 = d.get_type(itlib::span<const mixin_info* const>(qa));
    out[0] = &ta == &ta2;
    auto& tb = d.get_type(itlib::span<const mixin_info* const>(qb));
    out[1] = &ta == &tb; out[2] = d.num_types(); out[3] = d.num_type_queries();
    out[4] = ta.has(a) + 2 * ta.has(b); out[5] = tb.has(a) + 2 * tb.has(b);
    d.unregister_mixin(a);
    out[6] = d.num_types(); out[7] = d.num_type_queries();
    d.register_mixin(c);
    qa[0] = &c;
    auto& tc = d.get_type(itlib::span<const mixin_info* const>(qa));
    out[8] = tc.has(c) + 2 * tc.has(a) + 4 * (tc.mixins[0] == &c);
    auto& tb2 = d.get_type(itlib::span<const mixin_info* const>(qb));
    out[9] = &tb == &tb2; out[10] = d.num_types();
}
void drv_C17_hist_gc(size_t* out) {
    domain d("h");
    hm a(dnmx_make_sv_lit("a")), b(dnmx_make_sv_lit("b"));
    d.register_mixin(a); d.register_mixin(b);
    const mixin_info* qa[] = {&a, &b};
    d.get_type(itlib::span<const mixin_info* const>(qa));
    d.get_type(itlib::span<const mixin_info* const>(qa, 1));
    d.garbage_collect_types();
    out[0] = d.num_types(); out[1] = d.num_type_queries();
    out[2] = d.get_type(itlib::span<const mixin_info* const>(qa, 1)).has(a);
    d.garbage_collect_types();
    out[3] = d.num_types();
    out[4] = d.get_type(itlib::span<const mixin_info* const>(qa)).has(b);
    out[5] = d.num_types();
}
// --- rules
void drv_C05_hist_rules(size_t* out, int32_t p) {
    domain d("h");
    hm a(dnmx_make_sv_lit("a")), b(dnmx_make_sv_lit("b"));
    d.register_mixin(a); d.register_mixin(b);
    const mixin_info* q[] = {&a, &b};
    auto& t0 = d.get_type(itlib::span<const mixin_info* const>(q));
    hr r(dnmx_make_sv_lit("r"), p);
    r.apply = h_rule_rem; r.user_data = reinterpret_cast<uintptr_t>(static_cast<mixin_info*>(&b));
    d.add_mutation_rule(r);
    out[0] = d.num_type_queries(); out[1] = d.num_mutation_rules();
    auto& t1 = d.get_type(itlib::span<const mixin_info* const>(q));
    out[2] = &t1 == &t0; out[3] = t1.num_mixins(); out[4] = d.num_type_queries();
    d.add_mutation_rule(r);
    out[5] = d.num_type_queries();
    d.remove_mutation_rule(r);
    out[6] = d.num_type_queries(); out[7] = d.num_mutation_rules();
    auto& t2 = d.get_type(itlib::span<const mixin_info* const>(q));
    out[8] = &t2 == &t1;
    d.remove_mutation_rule(r);
    out[9] = d.num_type_queries(); out[10] = d.num_mutation_rules();
    auto& t3 = d.get_type(itlib::span<const mixin_info* const>(q));
    out[11] = &t3 == &t0;
}
