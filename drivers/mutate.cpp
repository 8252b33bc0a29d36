#include <dynamix/declare_mixin.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/mutate_to.hpp>
#include <dynamix/mutate_ops.hpp>
#include <dynamix/mutate_to_ops.hpp>
#include <dynamix/common_mixin_init.hpp>
#include <dynamix/common_mutation_rules.hpp>
#include <dynamix/object_mutation.hpp>
#include <dynamix/object_mutation_funcs.hpp>
#include <dynamix/object.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/domain_traverse.hpp>
#include <dynamix/alloc_util.hpp>
#include <dynamix/any.hpp>
#include <dynamix/bits/make_from_tuple.hpp>
#include <dynamix/domain_settings_builder.hpp>
#include <dynamix/declare_type_class.hpp>
using namespace dynamix;
struct mv { int v; mv(int); mv(const mv&); mv(mv&&) noexcept; ~mv(); };
class drv_a; class drv_b;
DYNAMIX_DECLARE_MIXIN(class drv_a);
DYNAMIX_DECLARE_MIXIN(class drv_b);
class drv_noargs { public: drv_noargs(); int x; }; DYNAMIX_DECLARE_MIXIN(class drv_noargs);
class drv_a { public: int a; drv_a(int); drv_a(int, mv); };
class drv_b { public: int b; };
struct fn { void operator()(init_new_args a); };
struct fi { mixin_index_t operator()(init_new_args a) const; };
struct uc { void operator()(update_common_args a); };
DYNAMIX_DECLARE_TYPE_CLASS(drv_tc);
#define D(n, ...) void drv_##n
void drv_mutate_to(object& o, const type& t) { mutate_to(o, t); }
void drv_mt1(object& o, const type& t, fn& f, const mixin_info& i) { mutate_to(o, t, construct(i, f)); }
void drv_mt2(object& o, const type& t, fn& f, const mixin_info& i, std::string_view n, fn& g) { mutate_to(o, t, construct(i, f), construct(n, g)); }
void drv_mt_name(object& o, const type& t, fn& f, std::string_view n) { mutate_to(o, t, construct(n, f)); }
void drv_mt_noargs(object& o, const type& t) { mutate_to(o, t, construct<drv_noargs>()); }
void drv_mt_args(object& o, const type& t, int a, mv& b) { mutate_to(o, t, construct<drv_a>(a, std::move(b))); }
void drv_mt_mixed(object& o, const type& t, const mixin_info& i) { mutate_to(o, t, add(i), remove(i)); }
void drv_m_add(object& o, const mixin_info& i) { mutate(o, add(i)); }
void drv_m_add_n(object& o, std::string_view n) { mutate(o, add(n)); }
void drv_m_add_t(object& o) { mutate(o, add<drv_a>()); }
void drv_m_rem(object& o, const mixin_info& i) { mutate(o, remove(i)); }
void drv_m_rem_n(object& o, std::string_view n) { mutate(o, remove(n)); }
void drv_m_rem_t(object& o) { mutate(o, remove<drv_a>()); }
void drv_m_back(object& o, const mixin_info& i) { mutate(o, to_back(i)); }
void drv_m_back_n(object& o, std::string_view n) { mutate(o, to_back(n)); }
void drv_m_back_t(object& o) { mutate(o, to_back<drv_a>()); }
void drv_m_addf(object& o, const mixin_info& i, fn& f) { mutate(o, add(i, f)); }
void drv_m_addf_n(object& o, std::string_view n, fn& f) { mutate(o, add(n, f)); }
void drv_m_args(object& o, int a) { mutate(o, add<drv_a>(a)); }
void drv_m_two(object& o, const mixin_info& i, const mixin_info& j, fn& f) { mutate(o, remove(j), add(i, f)); }
struct my_init final : common_mixin_init<drv_a> { void do_init(init_new_args a) override; };
void drv_m_cmi(object& o) { mutate(o, my_init()); }
void drv_cmi_ctor() { my_init i; }

void drv_gm(object& o, const mixin_info& i) { mutate(o).add(i); }
void drv_gm_n(object& o, std::string_view n) { mutate(o).add(n).remove(n).add_if_lacking(n).to_back(n); }
void drv_gm_i(object& o, const mixin_info& n) { mutate(o).remove(n).add_if_lacking(n).to_back(n); }
void drv_gm_t(object& o) { mutate(o).add<drv_a>().remove<drv_b>().add_if_lacking<drv_b>().to_back<drv_a>(); }
void drv_gm_cancel(object& o, const mixin_info& i) { mutate(o).add(i).cancel(); }
void drv_gm_apply(object& o, const mixin_info& i) { gradual_mutation g(o); g.add(i); g.apply(); }
bool drv_ext();
void drv_gm_throw(object& o, const mixin_info& i) { gradual_mutation g(o); g.add(i); drv_ext(); }

void drv_tm(type_mutation& m) { m.add<drv_a>(); }
void drv_tm_rem(type_mutation& m) { m.remove<drv_a>(); }
void drv_tm_lack(type_mutation& m) { m.add_if_lacking<drv_a>(); }
void drv_tm_back(type_mutation& m) { m.to_back<drv_a>(); }
bool drv_tm_has(type_mutation& m) { return m.has<drv_a>(); }

util::builder_literals::common_mutation_rule drv_rule_att() { return util::builder_literals::attaches_to<drv_a>::get_rule_for<drv_b>(); }
util::builder_literals::common_mutation_rule drv_rule_also() { return util::builder_literals::also_adds<drv_a>::get_rule_for<drv_b>(); }
error_return_t drv_rule_apply(dnmx_type_mutation_handle m) { return util::builder_literals::priv::apply_basic_mixin_dep<drv_a, drv_b>(m, 0); }

void drv_om_next(object_mutation& m, fn& f, uc& u) { m.update_next_mixin(f, u); }
void drv_om_each(object_mutation& m, fn& f, uc& u, mixin_index_t i) { m.update_each_mixin(f, u, i); }
void drv_om_new(object_mutation& m, fn& f, mixin_index_t i) { m.construct_each_new_mixin(f, i); }
void drv_om_at(object_mutation& m, fn& f, uc& u, mixin_index_t i) { m.update_at(i, f, u); }
void drv_om_perf(object& o, const type& t, fn& f, uc& u) { perform_object_mutation(o, t, f, u); }
void drv_om_perf1(object& o, const type& t, fn& f) { perform_object_mutation(o, t, f); }
void drv_om_perf0(object& o, const type& t) { perform_object_mutation(o, t); }

drv_a* drv_get(object& o) { return o.get<drv_a>(); }
const drv_a* drv_get_c(const object& o) { return o.get<drv_a>(); }
bool drv_has(const object& o) { return o.has<drv_a>(); }
bool drv_is_of(const object& o) { return o.is_of<drv_tc>(); }
bool drv_t_has(const type& t) { return t.has<drv_a>(); }
bool drv_t_is_of(const type& t) { return t.is_of<drv_tc>(); }
size_t drv_next_mult(size_t a, size_t b) { return util::next_multiple(a, b); }
unsigned drv_next_mult32(unsigned a, unsigned b) { return util::next_multiple(a, b); }
void drv_mft(void* p, std::tuple<int, mv>& t) { impl::make_from_tuple<drv_a>(p, std::move(t)); }
void drv_mft1(void* p, std::tuple<int>& t) { impl::make_from_tuple<drv_a>(p, std::move(t)); }
any drv_fwd_any(int& i) { return fwd_any(i); }
any drv_make_any(allocator a, int i) { return make_any(a, i); }
any drv_make_any_m(allocator a, mv& i) { return make_any(a, std::move(i)); }
any drv_make_any_t(allocator a, int i) { return make_any<mv>(a, i); }
domain_settings drv_sb(bool a, bool b, bool c) { return domain_settings_builder().canonicalize_types(a).allow_duplicate_feature_names(b).allow_duplicate_mixin_names(c); }
domain_settings drv_sb1() { return domain_settings_builder().canonicalize_types(); }
domain_settings drv_sb2() { return domain_settings_builder().allow_duplicate_feature_names(); }
domain_settings drv_sb3() { return domain_settings_builder().allow_duplicate_mixin_names(); }
domain_settings drv_sb0() { return domain_settings_builder(); }
