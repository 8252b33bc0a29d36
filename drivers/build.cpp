#include <dynamix/domain.from_info.hpp>
#include <dynamix/declare_domain.hpp>
#include <dynamix/define_domain.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/define_mixin.hpp>
#include <dynamix/declare_type_class.hpp>
#include <dynamix/define_type_class.hpp>
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/mixin_info_data_literals.hpp>
#include <dynamix/mixin_info_util.hpp>
#include <dynamix/feature_info_data.hpp>
#include <dynamix/common_feature_info.hpp>
#include <dynamix/common_mixin_info.hpp>
#include <dynamix/common_mutation_rules.hpp>
#include <dynamix/globals.hpp>
#include <dynamix/domain.hpp>
#include <dynamix/object.hpp>
#include <dynamix/mixin_allocator.hpp>
#include <dynamix/feature_for_mixin.hpp>
#include <dynamix/v1compat/define_mixin.hpp>
#include <dynamix/v1compat/common_mutation_rules.hpp>
#include <dynamix/v1compat/object.hpp>
using namespace dynamix;
struct drv_dom;
DYNAMIX_DECLARE_DOMAIN(drv_dom);
DYNAMIX_DEFINE_DOMAIN(drv_dom, "drv");
class drv_a; class drv_b; class drv_m; 
DYNAMIX_DECLARE_MIXIN(class drv_a);
DYNAMIX_DECLARE_MIXIN(class drv_b);
DYNAMIX_DECLARE_MIXIN(class drv_m);
struct drv_feat { struct traits {
  template <class M> static any make_payload_for(allocator, M*); 
  template <class M, class P> static any make_payload_by(allocator, M*, P&&);
  template <class M, class P> static any make_payload_with(allocator, M*, P&&);
 }; static const common_feature_info& get_info_safe(); static const feature_info& info; static constexpr bool multicast = false; };
namespace dynamix::g { }
class drv_m { public: int x; drv_m(); drv_m(const drv_m&); drv_m(drv_m&&) noexcept; drv_m& operator=(const drv_m&); drv_m& operator=(drv_m&&) noexcept; ~drv_m(); bool operator==(const drv_m&) const noexcept; };
DYNAMIX_DEFINE_MIXIN(drv_dom, drv_m).implements<drv_feat>();
DYNAMIX_DECLARE_TYPE_CLASS(drv_tc);
static bool drv_match(dnmx_type_handle) noexcept { return false; }
DYNAMIX_DEFINE_TYPE_CLASS_WITH(drv_dom, drv_tc, drv_match);
struct drv_alloc : mixin_allocator { drv_alloc(); byte_t* alloc_mixin_buf(const mixin_info& info) override; void dealloc_mixin_buf(byte_t* ptr, const mixin_info& info) noexcept override; };
using B = util::mixin_info_data_builder<drv_m>;
using B0 = util::mixin_info_data_builder<>;
using util::builder_perks;
// capability matrix
struct cm_triv { int a; };
struct cm_def { cm_def(); cm_def(const cm_def&) = delete; };
struct cm_nodef { cm_nodef(int); };
struct cm_copy { cm_copy(const cm_copy&); cm_copy& operator=(const cm_copy&) = delete; };
struct cm_casgn { cm_casgn(const cm_casgn&) = delete; cm_casgn& operator=(const cm_casgn&); };
struct cm_tmove { cm_tmove(cm_tmove&&); cm_tmove& operator=(cm_tmove&&); };
struct cm_nmove { cm_nmove(cm_nmove&&) noexcept; cm_nmove& operator=(cm_nmove&&) noexcept; };
struct cm_dtor { int a; ~cm_dtor(); };
struct cm_none { cm_none() = delete; cm_none(const cm_none&) = delete; cm_none& operator=(const cm_none&) = delete; };
struct cm_thrdtor { ~cm_thrdtor() noexcept(false); };
struct alignas(64) cm_al { char c[100]; };
void drv_cm_void(mixin_info& i) { util::common_init_mixin_info<void>(i); }
#define CM(T) void drv_##T(mixin_info& i) { util::common_init_mixin_info<T>(i); }
CM(cm_triv) CM(cm_def) CM(cm_nodef) CM(cm_copy) CM(cm_casgn) CM(cm_tmove) CM(cm_nmove) CM(cm_dtor) CM(cm_none) CM(cm_al) CM(drv_m)
CM(cm_thrdtor)
void drv_cm_macro(mixin_info& mi) { DYNAMIX_COMMON_INIT_MI(mi, cm_triv); }
int drv_u_ctor(const mixin_info* i, void* m) { return (int)util::call_mixin_default_ctor<drv_m>(i, m); }
void drv_u_dtor(const mixin_info* i, void* m) { util::call_mixin_dtor<drv_m>(i, m); }
int drv_u_cc(const mixin_info* i, void* m, const void* s) { return (int)util::call_mixin_copy_ctor<drv_m>(i, m, s); }
int drv_u_ca(const mixin_info* i, void* m, const void* s) { return (int)util::call_mixin_copy_assignment<drv_m>(i, m, s); }
void drv_u_mc(const mixin_info* i, void* m, void* s) { util::call_mixin_move_ctor<drv_m>(i, m, s); }
void drv_u_ma(const mixin_info* i, void* m, void* s) { util::call_mixin_move_assignment<drv_m>(i, m, s); }
bool drv_u_eq(const mixin_info* i, const void* a, const void* b) { return util::call_mixin_equality_operator<drv_m>(i, a, b); }
// builders
void drv_b_ctor(util::mixin_info_data& d, dnmx_sv n) { B b(d, n); }
void drv_b_ctor2(util::mixin_info_data& d, std::string_view n) { B b(d, n); }
void drv_b_ctor0(util::mixin_info_data& d, dnmx_sv n) { B0 b(d, n); }
void drv_b_adopt(util::mixin_info_data& d) { B b(nullptr, d); }
void drv_b_name(B& b, std::string_view n) { b.name(n); }
void drv_b_store(B& b, std::string_view n) { b.store_name(n); }
void drv_b_alloc_any(B& b, t_any<mixin_allocator> a) { b.uses_allocator(a); }
void drv_b_alloc_ref(B& b, mixin_allocator& a) { b.uses_allocator(a); }
void drv_b_alloc_t(B& b) { b.uses_allocator<drv_alloc>(); }
void drv_b_ud(B& b, uintptr_t d) { b.user_data(d); }
void drv_b_dep(B& b, bool d) { b.dependency(d); }
void drv_b_dep0(B& b) { b.dependency(); }
void drv_b_impl_pl(B& b, const feature_info& i, any& a, builder_perks p, builder_perks q) { b.implements_with_payload(i, std::move(a), p, q); }
void drv_b_impl_pl1(B& b, const feature_info& i, any& a, builder_perks p) { b.implements_with_payload(i, std::move(a), p); }
void drv_b_impl_by(B& b, const feature_info& i, int& a, builder_perks p, builder_perks q) { b.implements_by(i, a, p, q); }
void drv_b_impl_with(B& b, const feature_info& i, int a, builder_perks p, builder_perks q) { b.implements_with(i, a, p, q); }
void drv_b_impl_by_f(B& b, int& a, builder_perks p, builder_perks q) { b.implements_by<drv_feat>(a, p, q); }
void drv_b_impl_by_fc(B& b, const int& a, builder_perks p, builder_perks q) { b.implements_by<drv_feat>(a, p, q); }
void drv_b_impl_with_f(B& b, int a, builder_perks p, builder_perks q) { b.implements_with<drv_feat>(a, p, q); }
void drv_b_impl_f(B& b, builder_perks p, builder_perks q) { b.implements<drv_feat>(p, q); }
void drv_b_rule(B& b, const mutation_rule_info& r) { b.adds_mutation_rule(r); }
void drv_b_rule_n(B& b, compat::pmr::string n, mutation_rule_info::apply_func f, uintptr_t u, builder_perks p) { b.adds_mutation_rule(std::move(n), f, u, p); }
void drv_b_rule_f(B& b, mutation_rule_info::apply_func f, uintptr_t u, builder_perks p) { b.adds_mutation_rule(f, u, p); }
void drv_b_onmut(B& b, builder_perks p, uintptr_t u) { b.on_mutation(util::builder_literals::attaches_to<drv_a>(), p, u); }
void drv_b_onmut2(B& b, builder_perks p, uintptr_t u) { b.on_mutation(util::builder_literals::also_adds<drv_a>(), p, u); }
void drv_b_noop(B& b) { b.noop(1); }
util::mixin_info_data& drv_b_data(B& b) { return b.get_data(); }
builder_perks drv_p_neg(builder_perks p) { return -p; }
builder_perks drv_p_bid(int b) { return util::builder_literals::feature_bid(b); }
builder_perks drv_p_pri(int b) { return util::builder_literals::order_priority(b); }
builder_perks drv_p_both(int b, int p) { return util::builder_literals::feature_bid_priority(b, p); }
builder_perks drv_p_lb(unsigned long long b) { return util::builder_literals::operator""_bid(b); }
builder_perks drv_p_lp(unsigned long long b) { return util::builder_literals::operator""_prio(b); }
using FB = util::feature_info_data_builder;
void drv_f_ctor(util::feature_info_data& d, dnmx_sv n) { FB b(d, n); }
void drv_f_ctor2(util::feature_info_data& d, std::string_view n) { FB b(d, n); }
void drv_f_adopt(util::feature_info_data& d) { FB b(nullptr, d); }
void drv_f_name(FB& b, std::string_view n) { b.name(n); }
void drv_f_store(FB& b, std::string_view n) { b.store_name(n); }
void drv_f_def(FB& b, any a) { b.default_payload(a); }
void drv_f_by(FB& b, int& a) { b.default_payload_by(a); }
void drv_f_with(FB& b, int a) { b.default_payload_with(a); }
void drv_cfi(dnmx_sv n, bool c, dnmx_feature_payload p, void (*use)(feature_info&)) { common_feature_info i(n, c, p); use(i); }
void drv_cfi0(void (*use)(feature_info&)) { common_feature_info i; use(i); }
void drv_cmi(dnmx_sv n, void (*use)(mixin_info&)) { common_mixin_info i(n); use(i); }
void drv_cmi0(void (*use)(mixin_info&)) { common_mixin_info i; use(i); }
void drv_def_mixin_reg(util::mixin_info_data_builder<drv_m> b) { impl::mixin_info_data_instance<drv_dom, drv_m> i(b); }
void drv_def_mixin_dtor(impl::mixin_info_data_instance<drv_dom, drv_m>* p) { p->~mixin_info_data_instance(); }
void drv_def_tc(domain& d, const type_class& tc, bool (*f)()) { impl::registered_type_class_instance i(d, tc); f(); }
const domain* drv_dom_of(const mixin_info& i) { return domain_from_info(i); }
const mixin_info& drv_g_mixin() { return g::get_mixin_info<drv_m>(); }
domain& drv_g_dom() { return g::get_domain<drv_dom>(); }
const feature_info& drv_g_fs() { return g::get_feature_info_safe<drv_feat>(); }
// v1compat
struct drv_tag_mixin {}; const mixin_info& _dynamix_get_mixin_info(drv_tag_mixin*);
void drv_v_ctor_empty(util::mixin_info_data& d, dnmx_sv n) { v1compat::feature_parser<drv_tag_mixin> p(d, n); }
using FP = v1compat::feature_parser<drv_m>;
void drv_v_ctor(util::mixin_info_data& d, dnmx_sv n) { FP p(d, n); }
void drv_v_msg(FP& p) { p & (drv_feat*)nullptr; }
void drv_v_none(FP& p) { p & v1compat::none; }
void drv_v_ud(FP& p, uintptr_t u) { p & v1compat::user_data(u); }
void drv_v_bound(FP& p, v1compat::bound_impl b) { p & b; }
void drv_v_name(FP& p, std::string_view b) { p & v1compat::mixin_name(b); }
void drv_v_dep(FP& p, bool b) { p & v1compat::dependency_mixin(b); }
void drv_v_perks(FP& p, int b, int c) { p & v1compat::upriority(b, v1compat::bid(c, (drv_feat*)nullptr)); }
void drv_v_perks2(FP& p, int b, int c) { p & v1compat::bid(b, v1compat::priority(c, (drv_feat*)nullptr)); }
void drv_v_mand(v1compat::mandatory_mixin<drv_a>& r, type_mutation& m) { r.apply_to(m); }
void drv_v_depr(v1compat::deprecated_mixin<drv_a>& r, type_mutation& m) { r.apply_to(m); }
void drv_v_subst(v1compat::substitute_mixin<drv_a, drv_b>& r, type_mutation& m) { static_cast<v1compat::mutation_rule&>(r).apply_to(m); v1compat::substitute_mixin<drv_a, drv_b> x; }
void drv_v_os(v1compat::dependent_mixins_oneshot& r) { r.set_master<drv_a>(); r.add<drv_b>(); }
void drv_v_dp(v1compat::dependent_mixins_dep& r, const mixin_info& i) { r.set_master<drv_a>(); r.add(i); }
bool drv_v_impl(v1compat::object& o) { return o.implements((drv_feat*)nullptr); }
bool drv_v_isa(v1compat::object& o) { return o.is_a<drv_tc>(); }
v1compat::object* drv_v_of(void* m) { return v1compat::object::of(m); }
const v1compat::object* drv_v_ofc(const void* m) { return v1compat::object::of(m); }
