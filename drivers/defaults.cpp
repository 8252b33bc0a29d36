// calls which leave arguments to their defaults; the name carries the properties concerned
#include <dynamix/domain.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_mutation.hpp>
#include <dynamix/object_mutation_funcs.hpp>
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/feature_info_data.hpp>
#include <dynamix/common_feature_info.hpp>
#include <dynamix/dbg_dmp.hpp>
#include <dynamix/v1compat/type_class.hpp>
#include <new>
using namespace dynamix;
void drv_C59_C64_domain0(void* p) { new (p) domain(); }
void drv_C59_domain1(void* p, std::string_view n) { new (p) domain(n); }
void drv_C59_domain2(void* p, std::string_view n, domain_settings s) { new (p) domain(n, s); }
void drv_C59_domain3(void* p, std::string_view n, domain_settings s, uintptr_t u) { new (p) domain(n, s, u); }
void drv_C59_domain4(void* p, std::string_view n, domain_settings s, uintptr_t u, void* c) { new (p) domain(n, s, u, c); }
bool drv_C59_settings0() { domain_settings s = {}; return s.canonicalize_types; }
bool drv_C59_settings1() { domain_settings s = {}; return s.allow_duplicate_mixin_names; }
bool drv_C59_settings2() { domain_settings s = {}; return s.allow_duplicate_feature_names; }
void drv_C42_C58_tm_domain(void* p, domain& d) { new (p) type_mutation(d); }
void drv_C42_C58_tm_type(void* p, const type& t) { new (p) type_mutation(t); }
void drv_C24_C30_C58_obj_domain(void* p, domain& d) { new (p) object(d); }
void drv_C24_C30_C58_obj_type(void* p, const type& t) { new (p) object(t); }
void drv_C24_obj_type1(void* p, const type& t, const allocator& a) { new (p) object(t, a); }
object drv_C27_C58_obj_copy(const object& o) { return o.copy(); }
void drv_C28_obj_move_matching(object& o, object& p) { o.move_matching_from(p); }
void drv_C20_C31_om_default(object_mutation& m) { m.default_construct_each_new_mixin(); }
struct dfn { void operator()(init_new_args a); };
struct duc { void operator()(update_common_args a); };
void drv_C20_C31_om_each(object_mutation& m, dfn& f, duc& u) { m.update_each_mixin(f, u); }
void drv_C20_C31_om_new(object_mutation& m, dfn& f) { m.construct_each_new_mixin(f); }
void drv_C38_C58_mid(void* p) { new (p) util::mixin_info_data(); }
void drv_C38_C58_fid(void* p) { new (p) util::feature_info_data(); }
using B0 = util::mixin_info_data_builder<>;
void drv_C38_C44_rule2(B0& b, mutation_rule_info::apply_func f) { b.adds_mutation_rule(f); }
void drv_C38_C44_rule3(B0& b, compat::pmr::string& n, mutation_rule_info::apply_func f) { b.adds_mutation_rule(n, f); }
void drv_C38_C44_rule4(B0& b, mutation_rule_info::apply_func f, uintptr_t u) { b.adds_mutation_rule(f, u); }
void drv_C38_C41_pl(B0& b, const feature_info& i, any& a) { b.implements_with_payload(i, a); }
void drv_C38_C41_by(B0& b, const feature_info& i, int& a) { b.implements_by(i, a); }
void drv_C38_C41_with(B0& b, const feature_info& i, int a) { b.implements_with(i, a); }
void drv_C52_fi1(dnmx_sv n, void (*use)(feature_info&)) { common_feature_info i(n); use(i); }
void drv_C52_fi2(dnmx_sv n, bool c, void (*use)(feature_info&)) { common_feature_info i(n, c); use(i); }
