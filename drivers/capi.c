// the C view of the public headers
#include <dnmx/api.h>
#include <dnmx/basic_domain.h>
#include <dnmx/basic_object.h>
#include <dnmx/basic_type.h>
#include <dnmx/domain.h>
#include <dnmx/domain_handle.h>
#include <dnmx/domain_settings.h>
#include <dnmx/error_return.h>
#include <dnmx/feature_for_mixin.h>
#include <dnmx/feature_id.h>
#include <dnmx/feature_info.h>
#include <dnmx/feature_payload.h>
#include <dnmx/mixin_allocator.h>
#include <dnmx/mixin_allocator_handle.h>
#include <dnmx/mixin_common_funcs.h>
#include <dnmx/mixin_id.h>
#include <dnmx/mixin_index.h>
#include <dnmx/mixin_info.h>
#include <dnmx/mixin_info_util.h>
#include <dnmx/mutate.h>
#include <dnmx/mutation_rule_info.h>
#include <dnmx/object.h>
#include <dnmx/object_handle.h>
#include <dnmx/object_mixin_data.h>
#include <dnmx/size.h>
#include <dnmx/type.h>
#include <dnmx/type_class.h>
#include <dnmx/type_handle.h>
#include <dnmx/type_mutation.h>
#include <dnmx/type_mutation_handle.h>

// uses of the macros of the C headers
typedef struct drv_cmixin { int a; char b[40]; } drv_cmixin;
dnmx_sv drvc_lit(void) { return dnmx_make_sv_lit("asdf"); }
dnmx_sv drvc_lit0(void) { return dnmx_make_sv_lit(""); }
void drvc_common_mi(dnmx_mixin_info* i) { DNMX_COMMON_INIT_MI(*i, drv_cmixin); }
void drvc_empty_mi(dnmx_mixin_info* i) { DNMX_COMMON_INIT_EMPTY_MI(*i, "nothing"); }
dnmx_mixin_info drvc_make_mi(void) { return dnmx_make_mixin_info(); }
dnmx_feature_info drvc_make_fi(void) { return dnmx_make_feature_info(); }
dnmx_id_int_t drvc_inv_id(void) { return dnmx_invalid_id; }
dnmx_mixin_index_t drvc_inv_idx(void) { return dnmx_invalid_mixin_index; }
dnmx_byte_size_t drvc_ptr(void) { return dnmx_sizeof_ptr; }
dnmx_error_return_t drvc_ok(void) { return dnmx_result_success; }
dnmx_ftable_entry drvc_ft(const struct dnmx_basic_type* t, dnmx_feature_id i) { return dnmx_ftable_at(t, i); }
