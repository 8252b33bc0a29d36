// uses of the macros of the C++ headers
#include <dynamix/declare_domain.hpp>
#include <dynamix/define_domain.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/define_mixin.hpp>
#include <dynamix/declare_type_class.hpp>
#include <dynamix/define_type_class.hpp>
#include <dynamix/dm_this.hpp>
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/msg/define_msg.hpp>
#include <dynamix/msg/func_traits.hpp>
#include <dynamix/msg/next_impl.hpp>
#include <dynamix/v1compat/type_class.hpp>
#include <dynamix/v1compat/define_mixin.hpp>
#include <dynamix/v1compat/declare_mixin.hpp>
#include <dynamix/v1compat/next_bidder.hpp>
#include <dynamix/v1compat/domain.hpp>
#include <dynamix/v1compat/object.hpp>
#include <dynamix/v1compat/mutate.hpp>
#include <dynamix/domain.hpp>
#include <dynamix/object.hpp>
#include <dynamix/type.hpp>
using namespace dynamix;
struct drv_mdom; struct drv_mdom2;
DYNAMIX_DECLARE_DOMAIN(drv_mdom);
DYNAMIX_DEFINE_DOMAIN(drv_mdom, "macro domain");
DYNAMIX_DECLARE_MSG(mm_uni, mmu, int, (object&, int))
DYNAMIX_DECLARE_MSG(mm_multi, mmm, void, (const object&, int&, int))
DYNAMIX_DECLARE_SIMPLE_MSG(mm_s, void(object&));
DYNAMIX_DECLARE_SIMPLE_MSG(mm_sm, int(const object&, int));
DYNAMIX_MAKE_FUNC_TRAITS(mmu);
DYNAMIX_MAKE_FUNC_TRAITS(mmm);
int mm_def(object&, int);
void mm_defm(const object&, int&, int);
DYNAMIX_DEFINE_MSG_EX(mm_uni, unicast, false, mm_def, mmu, int, (object&, int));
DYNAMIX_DEFINE_MSG_EX(mm_multi, multicast, true, mm_defm, mmm, void, (const object&, int&, int));
DYNAMIX_DEFINE_SIMPLE_MSG(mm_s, unicast);
DYNAMIX_DEFINE_SIMPLE_MSG_EX(mm_sm, multicast, false, nullptr);
DYNAMIX_DECLARE_MIXIN(class mm_mixin);
struct mm_v1u : mm_uni { static constexpr bool multicast = false; };
extern mm_v1u* mm_v1u_tag;
class mm_mixin { public:
  int mmu(int a) { if (DYNAMIX_HAS_NEXT_IMPL_MSG(mm_uni)) return DYNAMIX_CALL_NEXT_IMPL_MSG(mm_uni, a); return 0; }
  void mmm(int& a, int b) const { if (DYNAMIX_HAS_NEXT_BIDDER_SET(mm_multi)) DYNAMIX_CALL_NEXT_BIDDER_SET(mm_multi, a, b); }
  void mmt(int& a, int b) const { DYNAMIX_CALL_NEXT_BIDDER_TOP(mm_multi, a, b); }
  object* me() { return dm_this; }
  const object* me() const { return dm_this; }
  v1compat::object* me1() { return dm_v1_this; }
  bool v1h() { return DYNAMIX_V1_HAS_NEXT_BIDDER(mm_v1u_tag); }
  int v1c(int a) { return DYNAMIX_V1_CALL_NEXT_BIDDER(mm_v1u_tag, a); }
};
DYNAMIX_DEFINE_MIXIN(drv_mdom, mm_mixin).implements<mm_uni>(2_bid, 3_prio).implements<mm_multi>(1_prio);
class mm_v1mixin { public: int a; };
DYNAMIX_DECLARE_MIXIN(class mm_v1mixin);
DYNAMIX_V1_DEFINE_MIXIN(mm_v1mixin, v1compat::none);
DYNAMIX_V1_TYPE_CLASS(mm_tc);
DYNAMIX_V1_DEFINE_TYPE_CLASS(mm_tc) { return type.num_mixins() > 2; }
