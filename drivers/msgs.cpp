// instantiations of the message machinery with opaque arguments (analysed, never run)
#include <dynamix/declare_domain.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/msg/define_msg.hpp>
#include <dynamix/msg/func_traits.hpp>
#include <dynamix/msg/msg_traits.hpp>
#include <dynamix/msg/msg_caller.hpp>
#include <dynamix/msg/next_impl.hpp>
#include <dynamix/common_feature_info.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/v1compat/combinators.hpp>
#include <dynamix/v1compat/next_bidder.hpp>
using namespace dynamix;
struct mv { int v; mv(int); mv(const mv&); mv(mv&&) noexcept; ~mv(); };
class drv_a; class drv_b;
DYNAMIX_DECLARE_MIXIN(class drv_a);
DYNAMIX_DECLARE_MIXIN(class drv_b);
class drv_a { public: int a; int amsg(int x); void bmsg(int& x, mv y) const; };
struct comb { void set_num_results(size_t n); bool add_result(int r); };

int drv_uni(const feature_info& i, object& o, int a, mv b) { return msg_caller<object, int, int, mv>::call_unicast(i, o, std::move(a), std::move(b)); }
int drv_uni_c(const feature_info& i, const object& o, int& a) { return msg_caller<const object, int, int&>::call_unicast(i, o, a); }
void drv_uni_v(const feature_info& i, object& o) { msg_caller<object, void>::call_unicast(i, o); }
int drv_multi(const feature_info& i, object& o, int a, mv b) { return msg_caller<object, int, int, mv>::call_multicast(i, o, std::move(a), std::move(b)); }
void drv_multi_v(const feature_info& i, const object& o, int& a) { msg_caller<const object, void, int&>::call_multicast(i, o, a); }
void drv_comb(const feature_info& i, comb& c, object& o, int a, mv b) { msg_caller<object, int, int, mv>::call_with_v1_combinator(i, c, o, std::move(a), std::move(b)); }
void drv_comb_c(const feature_info& i, comb& c, const object& o) { msg_caller<const object, int>::call_with_v1_combinator(i, c, o); }
int drv_default(const feature_info& i, object& o, int a, mv b) { return msg_caller<object, int, int, mv>::try_default_payload(i, o, std::move(a), std::move(b)); }
int drv_call(const type::ftable_payload& p, object& o, int a, int& b) { return msg_caller<object, int, int, int&>::call(p, o, a, b); }

DYNAMIX_DECLARE_MSG(amsg_t, amsg, int, (object&, int))
DYNAMIX_DECLARE_MSG(bmsg_t, bmsg, void, (const object&, int&, mv))
DYNAMIX_DECLARE_SIMPLE_MSG(smsg_t, int(object&, int));
DYNAMIX_MAKE_FUNC_TRAITS(amsg);
DYNAMIX_MAKE_FUNC_TRAITS(bmsg);
static int smsg_default(object&, int);
DYNAMIX_DEFINE_MSG(amsg_t, unicast, amsg, int, (object&, int));
DYNAMIX_DEFINE_MSG_EX(bmsg_t, multicast, false, nullptr, bmsg, void, (const object&, int&, mv));
DYNAMIX_DEFINE_SIMPLE_MSG_EX(smsg_t, unicast, true, smsg_default);
static int smsg_default(object&, int a) { return a; }

any drv_payload_for_a(allocator al, drv_a* m) { return amsg_t::traits::make_payload_for(al, m); }
any drv_payload_for_b(allocator al, drv_a* m) { return bmsg_t::traits::make_payload_for(al, m); }
int drv_smsg_fn(drv_a*, int);
any drv_payload_by(allocator al, drv_a* m) { return smsg_t::traits::make_payload_by(al, m, drv_smsg_fn); }
int drv_smsg_vfn(void*, int);
any drv_payload_by_v(allocator al) { return smsg_t::traits::make_payload_by(al, (void*)nullptr, drv_smsg_vfn); }
int drv_traits_uni(object& o, int a) { return amsg_t::traits::call_unicast(o, a); }
int drv_traits_multi(object& o, int a) { return amsg_t::traits::call_multicast(o, a); }
void drv_traits_multi_b(const object& o, int& a, mv b) { bmsg_t::traits::call_multicast(o, a, std::move(b)); }

bool drv_has_next(drv_a* m) { return has_next_impl_msg<amsg_t>(m); }
bool drv_has_next_c(const drv_a* m) { return has_next_impl_msg<bmsg_t>(m); }
int drv_next(drv_a* m, int a) { return call_next_impl_msg<amsg_t>(m, a); }
void drv_next_c(const drv_a* m, int& a, mv b) { call_next_impl_msg<bmsg_t>(m, a, std::move(b)); }
bool drv_has_set(drv_a* m) { return has_next_bidder_set<amsg_t>(m); }
int drv_set(drv_a* m, int a) { return call_next_bidder_set<amsg_t>(m, a); }
void drv_set_c(const drv_a* m, int& a, mv b) { call_next_bidder_set<bmsg_t>(m, a, std::move(b)); }
int drv_top(drv_a* m, int a) { return call_next_bidder_top<amsg_t>(m, a); }
void drv_top_c(const drv_a* m, int& a, mv b) { call_next_bidder_top<bmsg_t>(m, a, std::move(b)); }

// v1 messages carry a multicast flag
struct v1u : amsg_t { static constexpr bool multicast = false; };
struct v1m : amsg_t { static constexpr bool multicast = true; };
bool drv_v1_has(drv_a* m) { return v1compat::has_next_bidder((v1u*)nullptr, m); }
bool drv_v1_hasm(drv_a* m) { return v1compat::has_next_bidder((v1m*)nullptr, m); }
int drv_v1_nextu(drv_a* m, int a) { return v1compat::call_next_bidder((v1u*)nullptr, m, a); }
int drv_v1_nextm(drv_a* m, int a) { return v1compat::call_next_bidder((v1m*)nullptr, m, a); }

template class v1compat::combinators::boolean_and<int>;
template class v1compat::combinators::boolean_or<int>;
template class v1compat::combinators::boolean_and<bool>;
template class v1compat::combinators::boolean_or<bool>;
template class v1compat::combinators::sum<int>;
template class v1compat::combinators::mean<int>;
template class v1compat::combinators::sum<double>;
template class v1compat::combinators::mean<double>;
int drv_comb_mean(const feature_info& i, object& o, int a) { v1compat::combinators::mean<int> c; msg_caller<object, int, int>::call_with_v1_combinator(i, c, o, std::move(a)); return c.result(); }
bool drv_comb_and(const feature_info& i, object& o, int a) { v1compat::combinators::boolean_and<int> c; msg_caller<object, int, int>::call_with_v1_combinator(i, c, o, std::move(a)); return c.result(); }
object* drv_obj_of(void* m) { return object_of(m); }
const object* drv_obj_of_c(const void* m) { return object_of(m); }
