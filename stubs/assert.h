/* records asserted preconditions instead of dropping them */
#undef assert
#ifdef __cplusplus
extern "C" void dmx_assert_(int) noexcept;
#define assert(e) dmx_assert_(static_cast<bool>(e))
#else
extern void dmx_assert_(int);
#define assert(e) dmx_assert_(!!(e))
#ifndef static_assert
#define static_assert _Static_assert
#endif
#endif
