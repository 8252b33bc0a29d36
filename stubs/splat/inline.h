#pragma once
#if !defined(FORCE_INLINE)
#define FORCE_INLINE inline
#endif
#define NEVER_INLINE __attribute__((noinline))
