#pragma once
#define PRAGMA_WARNING_PUSH
#define PRAGMA_WARNING_POP
#define DISABLE_MSVC_WARNING(n)
#define DISABLE_GCC_WARNING(n)
#define DISABLE_CLANG_WARNING(n)
#define DISABLE_GCC_AND_CLANG_WARNING(n)
