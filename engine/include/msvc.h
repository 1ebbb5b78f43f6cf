/* The library as Microsoft's compiler sees it on x64: its own predefined names, no GNU extensions. */
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <limits.h>
#include <immintrin.h>
#include <nmmintrin.h>
#undef _xgetbv
#undef __GNUC__
#undef __clang__
#undef __x86_64__
#define _M_X64 100
#define _MSC_VER 1930
#define __forceinline inline __attribute__((always_inline))
