/* The library as a compiler that is neither GCC nor Clang sees it: no inline assembly. */
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <limits.h>
#if defined(__ARM_NEON__) || defined(__ARM_NEON)
#include <arm_neon.h>
#endif
#undef __GNUC__
#undef __clang__
