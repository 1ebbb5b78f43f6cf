/* A machine word of 32 bits, for the concrete runs that stand for 32-bit big-endian machines. */
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#undef SIZE_MAX
#define SIZE_MAX UINT32_MAX
