/* What Microsoft's intrin.h offers and this library uses, in terms of the same instructions. */
#ifndef VERIF_INTRIN_H
#define VERIF_INTRIN_H
static inline void __cpuidex(int info[4], int leaf, int sub)
{
	unsigned int a, b, c, d;
	__asm__("cpuid" : "=a"(a), "=b"(b), "=c"(c), "=d"(d) : "0"(leaf), "2"(sub));
	info[0] = (int)a;
	info[1] = (int)b;
	info[2] = (int)c;
	info[3] = (int)d;
}
#define _xgetbv msvc_xgetbv
static inline unsigned long long _xgetbv(unsigned int index)
{
	unsigned int a, d;
	__asm__ __volatile__("xgetbv" : "=a"(a), "=d"(d) : "c"(index));
	return ((unsigned long long)d << 32) | a;
}
#define _byteswap_ulong(x) __builtin_bswap32(x)
#define _byteswap_uint64(x) __builtin_bswap64(x)
#endif
