// Force-included into the native replay build: cpuid and xgetbv return the counterexample's values.
#include <stdint.h>
#include <cpuid.h>
#include <x86intrin.h>
uint32_t vp_cpuid(uint32_t leaf, uint32_t reg);
uint64_t vp_xgetbv(uint32_t i);
#undef __cpuid
#undef __cpuid_count
#undef _xgetbv
#undef _XCR_XFEATURE_ENABLED_MASK
#define _XCR_XFEATURE_ENABLED_MASK 0
#define __cpuid(l, a, b, c, d) ((a) = vp_cpuid(l, 0), (b) = vp_cpuid(l, 1), (c) = vp_cpuid(l, 2), (d) = vp_cpuid(l, 3))
#define __cpuid_count(l, s, a, b, c, d) __cpuid(l, a, b, c, d)
#define _xgetbv(i) vp_xgetbv(i)
