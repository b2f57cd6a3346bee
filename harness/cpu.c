#include "simd_platform.h"
#include "vp.h"
// CPU feature detection against the architectural definition, for every answer of cpuid / xgetbv.
// leaf(l, r) / xcr0() return the very answers the code under test gets (engine: same symbolic variables).
#ifdef VP_NATIVE
uint32_t vp_cpuid(uint32_t leaf, uint32_t reg); // reg 0 eax, 1 ebx, 2 ecx, 3 edx
uint64_t vp_xgetbv(uint32_t i);
#define vp_xcr0() ((uint32_t)vp_xgetbv(0))
#else
#include <cpuid.h>
static uint32_t vp_cpuid(uint32_t leaf, uint32_t reg) { uint32_t r[4]; __cpuid_count(leaf, 0, r[0], r[1], r[2], r[3]); return r[reg]; }
#define vp_xcr0() ((uint32_t)_xgetbv(0))
#endif
void h_cpu(void) {
  _DetectCPUFeatures();
  const int32_t maxLeaf = (int32_t)vp_cpuid(0, 0);
  const bool l1 = maxLeaf >= 1, l7 = maxLeaf >= 7;
  const uint32_t c1 = l1 ? vp_cpuid(1, 2) : 0, d1 = l1 ? vp_cpuid(1, 3) : 0, b7 = l7 ? vp_cpuid(7, 1) : 0, c7 = l7 ? vp_cpuid(7, 2) : 0, d7 = l7 ? vp_cpuid(7, 3) : 0;
  const bool os = l1 && (c1 >> 27 & 1) && (c1 >> 28 & 1); const uint32_t x = os ? vp_xcr0() : 0;
  const bool avx = os && (x & 6) == 6, os512 = os && (x & 0xE6) == 0xE6;
  const struct { bool *f; bool may; const char *n; } t[] = {
    { &sseSupported, d1 >> 25 & 1, "SSE reported without support" }, { &sse2Supported, d1 >> 26 & 1, "SSE2 reported without support" }, { &sse3Supported, c1 & 1, "SSE3 reported without support" }, { &ssse3Supported, c1 >> 9 & 1, "SSSE3 reported without support" },
    { &sse41Supported, c1 >> 19 & 1, "SSE4.1 reported without support" }, { &sse42Supported, c1 >> 20 & 1, "SSE4.2 reported without support" }, { &avxSupported, avx, "AVX reported without CPU and OS support" }, { &avx2Supported, avx && (b7 >> 5 & 1), "AVX2 reported without CPU and OS support" },
    { &fma3Supported, avx && (c1 >> 12 & 1), "FMA3 reported without CPU and OS support" }, { &aesNiSupported, c1 >> 25 & 1, "AES-NI reported without support" },
    { &avx512FSupported, os512 && (b7 >> 16 & 1), "AVX-512F reported without CPU and OS support" }, { &avx512PFSupported, os512 && (b7 >> 26 & 1), "AVX-512PF reported without CPU and OS support" }, { &avx512ERSupported, os512 && (b7 >> 27 & 1), "AVX-512ER reported without CPU and OS support" },
    { &avx512CDSupported, os512 && (b7 >> 28 & 1), "AVX-512CD reported without CPU and OS support" }, { &avx512BWSupported, os512 && (b7 >> 30 & 1), "AVX-512BW reported without CPU and OS support" }, { &avx512DQSupported, os512 && (b7 >> 17 & 1), "AVX-512DQ reported without CPU and OS support" },
    { &avx512VLSupported, os512 && (b7 >> 31 & 1), "AVX-512VL reported without CPU and OS support" }, { &avx512IFMASupported, os512 && (b7 >> 21 & 1), "AVX-512IFMA reported without CPU and OS support" }, { &avx512VBMISupported, os512 && (c7 >> 1 & 1), "AVX-512VBMI reported without CPU and OS support" },
    { &avx512VNNISupported, os512 && (c7 >> 11 & 1), "AVX-512VNNI reported without CPU and OS support" }, { &avx512VBMI2Supported, os512 && (c7 >> 6 & 1), "AVX-512VBMI2 reported without CPU and OS support" }, { &avx512POPCNTDQSupported, os512 && (c7 >> 14 & 1), "AVX-512VPOPCNTDQ reported without CPU and OS support" },
    { &avx512BITALGSupported, os512 && (c7 >> 12 & 1), "AVX-512BITALG reported without CPU and OS support" }, { &avx5124VNNIWSupported, os512 && (d7 >> 2 & 1), "AVX-512-4VNNIW reported without CPU and OS support" }, { &avx5124FMAPSSupported, os512 && (d7 >> 3 & 1), "AVX-512-4FMAPS reported without CPU and OS support" },
  };
  for (uint32_t i = 0; i < sizeof(t) / sizeof(t[0]); i++) vp_check(!*t[i].f | t[i].may, t[i].n);
  // and nothing usable is withheld (the instruction sets the codecs dispatch on)
  vp_check(sse2Supported | !(d1 >> 26 & 1), "SSE2 not reported"); vp_check(ssse3Supported | !(c1 >> 9 & 1), "SSSE3 not reported"); vp_check(sse41Supported | !(c1 >> 19 & 1), "SSE4.1 not reported");
  vp_check(avxSupported | !avx, "AVX not reported"); vp_check(avx2Supported | !(avx && (b7 >> 5 & 1)), "AVX2 not reported"); vp_check(avx512FSupported | !(os512 && (b7 >> 16 & 1)), "AVX-512F not reported");
  vp_check(_CpuFeaturesDetected, "detection does not complete");
  const bool before[4] = { sse2Supported, avxSupported, avx2Supported, avx512FSupported };
  _DetectCPUFeatures();
  vp_check((before[0] == sse2Supported) & (before[1] == avxSupported) & (before[2] == avx2Supported) & (before[3] == avx512FSupported), "detection is not idempotent");
  vp_cover("cpu");
}
// an override made after the detection (the CLI's --max-simd) survives further calls
void h_cpu_override(void) {
  _DetectCPUFeatures(); avx2Supported = avxSupported = avx512FSupported = sse41Supported = false; _DetectCPUFeatures();
  vp_check(!(avx2Supported | avxSupported | avx512FSupported | sse41Supported), "a disabled instruction set was enabled again");
  vp_cover("cpu_override");
}
