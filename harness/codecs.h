// Every public compressor with its decompressor. ids are stable: lib/codecs.py lists the same names in the same order.
#ifndef codecs_h__
#define codecs_h__
#include "rle.h"
#include "simd_platform.h"
#include "vp.h"
typedef uint32_t (*codec_fn)(const uint8_t *, const uint32_t, uint8_t *, const uint32_t);
typedef uint32_t (*bounds_fn)(const uint32_t);
typedef struct { codec_fn c, d; bounds_fn b; } codec_t;
#define CB(n) { n ## _compress, n ## _decompress, rle_compress_bounds }
#define CG(n) { n ## _compress_greedy, n ## _decompress, rle_compress_bounds }
#define CN(N) CB(rle ## N ## _sym), CB(rle ## N ## _byte), CB(rle ## N ## _sym_packed), CB(rle ## N ## _byte_packed)
#define CX(N) CB(rle ## N ## _3symlut_sym), CB(rle ## N ## _3symlut_byte), CB(rle ## N ## _7symlut_sym), CB(rle ## N ## _7symlut_byte)
#define CS(N) CB(rle ## N ## _sym_short), CB(rle ## N ## _byte_short), CB(rle ## N ## _1symlut_sym_short), CB(rle ## N ## _1symlut_byte_short), CG(rle ## N ## _1symlut_byte_short), CB(rle ## N ## _3symlut_sym_short), CB(rle ## N ## _3symlut_byte_short), CG(rle ## N ## _3symlut_byte_short), CB(rle ## N ## _7symlut_sym_short), CB(rle ## N ## _7symlut_byte_short), CG(rle ## N ## _7symlut_byte_short)
static const codec_t codecs[] = {
  { rle8_multi_compress, rle8_decompress, rle_compress_bounds }, { rle8_single_compress, rle8_decompress, rle_compress_bounds },
  { rle8_packed_multi_compress, rle8_packed_decompress, rle_compress_bounds }, { rle8_packed_single_compress, rle8_packed_decompress, rle_compress_bounds },
  CB(rle8_multi_short), CB(rle8_single_short), CB(rle8_1symlut_short), CB(rle8_3symlut), CB(rle8_3symlut_short), CB(rle8_7symlut), CB(rle8_7symlut_short),
  CN(16), CN(24), CN(32), CN(48), CN(64), CN(128),
  CX(16), CX(24), CX(32), CX(48), CX(64),
  CS(16), CS(24), CS(32), CS(48), CS(64),
  { rle8_sh_compress, rle8_sh_decompress, rle8_sh_bounds },
  { rle8_mmtf128_compress, rle8_mmtf128_decompress, rle8_mmtf128_compress_bounds },
  { rle8_low_entropy_compress, rle8_low_entropy_decompress, rle8_low_entropy_compress_bounds }, { rle8_low_entropy_compress_only_max_frequency, rle8_low_entropy_decompress, rle8_low_entropy_compress_bounds },
  { rle8_low_entropy_short_compress, rle8_low_entropy_short_decompress, rle8_low_entropy_short_compress_bounds }, { rle8_low_entropy_short_compress_only_max_frequency, rle8_low_entropy_short_decompress, rle8_low_entropy_short_compress_bounds },
};
#define NCODECS (sizeof(codecs) / sizeof(codecs[0]))

// instruction-set levels: 0 none, 1 SSE2, 2 SSSE3, 3 SSE4.1, 4 AVX, 5 AVX2, 6 AVX-512
#ifdef VP_NATIVE
void vp_need(uint32_t l);
#endif
static void set_level(uint32_t l) {
#ifdef VP_NATIVE
  vp_need(l);
#endif
  _CpuFeaturesDetected = true;
  sseSupported = sse2Supported = l >= 1; sse3Supported = ssse3Supported = l >= 2; sse41Supported = sse42Supported = l >= 3; avxSupported = l >= 4; avx2Supported = l >= 5;
  avx512FSupported = avx512BWSupported = avx512DQSupported = avx512VLSupported = avx512CDSupported = l >= 6;
}
#endif
