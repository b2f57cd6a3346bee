// Checks the engine's models of instructions against scalar definitions, for symbolic operands.
#include "../harness/vp.h"
#include <immintrin.h>
#include <stdlib.h>
#define T __attribute__((target("avx2")))
T void h_intrin(void) {
  uint8_t *x = vp_buf(1, 32, 0, 0, 0), *y = vp_buf(2, 32, 0, 0, 0), *o = vp_buf(3, 64, 0, 0, 0), *r = vp_buf(4, 64, 0, 0, 0);
  vp_sym(x, 32); vp_sym(y, 32);
  const int k = (int)vp_param(0); int n = 32;
  const __m256i a = _mm256_loadu_si256((__m256i *)x), b = _mm256_loadu_si256((__m256i *)y); __m256i v = a;
  uint16_t *x16 = (uint16_t *)x, *r16 = (uint16_t *)r; uint32_t *x32 = (uint32_t *)x, *r32 = (uint32_t *)r; uint64_t *x64 = (uint64_t *)x, *r64 = (uint64_t *)r;
  volatile int sh3 = 3, sh20 = 20;
  switch (k) {
  case 0: v = _mm256_slli_epi16(a, sh3); for (int i = 0; i < 16; i++) r16[i] = x16[i] << 3; break;
  case 1: v = _mm256_srli_epi32(a, sh20); for (int i = 0; i < 8; i++) r32[i] = x32[i] >> 20; break;
  case 2: v = _mm256_srai_epi16(a, sh20); for (int i = 0; i < 16; i++) r16[i] = (int16_t)x16[i] < 0 ? 0xffff : 0; break;
  case 3: v = _mm256_sll_epi64(a, _mm_cvtsi32_si128(sh20)); for (int i = 0; i < 4; i++) r64[i] = x64[i] << 20; break;
  case 4: v = _mm256_srl_epi16(a, _mm_set1_epi64x(sh20)); for (int i = 0; i < 16; i++) r16[i] = 0; break;
  case 5: v = _mm256_sad_epu8(a, b); for (int i = 0; i < 4; i++) { uint64_t s = 0; for (int j = 0; j < 8; j++) { int d = x[8 * i + j] - y[8 * i + j]; s += d < 0 ? -d : d; } r64[i] = s; } break;
  case 6: v = _mm256_avg_epu8(a, b); for (int i = 0; i < 32; i++) r[i] = (x[i] + y[i] + 1) >> 1; break;
  case 7: { uint32_t z = __builtin_bitreverse32(x32[0]); uint32_t w = 0; for (int i = 0; i < 32; i++) w |= ((x32[0] >> i) & 1) << (31 - i); n = 4; memcpy(o, &z, 4); memcpy(r, &w, 4); goto cmp; }
  case 8: { int32_t s; int p = __builtin_sadd_overflow((int)x32[0], (int)x32[1], &s); int64_t q = (int64_t)(int)x32[0] + (int)x32[1]; vp_check(p == (q != (int32_t)q), "sadd"); p = __builtin_ssub_overflow((int)x32[0], (int)x32[1], &s); q = (int64_t)(int)x32[0] - (int)x32[1]; vp_check(p == (q != (int32_t)q), "ssub"); return; }
  case 9: { uint8_t *p = malloc(8); for (int i = 0; i < 8; i++) p[i] = x[i]; p = realloc(p, 16); vp_check(p[7] == x[7] && p[0] == x[0], "realloc"); free(p); return; }
  case 10: v = _mm256_adds_epu8(a, b); for (int i = 0; i < 32; i++) r[i] = x[i] + y[i] > 255 ? 255 : x[i] + y[i]; break;
  case 11: v = _mm256_packus_epi16(a, b); for (int h = 0; h < 2; h++) for (int s = 0; s < 2; s++) for (int i = 0; i < 8; i++) { int16_t t = ((int16_t *)(s ? y : x))[h * 8 + i]; r[h * 16 + s * 8 + i] = t < 0 ? 0 : t > 255 ? 255 : t; } break;
  case 12: v = _mm256_blendv_epi8(a, b, _mm256_cmpeq_epi8(a, b)); memcpy(r, x, 32); break;
  case 13: v = _mm256_min_epi8(a, b); for (int i = 0; i < 32; i++) r[i] = (int8_t)x[i] < (int8_t)y[i] ? x[i] : y[i]; break;
  case 14: v = _mm256_madd_epi16(a, b); for (int i = 0; i < 8; i++) r32[i] = (int16_t)x16[2 * i] * (int16_t)((uint16_t *)y)[2 * i] + (int16_t)x16[2 * i + 1] * (int16_t)((uint16_t *)y)[2 * i + 1]; break;
  case 15: v = _mm256_subs_epi8(a, b); for (int i = 0; i < 32; i++) { int t = (int8_t)x[i] - (int8_t)y[i]; r[i] = t < -128 ? 128 : t > 127 ? 127 : t; } break;
  case 16: { uint32_t z = x32[0] << 7 | x32[0] >> 25; vp_check((z >> 7 | z << 25) == x32[0], "rot"); return; }
  case 19: v = _mm256_permutevar8x32_epi32(a, _mm256_setr_epi32(7, 6, 5, 4, 3, 2, 1, sh3 - 3)); for (int i = 0; i < 8; i++) r32[i] = x32[7 - i]; break;
  case 20: v = _mm256_srlv_epi32(a, _mm256_set1_epi32(sh20)); for (int i = 0; i < 8; i++) r32[i] = x32[i] >> 20; break;
  case 23: _mm256_maskstore_epi32((int *)o, _mm256_setr_epi32(-1, -1, -1, -1, -1, -1, -1, -1), _mm256_maskload_epi32((int *)x, _mm256_set1_epi32(-1))); memcpy(r, x, 32); goto cmp;
  case 24: v = _mm256_mulhi_epu16(a, b); for (int i = 0; i < 16; i++) r16[i] = ((uint32_t)x16[i] * ((uint16_t *)y)[i]) >> 16; break;
  default: return;
  }
  _mm256_storeu_si256((__m256i *)o, v);
cmp:
  vp_equal(o, r, n, "intrinsic");
}
