#include "codecs.h"
#include "gen.h"
// Calls are independent of each other: a second call (on other buffers, at any point between two accesses to shared state: the
// symbolic schedule variable) neither disturbs the first one nor is disturbed by it.
enum { PC = 0, PENC = 1, PDEC = 2, PIA = 3, POA = 4, PTAIL = 5, PX = 6, PY = 7, PGEN = 8 };
#define EXTRA (rle_decompress_additional_size())
static uint32_t same(const uint32_t n) { return n; }
static uint32_t rle8m_c(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return rle8m_compress(n > 3 ? 3 : 1, i, n, o, m); }
static uint32_t rle8m_b(const uint32_t n) { return rle8m_compress_bounds(3, n); }
static codec_t op(uint32_t i) {
  const codec_t more[] = { { mmtf128_encode, mmtf128_decode, same }, { mmtf256_encode, mmtf256_decode, same }, { bitmmtf8_encode, bitmmtf8_decode, same }, { bitmmtf16_encode, bitmmtf16_decode, same }, { rle8m_c, rle8m_decompress, rle8m_b } };
  return i < NCODECS ? codecs[i] : more[i - NCODECS];
}
typedef struct { codec_t c; uint8_t *in, *stream, *comp, *out; uint32_t n, cap, size; } call_t;
static call_t vp_other;
static void prepare(call_t *t, uint32_t codec, uint32_t id, uint32_t n) {
  t->c = op(codec); t->n = n; t->cap = t->c.b(n);
  t->stream = vp_buf(id + 1, t->cap, 0, 64, 4096 + n / 16); t->comp = vp_buf(id + 2, t->cap, 0, 64, 4096 + n / 16); t->out = vp_buf(id + 3, n + EXTRA, 0, 64, 4096);
  t->size = t->c.c(t->in, n, t->stream, t->cap); vp_check(t->size != 0, "compression failed");
}
static void compress(const call_t *t, const char *m) {
  const uint32_t r = t->c.c(t->in, t->n, t->comp, t->cap);
  vp_check(r == t->size, m); vp_equal(t->comp, t->stream, t->size, m);
}
static void decompress(const call_t *t, const char *m) {
  const uint32_t r = t->c.d(t->stream, t->size, t->out, t->n + EXTRA);
  vp_check(r == t->n, m); vp_equal(t->out, t->in, t->n, m);
}
static void other(void) { compress(&vp_other, "a compressor is disturbed by a call that was interrupted"); decompress(&vp_other, "a decompressor is disturbed by a call that was interrupted"); }
void h_conc(void) {
  call_t a; const uint32_t n = gen_len(PGEN), m = 181; uint32_t schedule; static const uint8_t first[8] = { 9, 200, 3, 77, 0, 255, 128, 31 };
  set_level((uint32_t)vp_param(PENC));
  a.in = vp_buf(0, n, 0, 64, 256); gen(a.in, PGEN); memset(a.in + n, 0, 256); vp_readonly(a.in, true);
  vp_other.in = vp_buf(10, m, 0, 64, 256); memset(vp_other.in, 0x3C, m + 256); memcpy(vp_other.in, first, 8); memcpy(vp_other.in + 100, first, 8); memset(vp_other.in + 120, 0xE1, 40); vp_readonly(vp_other.in, true);
  prepare(&a, (uint32_t)vp_param(PC), 0, n); prepare(&vp_other, (uint32_t)vp_param(PX), 10, m);
  vp_sym(&schedule, 4);
  vp_readonly(a.stream, vp_param(PY) != 0);
  vp_preempt(other, schedule);
  if (vp_param(PY)) decompress(&a, "a decompressor is disturbed by another call"); else compress(&a, "a compressor is disturbed by another call");
  vp_preempt(NULL, 0);
  vp_cover("conc");
}

// feature detection: a second caller that arrives at any point finds no set enabled that is not supported, and all of the
// supported ones once its own call to the detection has returned
#ifdef VP_NATIVE
uint32_t vp_cpuid(uint32_t leaf, uint32_t reg);
uint64_t vp_xgetbv(uint32_t i);
#define vp_xcr0() ((uint32_t)vp_xgetbv(0))
#else
#include <cpuid.h>
static uint32_t vp_cpuid(uint32_t leaf, uint32_t reg) { uint32_t r[4]; __cpuid_count(leaf, 0, r[0], r[1], r[2], r[3]); return r[reg]; }
#define vp_xcr0() ((uint32_t)_xgetbv(0))
#endif
static void flags(bool exact) {
  const int32_t maxLeaf = (int32_t)vp_cpuid(0, 0); const bool l1 = maxLeaf >= 1, l7 = maxLeaf >= 7;
  const uint32_t c1 = l1 ? vp_cpuid(1, 2) : 0, d1 = l1 ? vp_cpuid(1, 3) : 0, b7 = l7 ? vp_cpuid(7, 1) : 0;
  const bool os = l1 && (c1 >> 27 & 1) && (c1 >> 28 & 1); const uint32_t x = os ? vp_xcr0() : 0; const bool avx = os && (x & 6) == 6, os512 = os && (x & 0xE6) == 0xE6;
  const bool may[] = { d1 >> 26 & 1, c1 >> 9 & 1, c1 >> 19 & 1, avx, avx && (b7 >> 5 & 1), os512 && (b7 >> 16 & 1), os512 && (b7 >> 30 & 1) }, is[] = { sse2Supported, ssse3Supported, sse41Supported, avxSupported, avx2Supported, avx512FSupported, avx512BWSupported };
  for (uint32_t i = 0; i < 7; i++) { vp_check(!is[i] | may[i], "an instruction set is enabled that is not supported (seen by a concurrent caller)"); if (exact) vp_check(is[i] | !may[i], "the detection has returned before a supported instruction set was found (concurrent caller)"); }
}
static void second(void) { flags(false); _DetectCPUFeatures(); flags(true); }
void h_conc_detect(void) {
  uint32_t schedule; vp_sym(&schedule, 4);
  vp_preempt(second, schedule);
  _DetectCPUFeatures();
  vp_preempt(NULL, 0);
  flags(true); vp_cover("conc_detect");
}
