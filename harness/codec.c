#include "codecs.h"
#include "gen.h"
enum { PC = 0, PENC = 1, PDEC = 2, PIA = 3, POA = 4, PTAIL = 5, PX = 6, PY = 7, PGEN = 8 };
#define EXTRA (rle_decompress_additional_size())
static uint32_t rd32(const uint8_t *p) { uint32_t v; memcpy(&v, p, 4); return v; }

// round trip: every decoder level restores the input, whatever lies behind the input and the stream
void h_roundtrip(void) {
  const codec_t c = codecs[vp_param(PC)]; const uint32_t n = gen_len(PGEN); const int64_t tail = vp_param(PTAIL);
  uint8_t *in = vp_buf(0, n, (uint32_t)vp_param(PIA), 64, 256), *ref = vp_buf(1, n, 0, 0, 0);
  gen(in, PGEN); memcpy(ref, in, n); if (tail >= 0) memset(in + n, (int)tail, 256);
  const uint32_t cap = c.b(n); uint8_t *comp = vp_buf(2, cap, 0, 64, 4096 + n / 16);
  set_level((uint32_t)vp_param(PENC));
  const uint32_t size = c.c(in, n, comp, cap);
  vp_check(size != 0, "compression of a non-empty input with sufficient capacity failed");
  vp_observe(&size, 4, "size"); vp_observe(comp, size, "stream");
  uint8_t *str = vp_buf(3, size, (uint32_t)vp_param(PIA), 64, 256); memcpy(str, comp, size);
  for (uint32_t l = 0; l < 7; l++) if (vp_param(PDEC) >> l & 1) {
    set_level(l);
    uint8_t *out = vp_buf(4 + l, n + EXTRA, (uint32_t)vp_param(POA), 64, 4096);
    const uint32_t r = c.d(str, size, out, n + EXTRA);
    vp_check(r == n, "decompressor returned a wrong size");
    vp_equal(out, ref, n, "decompressed data differs from the input");
  }
  vp_cover("roundtrip");
}

// capacity: with exactly the advertised capacity, the compressor never writes outside of it and the stream fits
void h_bounds(void) {
  const codec_t c = codecs[vp_param(PC)]; const uint32_t n = gen_len(PGEN);
  uint8_t *in = vp_buf(0, n, (uint32_t)vp_param(PIA), 64, 256); gen(in, PGEN);
  const uint32_t cap = c.b(n) + (uint32_t)vp_param(PX); vp_check(cap > n, "advertised capacity is smaller than the input");
  uint8_t *comp = vp_buf(2, cap, (uint32_t)vp_param(POA), 0, 0);
  set_level((uint32_t)vp_param(PENC));
  const uint32_t size = c.c(in, n, comp, cap);
  vp_check(size != 0, "compression of a non-empty input with sufficient capacity failed");
  vp_check(size <= cap, "stream is larger than the advertised capacity");
  vp_observe(&size, 4, "size");
  vp_cover("bounds");
}

// decoder containment: only [out, out + size + additional) is written, and what lies behind the stream has no influence
void h_contain(void) {
  const codec_t c = codecs[vp_param(PC)]; const uint32_t n = gen_len(PGEN);
  uint8_t *in = vp_buf(0, n, (uint32_t)vp_param(PIA), 64, 256), *ref = vp_buf(1, n, 0, 0, 0);
  gen(in, PGEN); memcpy(ref, in, n); memset(in + n, 0, 256);
  const uint32_t cap = c.b(n); uint8_t *comp = vp_buf(2, cap, 0, 64, 4096 + n / 16);
  set_level((uint32_t)vp_param(PENC));
  const uint32_t size = c.c(in, n, comp, cap); vp_check(size != 0, "compression failed");
  uint8_t *str = vp_buf(3, size, (uint32_t)vp_param(PIA), 0, 256), *strRef = vp_buf(12, size, 0, 0, 0); memcpy(str, comp, size); memcpy(strRef, comp, size);
  for (uint32_t l = 0; l < 7; l++) if (vp_param(PDEC) >> l & 1) {
    set_level(l);
    uint8_t *out = vp_buf(4 + l, n + EXTRA, (uint32_t)vp_param(POA), 0, 0);
    const uint32_t r = c.d(str, size + (uint32_t)vp_param(PX), out, n + (vp_param(PY) ? 0 : EXTRA));
    vp_check(r == n, "decompressor returned a wrong size");
    vp_equal(out, ref, n, "decompressed data depends on bytes behind the stream");
  }
  vp_equal(str, strRef, size, "decompressor modified the stream");
  vp_cover("contain");
}

// headers and rejection. PX: which size is wrong (0: stream size, 1: output size, 2: header tampered)
static bool header_swapped(uint32_t ci) { return ci >= NCODECS - 4; } // low entropy codecs store the compressed size first
void h_header(void) {
  const uint32_t ci = (uint32_t)vp_param(PC); const codec_t c = codecs[ci]; const uint32_t n = gen_len(PGEN);
  uint8_t *in = vp_buf(0, n, 0, 64, 256); gen(in, PGEN); memset(in + n, 0, 256);
  const uint32_t cap = c.b(n); uint8_t *comp = vp_buf(2, cap, 0, 64, 4096 + n / 16);
  set_level((uint32_t)vp_param(PENC));
  const uint32_t size = c.c(in, n, comp, cap); vp_check(size != 0, "compression failed");
  const uint32_t hn = rd32(comp + (header_swapped(ci) ? 4 : 0)), hs = rd32(comp + (header_swapped(ci) ? 0 : 4));
  vp_check(hn == n, "stream header does not hold the uncompressed size");
  vp_check(hs == size, "stream header does not hold the compressed size");
  if (header_swapped(ci)) vp_check(rle8_low_entropy_decompressed_size(comp, size) == n, "rle8_low_entropy_decompressed_size is wrong");
  const uint32_t zero = 0; uint32_t inSize = size, outSize = n + EXTRA;
  uint8_t *str = vp_buf(3, size, 0, 64, 256); memcpy(str, comp, size);
  set_level((uint32_t)vp_param(PDEC));
  switch (vp_param(PX)) {
  case 0: vp_sym(&inSize, 4); vp_assume(inSize < size); vp_sym(&outSize, 4); break;
  case 1: vp_sym(&outSize, 4); vp_assume(outSize < n); vp_sym(&inSize, 4); vp_assume(inSize >= size); break;
  case 2: vp_sym(str, 8); vp_sym(&inSize, 4); vp_sym(&outSize, 4); { const uint32_t a = rd32(str + (header_swapped(ci) ? 4 : 0)), b = rd32(str + (header_swapped(ci) ? 0 : 4)); vp_assume((a > outSize) | (b > inSize)); } break;
  }
  (void)zero;
  uint8_t *out = vp_buf(5, n + EXTRA, 0, 64, 4096);
  const uint32_t r = c.d(str, inSize, out, outSize);
  vp_check(r == 0, "decompressor accepted a stream that its sizes rule out");
  vp_untouched(out - 64, n + EXTRA + 64 + 4096, "rejected stream but wrote to the output");
  vp_cover("header");
}

// refusal: every size/capacity combination below the advertised capacity is refused before any byte is touched
void h_refuse(void) {
  const codec_t c = codecs[vp_param(PC)]; uint32_t n, cap;
  set_level((uint32_t)vp_param(PENC));
  vp_sym(&n, 4); vp_sym(&cap, 4);
  uint8_t *in = vp_buf(0, 0, 0, 0, 0), *out = vp_buf(1, 0, 0, 0, 0);
  const uint32_t b = c.b(n);
  const bool nul = vp_param(PX) != 0;
  if (!nul) vp_assume((n == 0) | (b == 0) | (cap < b));
  vp_check((b == 0) | (b > n), "advertised capacity is not larger than the input");
  uint32_t r = 1;
  switch (vp_param(PX)) { case 0: r = c.c(in, n, out, cap); break; case 1: r = c.c(NULL, n, out, cap); break; case 2: r = c.c(in, n, NULL, cap); break; case 3: r = c.d(NULL, n, out, cap); break; case 4: r = c.d(in, n, NULL, cap); break; case 5: vp_assume((n == 0) | (cap == 0)); r = c.d(in, n, out, cap); break; }
  vp_check(r == 0, vp_param(PX) == 0 ? "compressor accepted a capacity below the advertised one" : "invalid arguments accepted");
  vp_cover("refuse");
}
// the advertised capacity never shrinks below what the largest accepted inputs need: monotone, and exceeds the input
void h_bounds_fn(void) {
  const codec_t c = codecs[vp_param(PC)]; uint32_t n; vp_sym(&n, 4); const uint32_t b = c.b(n);
  vp_check((b == 0) | ((b > n) & (b - n >= (uint32_t)vp_param(PX))), "advertised capacity wraps around or leaves no room for the stream header");
  vp_check((n > (1u << 30)) | (b != 0), "inputs up to 1 GiB are not supported");
  vp_observe(&b, 4, "bound"); vp_cover("bounds_fn");
}

// purity: the stream is a function of the input bytes alone
void h_pure(void) {
  const codec_t c = codecs[vp_param(PC)]; const uint32_t n = gen_len(PGEN); const uint32_t slack = (uint32_t)vp_param(PX);
  uint8_t *in = vp_buf(0, n, (uint32_t)vp_param(PIA), slack, slack), *in2 = vp_buf(1, n, (uint32_t)vp_param(POA), slack, slack), *ref = vp_buf(2, n, 0, 0, 0);
  gen(ref, PGEN); memcpy(in, ref, n); memcpy(in2, ref, n);
  if (vp_param(PTAIL)) memcpy(in2 + n, in + n, slack); // the same (arbitrary) bytes behind both copies
  const uint32_t cap = c.b(n); uint8_t *comp = vp_buf(3, cap, (uint32_t)vp_param(POA), 64, 4096 + n / 16), *comp2 = vp_buf(4, cap, (uint32_t)vp_param(PIA), 64, 4096 + n / 16);
  vp_readonly(in, true); vp_readonly(in2, true);
  set_level((uint32_t)vp_param(PENC));
  const uint32_t size = c.c(in, n, comp, cap), size2 = c.c(in2, n, comp2, cap);
  vp_check(size != 0, "compression failed");
  vp_equal(in, ref, n, "compressor modified its input"); vp_equal(in2, ref, n, "compressor modified its input");
  vp_check(size == size2, "stream size is not a function of the input");
  vp_equal(comp, comp2, size, "stream is not a function of the input");
  vp_cover("pure");
}

// effectiveness: the stream is at most PX bytes larger than the bytes of the input that do not belong to a run (PY)
void h_effect(void) {
  const codec_t c = codecs[vp_param(PC)]; const uint32_t n = gen_len(PGEN);
  uint8_t *in = vp_buf(0, n, (uint32_t)vp_param(PIA), 64, 256); gen(in, PGEN); memset(in + n, 0, 256);
  const uint32_t cap = c.b(n); uint8_t *comp = vp_buf(2, cap, (uint32_t)vp_param(POA), 64, 4096 + n / 16);
  set_level((uint32_t)vp_param(PENC));
  const uint32_t size = c.c(in, n, comp, cap); vp_check(size != 0, "compression failed"); vp_observe(&size, 4, "size");
  vp_check(size <= (uint32_t)vp_param(PX) + (uint32_t)vp_param(PY), "a run was not compressed");
  vp_cover("effect");
}
