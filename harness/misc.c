#include "codecs.h"
#include "gen.h"
enum { PC = 0, PENC = 1, PDEC = 2, PIA = 3, POA = 4, PX = 6, PY = 7, PGEN = 8 };
typedef uint32_t (*xf)(const uint8_t *, const uint32_t, uint8_t *, const uint32_t);
static const xf xforms[][2] = { { mmtf128_encode, mmtf128_decode }, { mmtf256_encode, mmtf256_decode }, { bitmmtf8_encode, bitmmtf8_decode }, { bitmmtf16_encode, bitmmtf16_decode } };

// size preserving transforms: decode(encode(x)) == x, at every level and alignment, nothing outside of the buffers is touched
void h_transform(void) {
  const uint32_t k = (uint32_t)vp_param(PC), n = gen_len(PGEN);
  uint8_t *in = vp_buf(0, n, (uint32_t)vp_param(PIA), 0, 0), *ref = vp_buf(1, n, 0, 0, 0), *enc = vp_buf(2, n, (uint32_t)vp_param(POA), 0, 0);
  gen(in, PGEN); memcpy(ref, in, n);
  set_level((uint32_t)vp_param(PENC));
  vp_check(xforms[k][0](in, n, enc, n) == n, "transform failed");
  vp_equal(in, ref, n, "transform modified its input");
  vp_observe(enc, n, "enc");
  for (uint32_t l = 1; l < 7; l++) if (vp_param(PDEC) >> l & 1) {
    set_level(l);
    uint8_t *out = vp_buf(4 + l, n, (uint32_t)vp_param(POA), 0, 0), *src = vp_buf(20 + l, n, (uint32_t)vp_param(PIA), 0, 0);
    memcpy(src, enc, n);
    vp_check(xforms[k][1](src, n, out, n) == n, "inverse transform failed");
    vp_equal(out, ref, n, "inverse transform does not restore the input");
  }
  vp_cover("transform");
}
// the transforms are functions of the input alone: encoder levels agree
void h_transform_levels(void) {
  const uint32_t k = (uint32_t)vp_param(PC), n = gen_len(PGEN);
  uint8_t *in = vp_buf(0, n, (uint32_t)vp_param(PIA), 0, 0), *e1 = vp_buf(1, n, (uint32_t)vp_param(POA), 0, 0); gen(in, PGEN);
  set_level(1); vp_check(xforms[k][0](in, n, e1, n) == n, "transform failed");
  for (uint32_t l = 2; l < 7; l++) if (vp_param(PDEC) >> l & 1) {
    uint8_t *e2 = vp_buf(4 + l, n, (uint32_t)vp_param(POA), 0, 0);
    set_level(l); vp_check(xforms[k][0](in, n, e2, n) == n, "transform failed");
    vp_equal(e1, e2, n, "transform depends on the instruction set");
  }
  vp_cover("transform_levels");
}
void h_transform_refuse(void) {
  const uint32_t k = (uint32_t)vp_param(PC), dir = (uint32_t)vp_param(PX); uint32_t n, cap; vp_sym(&n, 4); vp_sym(&cap, 4);
  set_level((uint32_t)vp_param(PENC));
  if (vp_param(PENC) != 0 || k >= 2) vp_assume(n > cap);
  uint8_t *in = vp_buf(0, 0, 0, 0, 0), *out = vp_buf(1, 0, 0, 0, 0);
  vp_check(xforms[k][dir](in, n, out, cap) == 0, "transform accepted a too small output");
  vp_check((mmtf_bounds(n) >= n) & (bitmmtf_bounds(n) >= n), "transform bounds smaller than the input");
  vp_cover("transform_refuse");
}

// rle8m: PX sub sections
void h_rle8m(void) {
  const uint32_t n = gen_len(PGEN), ss = (uint32_t)vp_param(PX);
  uint8_t *in = vp_buf(0, n, (uint32_t)vp_param(PIA), 0, 0), *ref = vp_buf(1, n, 0, 0, 0); gen(in, PGEN); memcpy(ref, in, n);
  const uint32_t cap = rle8m_compress_bounds(ss, n); vp_check(cap > n, "advertised capacity is smaller than the input");
  const uint32_t strict = vp_param(PY) ? 0 : 64;
  uint8_t *comp = vp_buf(2, cap, 0, strict, strict * 64);
  set_level((uint32_t)vp_param(PENC));
  const uint32_t size = rle8m_compress(ss, in, n, comp, cap);
  vp_check(size != 0, "compression of a non-empty input with sufficient capacity failed");
  vp_check(size <= cap, "stream is larger than the advertised capacity");
  vp_equal(in, ref, n, "compressor modified its input");
  vp_observe(comp, size, "stream");
  uint8_t *str = vp_buf(3, size, (uint32_t)vp_param(PIA), 0, 256); memcpy(str, comp, size);
  uint32_t h[3]; memcpy(h, comp, 12); vp_check((h[0] == size) & (h[1] == n) & (h[2] == ss), "stream header is wrong");
  for (uint32_t l = 1; l < 7; l++) if (vp_param(PDEC) >> l & 1) {
    set_level(l);
    uint8_t *out = vp_buf(4 + l, n + rle_decompress_additional_size(), (uint32_t)vp_param(POA), strict, strict * 64);
    vp_check(rle8m_decompress(str, size + 17 * (l & 1), out, n + rle_decompress_additional_size()) == n, "decompressor returned a wrong size");
    vp_equal(out, ref, n, "decompressed data differs from the input");
  }
  vp_cover("rle8m");
}
void h_rle8m_refuse(void) {
  uint32_t ss, n, cap; vp_sym(&ss, 4); vp_sym(&n, 4); vp_sym(&cap, 4);
  uint8_t *in = vp_buf(0, 0, 0, 0, 0), *out = vp_buf(1, 0, 0, 0, 0); const uint32_t b = rle8m_compress_bounds(ss, n);
  vp_assume((n == 0) | (ss == 0) | (b == 0) | (cap < b));
  vp_check((b == 0) | (b > n), "advertised capacity is not larger than the input");
  vp_check(rle8m_compress(ss, in, n, out, cap) == 0, "compressor accepted a capacity below the advertised one");
  vp_cover("rle8m_refuse");
}
// rle8m stream rejection: PX 0: wrong input size, 1: wrong output size
void h_rle8m_reject(void) {
  const uint32_t n = gen_len(PGEN), ss = (uint32_t)vp_param(PX);
  uint8_t *in = vp_buf(0, n, 0, 0, 0); gen(in, PGEN); const uint32_t cap = rle8m_compress_bounds(ss, n); uint8_t *comp = vp_buf(2, cap, 0, 64, 4096);
  set_level(1); const uint32_t size = rle8m_compress(ss, in, n, comp, cap); vp_check(size != 0, "compression failed");
  uint32_t inSize, outSize; vp_sym(&inSize, 4); vp_sym(&outSize, 4); vp_assume((inSize < size) | (outSize < n));
  uint8_t *str = vp_buf(3, size, 0, 0, 256), *out = vp_buf(4, n + 128, 0, 64, 4096); memcpy(str, comp, size);
  vp_check(rle8m_decompress(str, inSize, out, outSize) == 0, "decompressor accepted a stream that its sizes rule out");
  vp_untouched(out - 64, n + 128 + 64 + 4096, "rejected stream but wrote to the output");
  vp_cover("rle8m_reject");
}

// low entropy building blocks: info -> write -> read -> with_info; PX 0: all, 1: only max frequency; PY 1: short variant
void h_le_info(void) {
  const uint32_t n = gen_len(PGEN); const bool shortV = vp_param(PY) != 0;
  uint8_t *in = vp_buf(0, n, (uint32_t)vp_param(PIA), 0, 0), *ref = vp_buf(1, n, 0, 0, 0); gen(in, PGEN); memcpy(ref, in, n);
  rle8_low_entropy_compress_info_t ci; rle8_low_entropy_decompress_info_t di;
  vp_check(vp_param(PX) ? rle8_low_entropy_get_compress_info_only_max_frequency(in, n, &ci) : rle8_low_entropy_get_compress_info(in, n, &ci), "no compress info");
  uint8_t *hdr = vp_buf(2, 289, 0, 0, 0), *comp = vp_buf(3, 2 * n + 16, 0, 0, 0);
  const uint32_t hs = rle8_low_entropy_write_compress_info(&ci, hdr, 289); vp_check(hs > 32 && hs <= 289, "compress info not written");
  const uint32_t size = (shortV ? rle8_low_entropy_short_compress_with_info : rle8_low_entropy_compress_with_info)(in, n, &ci, comp, 2 * n + 16); vp_check(size != 0, "compression failed");
  uint8_t *hdr2 = vp_buf(4, hs, 0, 0, 0), *str = vp_buf(5, size, (uint32_t)vp_param(PIA), 0, 256); memcpy(hdr2, hdr, hs); memcpy(str, comp, size);
  vp_check(rle8_low_entropy_read_decompress_info(hdr2, hs, &di) == hs, "decompress info does not end where the compress info ended");
  for (uint32_t l = 1; l < 7; l++) if (vp_param(PDEC) >> l & 1) {
    set_level(l);
    uint8_t *out = vp_buf(6 + l, n + rle_decompress_additional_size(), (uint32_t)vp_param(POA), 64, 4096);
    vp_check((shortV ? rle8_low_entropy_short_decompress_with_info : rle8_low_entropy_decompress_with_info)(str, str + size, &di, out, n) == n, "decompressor returned a wrong size");
    vp_equal(out, ref, n, "decompressed data differs from the input");
  }
  vp_cover("le_info");
}
// refusals of the low entropy building blocks and rle8m_decompress: any size that is empty or too small, missing buffers
void h_le_refuse(void) {
  uint32_t n, cap; vp_sym(&n, 4); vp_sym(&cap, 4); set_level((uint32_t)vp_param(PENC));
  uint8_t *in = vp_buf(0, 0, 0, 0, 0), *out = vp_buf(1, 0, 0, 0, 0); void *info = out; const uint64_t y = (uint64_t)vp_param(PY); // y: which pointer is missing (0: none)
  const uint8_t *a = y == 1 ? NULL : in; void *i = y == 2 ? NULL : info; uint8_t *o = y == 3 ? NULL : out; const bool any = y != 0;
  switch (vp_param(PX)) {
  case 0: if (y != 1) vp_assume(n < 8); vp_check(rle8_low_entropy_decompressed_size(a, n) == 0, "size of an incomplete header is not 0"); break;
  case 1: { uint8_t *h = vp_buf(2, 8, (uint32_t)vp_param(PIA), 0, 0); uint32_t v; memcpy(&v, h + 4, 4); vp_assume(n >= 8); vp_check(rle8_low_entropy_decompressed_size(h, n) == v, "wrong decompressed size"); break; }
  case 2: if (!any) vp_assume(n == 0); vp_check(!rle8_low_entropy_get_compress_info(a, n, i), "invalid arguments accepted"); break;
  case 3: if (!any) vp_assume(n == 0); vp_check(!rle8_low_entropy_get_compress_info_only_max_frequency(a, n, i), "invalid arguments accepted"); break;
  case 4: if (!any) vp_assume(cap < 32 + 1 + 255); vp_check(rle8_low_entropy_write_compress_info(i, o, cap) == 0, "invalid arguments accepted"); break;
  case 5: if (!any) vp_assume((n == 0) | (cap < n)); vp_check(rle8_low_entropy_compress_with_info(a, n, i, o, cap) == 0, "invalid arguments accepted"); break;
  case 6: if (!any) vp_assume((n == 0) | (cap < n)); vp_check(rle8_low_entropy_short_compress_with_info(a, n, i, o, cap) == 0, "invalid arguments accepted"); break;
  case 7: if (!any) vp_assume(n == 0); vp_check(rle8_low_entropy_read_decompress_info(a, n, i) == 0, "invalid arguments accepted"); break;
  case 8: if (!any) vp_assume((n == 0) | (cap == 0)); vp_check(rle8m_decompress(a, n, o, cap) == 0, "invalid arguments accepted"); break;
  case 9: { uint32_t ss; vp_sym(&ss, 4); vp_check(rle8m_compress(ss, a, n, o, cap) == 0, "invalid arguments accepted"); break; }
  }
  vp_cover("le_refuse");
}
