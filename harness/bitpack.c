// Bit packing kernels of bitpack.h: unpack(pack(x)) == x for every block of N bit values. The header's functions are C99 inline:
// they are compiled into this file.
#ifdef _MSC_VER
#include <intrin.h>
#else
#include <x86intrin.h>
#endif
#include "vp.h"
#define inline static inline
#include "bitpack.h"
#undef inline
enum { PC = 0, PIA = 3, POA = 4, PX = 6, PY = 7 };
#define V(n, dsz) \
  static uint8_t *e_ ## n(const uint8_t *i, uint8_t *o, size_t s) { bitpack_encode ## n(i, o, s); return NULL; } \
  static const uint8_t *d_ ## n(const uint8_t *i, uint8_t *o, size_t s, size_t p) { (void)s; (void)p; bitpack_decode ## n(i, o, dsz); return NULL; }
#define R(n) \
  static uint8_t *e_ ## n(const uint8_t *i, uint8_t *o, size_t s) { return bitpack_encode ## n((const void *)i, o, s); } \
  static const uint8_t *d_ ## n(const uint8_t *i, uint8_t *o, size_t s, size_t p) { (void)p; return bitpack_decode ## n(i, (void *)o, s); }
V(3_3_sse2_aligned, p) V(3_3_sse2_unaligned, p) V(3_6_sse2_aligned, p) V(3_6_sse2_unaligned, p) V(2_sse2_aligned, p) V(2_sse2_unaligned, p) V(1_sse2_aligned, p) V(1_sse2_unaligned, p)
R(4_sse2_aligned) R(4_sse2_unaligned) R(2_sse2_unaligned_m128i) R(3_sse2_unaligned_m128i) R(4_sse2_unaligned_m128i)
#define K(n, b, u, a, r) { e_ ## n, d_ ## n, b, u, a, r }
static const struct { uint8_t *(*e)(const uint8_t *, uint8_t *, size_t); const uint8_t *(*d)(const uint8_t *, uint8_t *, size_t, size_t); uint32_t bits, unit; bool aligned, ret; } kern[] = {
  K(3_3_sse2_aligned, 3, 48, 1, 0), K(3_3_sse2_unaligned, 3, 48, 0, 0), K(3_6_sse2_aligned, 3, 96, 1, 0), K(3_6_sse2_unaligned, 3, 96, 0, 0), K(2_sse2_aligned, 2, 64, 1, 0), K(2_sse2_unaligned, 2, 64, 0, 0),
  K(1_sse2_aligned, 1, 16, 1, 0), K(1_sse2_unaligned, 1, 16, 0, 0), K(4_sse2_aligned, 4, 1, 1, 1), K(4_sse2_unaligned, 4, 1, 0, 1),
  K(2_sse2_unaligned_m128i, 2, 16, 0, 1), K(3_sse2_unaligned_m128i, 3, 16, 0, 1), K(4_sse2_unaligned_m128i, 4, 16, 0, 1),
};
// PC kernel of the encoder, PY kernel of the decoder (the same format), PX units
void h_bitpack(void) {
  const uint32_t k = (uint32_t)vp_param(PC), kd = (uint32_t)vp_param(PY), n = kern[k].unit * (uint32_t)vp_param(PX), p = (n * kern[k].bits + 7) / 8;
  const uint32_t ia = kern[k].aligned | kern[kd].aligned ? 0 : (uint32_t)vp_param(PIA), oa = kern[k].aligned | kern[kd].aligned ? 0 : (uint32_t)vp_param(POA);
  uint8_t *in = vp_buf(0, n, ia, 0, 0), *ref = vp_buf(1, n, 0, 0, 0), *pk = vp_buf(2, p, oa, 0, 0), *out = vp_buf(3, n, ia, 0, 0);
  vp_sym(in, n); for (uint32_t i = 0; i < n; i++) vp_assume(in[i] < 1u << kern[k].bits);
  memcpy(ref, in, n);
  uint8_t *e = kern[k].e(in, pk, n);
  if (kern[k].ret) vp_check(e == pk + p, "packing returned a wrong end");
  vp_equal(in, ref, n, "packing modified its input");
  vp_observe(pk, p, "packed");
  const uint8_t *d = kern[kd].d(pk, out, n, p);
  if (kern[kd].ret) vp_check(d == pk + p, "unpacking returned a wrong end");
  vp_equal(out, ref, n, "unpacking does not restore the packed values");
  vp_cover("bitpack");
}
