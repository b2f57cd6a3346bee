// Input generator shared by the harnesses: a list of segments from the job parameters.
#ifndef gen_h__
#define gen_h__
#include "vp.h"
enum { SEG_SYM = 0, SEG_RUN = 1, SEG_CRUN = 2, SEG_LIT = 3, SEG_CPAT = 4, SEG_REF = 5, SEG_ALPHA = 6, SEG_COPY = 7, SEG_ARUN = 8, SEG_CASE = 9, SEG_NEAR = 10 };
// segment = (type, length, a, b)
//  SEG_SYM   length fresh symbolic bytes
//  SEG_RUN   pattern of a & 255 bytes repeated periodically to length (remembered as pattern b); the first a >> 8 bytes of it are
//            fresh symbolic bytes (all of them if a < 256), the rest is concrete and differs between the patterns
//  SEG_CRUN  length copies of the concrete byte a
//  SEG_LIT   length concrete bytes without repetitions (seed a, restricted to b distinct values if b != 0)
//  SEG_CPAT  a concrete bytes (seed b) repeated periodically
//  SEG_REF   remembered pattern a repeated periodically, starting at phase b
//  SEG_ALPHA length symbolic bytes restricted to the values a .. a + b - 1
//  SEG_ARUN  like SEG_RUN, but the symbolic bytes are restricted to 3 values, starting with b >> 8 (0: 0x41)
//  SEG_CASE  like SEG_ALPHA (b = 0: every value), with a case split on every value
//  SEG_NEAR  like SEG_CPAT (a & 255 bytes, seed b) with a fresh symbolic byte at position a >> 8 of the pattern (b >> 16: differing by 1 at most, or in the highest bit)
//  SEG_COPY  length bytes copied from absolute offset a
static uint32_t gen_len(uint32_t p) { uint32_t n = (uint32_t)vp_param(p), t = 0; for (uint32_t i = 0; i < n; i++) t += (uint32_t)vp_param(p + 2 + 4 * i); return t; }
static uint32_t gen(uint8_t *out, uint32_t p) {
  uint8_t pat[16][16]; uint32_t patLen[16];
  uint32_t n = (uint32_t)vp_param(p), pos = 0;
  for (uint32_t i = 0; i < n; i++) {
    const uint32_t t = (uint32_t)vp_param(p + 1 + 4 * i), len = (uint32_t)vp_param(p + 2 + 4 * i); const int64_t a = vp_param(p + 3 + 4 * i); int64_t b = vp_param(p + 4 + 4 * i);
    uint8_t *q = out + pos;
    switch (t) {
    case SEG_SYM: vp_sym(q, len); break;
    case SEG_RUN: case SEG_ARUN: { const uint8_t first = b >> 8 ? (uint8_t)(b >> 8) : 0x41; b &= 255; const uint32_t w = (uint32_t)a & 255, ns = a >> 8 ? (uint32_t)(a >> 8) : w; for (uint32_t j = ns; j < w; j++) pat[b][j] = (uint8_t)(0x11 + (uint32_t)b * 0x1F + j * 0x35); vp_sym(pat[b], ns); patLen[b] = w; if (t == SEG_ARUN) for (uint32_t j = 0; j < ns; j++) vp_assume((uint8_t)(pat[b][j] - first) < 3); for (uint32_t j = 0; j < len; j++) q[j] = pat[b][j % w]; break; }
    case SEG_CRUN: memset(q, (int)a, len); break;
    case SEG_LIT: { uint32_t x = (uint32_t)a * 2654435761u + 12345, prev = 256; for (uint32_t j = 0; j < len; j++) { x = x * 1664525u + 1013904223u; uint32_t v = (x >> 16) & 255; if (b) v %= (uint32_t)b; if (v == prev) v = b ? (v + 1) % (uint32_t)b : (v + 1) & 255; q[j] = (uint8_t)v; prev = v; } break; }
    case SEG_CPAT: case SEG_NEAR: { uint8_t c[16]; const uint32_t w = (uint32_t)a & 255; uint32_t x = (uint32_t)(b & 0xFFFF) * 2654435761u + 99; for (uint32_t j = 0; j < w; j++) { x = x * 1664525u + 1013904223u; c[j] = (uint8_t)((x >> 19) | 1) ^ (uint8_t)(j * 29); } if (t == SEG_NEAR) { const uint8_t o = c[a >> 8]; vp_sym(c + (a >> 8), 1); if (b >> 16) vp_assume(((uint8_t)(c[a >> 8] - o + 1) < 3) | (c[a >> 8] == (uint8_t)(o ^ 0x80))); } for (uint32_t j = 0; j < len; j++) q[j] = c[j % w]; break; }
    case SEG_REF: for (uint32_t j = 0; j < len; j++) q[j] = pat[a][(j + (uint32_t)b) % patLen[a]]; break;
    case SEG_ALPHA: vp_sym(q, len); for (uint32_t j = 0; j < len; j++) vp_assume((uint8_t)(q[j] - (uint8_t)a) < (uint32_t)b); break;
    case SEG_CASE: vp_sym(q, len); for (uint32_t j = 0; b && j < len; j++) vp_assume((uint8_t)(q[j] - (uint8_t)a) < (uint32_t)b); for (uint32_t j = 0; j < len; j++) q[j] = (uint8_t)vp_conc(q[j]); break;
    case SEG_COPY: memcpy(q, out + a, len); break;
    }
    pos += len;
  }
  return pos;
}
#endif
