// The command line program (main.c) and the fuzzer (rle_fuzz.c) around stand-in codecs: which codecs are run, and whether a
// codec that fails is noticed. Codec behaviour, file contents, option choices and cpuid answers are symbolic.
#include "vp.h"
#include "cli.h"
#include "simd_platform.h"
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
enum { PC = 0, PX = 6, PY = 7, PN = 8 };
int cli_main(int argc, char **pArgv);
enum { F_NONE, F_COMPRESS, F_DECOMPRESS, F_NOTHING, F_WRONG, F_SIZE, F_COUNT };
static struct {
  uint32_t fault, faultAt, runs, maxCalls, calls; bool fuzz, faulty, filePresent, hitNow;
  uint32_t fileSize, filePos; const uint8_t *file; // the file
  const uint8_t *in; uint32_t inSize; uint32_t cur; // the last compression
  uint8_t ran[256]; uint32_t pos; uint8_t flip; uint64_t now; uint32_t rot; bool trapped;
} g;

// ---- stand-ins for the C library
int h_print(const char *fmt, ...) { (void)fmt; return 0; }
int h_fprint(FILE *f, const char *fmt, ...) { (void)f; (void)fmt; return 0; }
int h_fputs(const char *s, FILE *f) { (void)s; (void)f; return 0; }
FILE *h_fopen(const char *name, const char *mode) { (void)name; if (mode[0] != 'r') return NULL; return g.filePresent ? (FILE *)&g : NULL; }
int h_fseek(FILE *f, long off, int whence) { (void)f; g.filePos = (uint32_t)((whence == SEEK_END ? (long)g.fileSize : whence == SEEK_CUR ? (long)g.filePos : 0) + off); return 0; }
long h_ftell(FILE *f) { (void)f; return (long)g.filePos; }
size_t h_fread(void *p, size_t s, size_t n, FILE *f) { (void)f; if (s == 0) return 0; size_t c = (g.fileSize - g.filePos) / s; if (c > n) c = n; memcpy(p, g.file + g.filePos, c * s); g.filePos += (uint32_t)(c * s); return c; }
size_t h_fwrite(const void *p, size_t s, size_t n, FILE *f) { (void)p; (void)s; (void)f; return n; }
int h_fclose(FILE *f) { (void)f; return 0; }
int h_fflush(FILE *f) { (void)f; return 0; }
int h_clock(int id, struct timespec *t) { (void)id; g.now += 1000; t->tv_sec = (time_t)(g.now / 1000000000); t->tv_nsec = (long)(g.now % 1000000000); return 0; }
void h_sleep(uint64_t us) { g.now += us * 1000; }
void *h_aligned_alloc(size_t a, size_t n) {
#ifdef VP_NATIVE
  void *p = NULL; return posix_memalign(&p, a < sizeof(void *) ? sizeof(void *) : a, n ? n : 1) ? NULL : p;
#else
  (void)a; return malloc(n);
#endif
}
double h_math(double x) { return x; }
static void finish(int code);
void h_exit(int code) { finish(code); vp_done(); }
void h_trap(void) { g.trapped = true; finish(-1); vp_done(); }

static uint32_t choose(uint32_t n) { uint8_t c = 0; vp_sym(&c, 1); vp_assume(c < n); return (uint32_t)vp_conc(c); }
static uint32_t choose2(uint32_t n) { uint16_t c = 0; vp_sym(&c, 2); vp_assume(c < n); return (uint32_t)vp_conc(c); }

// ---- stand-ins for the codecs
uint32_t cli_bound(uint32_t kind, uint32_t n) { return n + 8 + (kind * 3 + g.rot) % 7 * 5; }
static uint32_t mode; // what is judged: 0 --test, 1 fuzzer, 2 selection, 3 max-simd, 4 unknown option
static bool hit(uint32_t id) { return g.fault != F_NONE && (g.fuzz ? g.hitNow : id == g.faultAt); }
uint32_t cli_compress(uint32_t id, const uint8_t *pIn, uint32_t inSize, uint8_t *pOut, uint32_t outSize) {
  vp_check(!g.faulty, "a codec was run after another one had failed");
  if (g.fuzz && g.calls == g.maxCalls) { vp_cover("fuzzer went on"); vp_done(); }
  if (g.fuzz && g.fault != F_NONE && g.calls >= g.faultAt) { if (g.calls == g.faultAt + 7) g.hitNow = true; else g.hitNow = choose(2); }
  g.calls++; g.ran[id] = 1; g.cur = id; g.in = pIn; g.inSize = inSize;
  const uint32_t bound = cli_bound(cliCodecs[id].bound, inSize);
  if (!g.fuzz) { vp_check(inSize == g.fileSize, "a codec is given a wrong input size"); vp_equal(pIn, g.file, g.fileSize, "a codec is given something else than the file"); }
  vp_check(outSize >= bound, "a codec is given less room than its bound");
  if (hit(id) && g.fault == F_COMPRESS) { g.faulty = true; return 0; }
  for (uint32_t i = 3; i < (bound < 64 ? bound : 64); i++) pOut[i] = (uint8_t)(0x31 + i);
  pOut[bound - 1] = 0x55;
  pOut[0] = 0xC0; pOut[1] = (uint8_t)id; pOut[2] = (uint8_t)~id;
  return 3;
}
uint32_t cli_decompress(uint32_t dec, const uint8_t *pIn, uint32_t inSize, uint8_t *pOut, uint32_t outSize) {
  (void)outSize;
  vp_check(cliCodecs[g.cur].dec == dec, "a stream is decoded by another codec's decoder");
  vp_check(inSize == 3 && pIn[0] == 0xC0 && pIn[1] == (uint8_t)g.cur && pIn[2] == (uint8_t)~g.cur, "the decoder is not given the stream the encoder made");
  if (mode < 2) vp_check(pIn[3] != (uint8_t)(0x31 + 3), "bytes behind the stream reach the decoder as the encoder left them");
  if (hit(g.cur)) {
    if (g.fault == F_DECOMPRESS) { g.faulty = true; return 0; }
    if (g.fault == F_NOTHING) { g.faulty = true; return g.inSize; }
  }
  memcpy(pOut, g.in, g.inSize);
  for (uint32_t i = 0; i < CLI_ADDITIONAL; i += 8) pOut[g.inSize + i] = 0xEE;
  if (hit(g.cur)) {
    if (g.fault == F_SIZE) { g.faulty = true; return g.inSize + 1 + g.flip; }
    if (g.fault == F_WRONG) { g.faulty = true; if (g.fuzz) g.pos = choose2(g.inSize); pOut[g.pos] ^= g.flip; }
  }
  return g.inSize;
}

static char *argvs[40]; static int argcs;
static void arg(const char *a) { argvs[argcs++] = (char *)a; }
static void file(uint32_t n, bool sym) { uint8_t *f = vp_buf(0, n, 0, 0, 0); if (sym) vp_sym(f, n); else memset(f, 0x5C, n); g.file = f; g.fileSize = n; g.filePresent = true; argcs = 0; arg("hsrlekit"); arg("the file"); }

// ---- P18: a failing codec fails the run, a run without failure succeeds
static void finish(int code) {
  if (mode == 0) {
    if (g.fault == F_NONE) { vp_check(code == 0 && !g.trapped, "a test run failed although every codec worked"); for (uint32_t i = 0; i < cliCodecCount; i++) vp_check(g.ran[i], "a test run left out a codec"); vp_cover("test run succeeds"); }
    else { vp_check(g.faulty, "a test run ended before it reached the failing codec"); vp_check(code != 0, "a test run succeeded although a codec failed"); vp_cover("test run fails"); }
  } else if (mode == 1) { vp_check(g.faulty, "the fuzzer stopped although every codec worked"); vp_check(code != 0, "the fuzzer reported success"); vp_cover("fuzzer stops"); }
}
void h_cli_test(void) { // PX file size, PY fault, PN first codec of 8, PN + 1 rotation of the bounds, PN + 2 runs
  mode = 0; _CpuFeaturesDetected = sse2Supported = avxSupported = true; // what the real codecs' feature detection would have found
  g.fault = (uint32_t)vp_param(PY); const bool two = g.fault == F_NOTHING && vp_param(PX) > 8; file((uint32_t)vp_param(PX), (g.fault != F_NONE && !two) || vp_param(PX) == 1);
  if (two) { uint8_t *f = (uint8_t *)g.file; memset(f, 0, g.fileSize); const uint32_t p = choose2(g.fileSize); vp_sym(f + p, 1); if (p) vp_sym(f + p * 7 / 8, 1); } // two free bytes (of all: one path per set of bytes that differ)
  g.rot = (uint32_t)vp_param(PN + 1);
  if (g.fault != F_NONE) { g.faultAt = (uint32_t)vp_param(PN) + choose(8); vp_assume(g.faultAt < cliCodecCount); }
  if (g.fault == F_WRONG) { g.pos = choose2(g.fileSize); vp_sym(&g.flip, 1); vp_assume(g.flip != 0); }
  if (g.fault == F_NOTHING) { uint8_t any = 0; for (uint32_t i = 0; i < g.fileSize; i++) any |= g.file[i]; vp_assume(any != 0); }
  arg("--test"); arg("--runs"); arg(vp_param(PN + 2) == 2 ? "2" : vp_param(PN + 2) ? "1" : "0"); arg("--min-time"); arg("0"); if (vp_param(PN + 3)) arg("--sd");
  finish(cli_main(argcs, argvs));
}
void h_cli_fuzz(void) { // PX call of the failing codec (0 ..), PY fault
  mode = 1; _CpuFeaturesDetected = sse2Supported = avxSupported = avx2Supported = true;
  file(1, false); g.fuzz = true; g.fault = (uint32_t)vp_param(PY); g.maxCalls = (uint32_t)vp_param(PX) + 8;
  g.faultAt = (uint32_t)vp_param(PX);
  if (g.fault == F_WRONG) { vp_sym(&g.flip, 1); vp_assume(g.flip != 0); }
  if (g.fault == F_SIZE) { vp_sym(&g.flip, 1); vp_assume(g.flip < 100); }
  arg("--fuzz-iterative");
  g.maxCalls++; finish(cli_main(argcs, argvs));
}
bool MemoryEquals(const uint8_t *pBufferA, const uint8_t *pBufferB, const size_t length) __attribute__((weak));
void h_cli_memeq(void) { // PX length, PY alignment
  if (!MemoryEquals) { vp_cover("no MemoryEquals"); return; }
  const uint32_t n = (uint32_t)vp_param(PX), a = (uint32_t)vp_param(PY);
  uint8_t *x = vp_buf(0, n, a, 0, 0), *y = vp_buf(1, n, a, 0, 0); vp_sym(x, n); memcpy(y, x, n);
  uint8_t d[2]; vp_sym(d, 2);
  if (n) { const uint32_t p = choose2(n); y[p] ^= d[0]; }
  const bool r = MemoryEquals(x, y, n);
  vp_check(r == (n == 0 || d[0] == 0), "the fuzzer's comparison is wrong"); vp_cover("memory equals");
}

// ---- P19: --max-simd
typedef struct { bool sse, sse2, sse3, ssse3, sse41, sse42, avx, avx2, fma3, aes, f512[15]; } feat_t;
static feat_t feat(void) {
  feat_t f = { sseSupported, sse2Supported, sse3Supported, ssse3Supported, sse41Supported, sse42Supported, avxSupported, avx2Supported, fma3Supported, aesNiSupported, { avx512FSupported, avx512PFSupported, avx512ERSupported, avx512CDSupported, avx512BWSupported, avx512DQSupported, avx512VLSupported, avx512IFMASupported, avx512VBMISupported, avx512VNNISupported, avx512VBMI2Supported, avx512POPCNTDQSupported, avx512BITALGSupported, avx5124VNNIWSupported, avx5124FMAPSSupported } };
  return f;
}
void h_cli_simd(void) { // PX: cap
  static const char *const names[] = { "none", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "avx512f" };
  mode = 3; const uint32_t cap = (uint32_t)vp_param(PX);
  file(1, false); g.filePresent = false;
  if (vp_param(PY)) arg("--test");
  arg("--max-simd"); arg(names[cap]);
  if (vp_param(PY) == 2) arg("--sh");
  const int code = cli_main(argcs, argvs);
  const feat_t a = feat(); _DetectCPUFeatures(); const feat_t b = feat(); // the codecs detect again
  _CpuFeaturesDetected = false; sseSupported = sse2Supported = sse3Supported = ssse3Supported = sse41Supported = sse42Supported = avxSupported = avx2Supported = fma3Supported = aesNiSupported = false;
  avx512FSupported = avx512PFSupported = avx512ERSupported = avx512CDSupported = avx512BWSupported = avx512DQSupported = avx512VLSupported = avx512IFMASupported = avx512VBMISupported = avx512VNNISupported = avx512VBMI2Supported = avx512POPCNTDQSupported = avx512BITALGSupported = avx5124VNNIWSupported = avx5124FMAPSSupported = false;
  _DetectCPUFeatures(); const feat_t d = feat();
  const bool has[] = { true, d.sse2, d.sse3, d.ssse3, d.sse41, d.sse42, d.avx, d.avx2, d.f512[0] };
  if (!has[cap]) { vp_check(code != 0, "an instruction set the CPU lacks was accepted"); vp_cover("refused"); return; }
  vp_check(code == 0, "an instruction set the CPU has was refused");
  const bool lim[] = { b.sse2 & (cap < 1), b.sse3 & (cap < 2), b.ssse3 & (cap < 3), b.sse41 & (cap < 4), b.sse42 & (cap < 5), b.avx & (cap < 6), b.avx2 & (cap < 7) };
  for (uint32_t i = 0; i < sizeof(lim); i++) vp_check(!lim[i], "an instruction set above the cap stays in use");
  bool any = false; for (uint32_t i = 0; i < 15; i++) any |= b.f512[i]; vp_check(!any | (cap == 8), "an AVX-512 instruction set above the cap stays in use");
  const bool keep[] = { (b.sse2 == d.sse2) | (cap < 1), (b.sse3 == d.sse3) | (cap < 2), (b.ssse3 == d.ssse3) | (cap < 3), (b.sse41 == d.sse41) | (cap < 4), (b.sse42 == d.sse42) | (cap < 5), (b.avx == d.avx) | (cap < 6), (b.avx2 == d.avx2) | (cap < 7), (b.f512[0] == d.f512[0]) | (cap < 8) };
  for (uint32_t i = 0; i < sizeof(keep); i++) vp_check(keep[i], "an instruction set within the cap was changed");
  vp_check((a.sse2 == b.sse2) & (a.sse3 == b.sse3) & (a.ssse3 == b.ssse3) & (a.sse41 == b.sse41) & (a.sse42 == b.sse42) & (a.avx == b.avx) & (a.avx2 == b.avx2) & (a.f512[0] == b.f512[0]), "the cap does not survive the next feature detection");
  vp_cover("capped");
}

// ---- P20: the selected codecs are run, no others
static bool ok3(uint32_t want, uint32_t has) { return want == 0 || (want == 1) == (has != 0); } // 0 not given, 1 yes, 2 no
void h_cli_select(void) { // PX mode, PY bits, PN order
  static const char *const modes[] = { NULL, "--extreme", "--low-entropy", "--sh", "--rle-mmtf", "--mmtf", "--low-entropy-short" };
  static const char *const bitsN[] = { NULL, "8", "16", "24", "32", "48", "64", "128", "256" }; static const uint16_t bitsV[] = { 0, 8, 16, 24, 32, 48, 64, 128, 256 };
  static const char *const lutN[] = { NULL, "0", "1", "3", "7" }; static const uint8_t lutV[] = { 0, 0, 1, 3, 7 };
  static const char *const flags[5][3] = { { NULL, "--symbol-aligned", "--byte-aligned" }, { NULL, "--single", "--multi" }, { NULL, "--packed", "--not-packed" }, { NULL, "--short", "--not-short" }, { NULL, "--greedy", "--not-greedy" } };
  mode = 2; file(1, false); const uint32_t m = (uint32_t)vp_param(PX), bi = (uint32_t)vp_param(PY), order = (uint32_t)vp_param(PN), mask = (uint32_t)vp_param(PN + 1);
  uint32_t f[5], lut; for (uint32_t i = 0; i < 5; i++) f[i] = (mask >> i & 1) && !(i == 3 && m == 6) ? choose(3) : 0; lut = mask >> 5 & 1 ? choose(5) : 0;
  arg("--runs"); arg("0"); arg("--min-time"); arg("0");
  for (uint32_t k = 0; k < 8; k++) { const uint32_t s = (k * 3 + order) % 8;
    if (s == 6 && m) arg(modes[m]);
    if (s == 7 && bi) { arg("--x-size"); arg(bitsN[bi]); }
    if (s == 5 && lut) { arg("--lut-size"); arg(lutN[lut]); }
    if (s < 5 && f[s]) arg(flags[s][f[s]]); }
  const int code = cli_main(argcs, argvs);
  bool wanted = false;
  for (uint32_t i = 0; i < cliCodecCount; i++) {
    const cli_codec_t *c = &cliCodecs[i]; bool w = true;
    if (m) w &= c->mode == (m == 6 ? 2 : m); if (m == 6) w &= c->shrt;
    if (bi) w &= c->bits == bitsV[bi];
    if (f[0]) w &= c->align == f[0];
    if (f[1]) w &= c->single < 2 ? ok3(f[1], c->single) : c->single == 3 && f[1] == 2;
    w &= ok3(f[2], c->packed) & ok3(f[3], c->shrt) & ok3(f[4], c->greedy);
    if (lut) w &= c->lut == lutV[lut];
    if (c->single == 3 && f[1] == 2 && w) continue; // not defined for these
    wanted |= w;
    vp_check(!w || g.ran[i], "a selected codec was not run"); vp_check(w || !g.ran[i], "a codec outside the selection was run");
  }
  vp_check(code == 0 || !wanted, "a selection of existing codecs was refused"); vp_cover("selected");
}
// an argument that is no option of the program
void h_cli_unknown(void) { // PX length
  static const char *const opts[] = { "--runs", "--low-entropy", "--single", "--multi", "--short", "--not-short", "--low-entropy-short", "--extreme", "--x-size", "--byte-aligned", "--symbol-aligned", "--packed", "--not-packed", "--lut-size", "--greedy", "--not-greedy", "--min-time", "--rle-mmtf", "--mmtf", "--sh", "--analyze", "--max-simd", "--test", "--sd", "--fuzz-iterative", "--fuzz-random" };
  mode = 4; file(1, false); const uint32_t n = (uint32_t)vp_param(PX);
  char *s = vp_buf(1, n + 1, 0, 0, 0); vp_sym(s, n); s[n] = 0; bool nul = false; for (uint32_t i = 0; i < n; i++) nul |= s[i] == 0; vp_assume(!nul);
  arg(s); if (vp_param(PY)) arg("0");
  bool known = false; for (uint32_t k = 0; k < sizeof(opts) / sizeof(opts[0]); k++) { const char *o = opts[k]; if (strlen(o) != n) continue; bool eq = true; for (uint32_t i = 0; i < n; i++) eq &= s[i] == o[i]; known |= eq; }
  vp_assume(!known);
  const int code = cli_main(argcs, argvs);
  vp_check(code != 0, "an unknown option was accepted"); vp_check(g.calls == 0, "a codec was run in spite of an unknown option"); vp_cover("unknown option");
}
