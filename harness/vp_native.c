// Native runtime: replays one concrete assignment against the real code.
// argv: <entry> <values file> ; values file: "P v v v ..." (params) then "name value" lines. Output: "VIOL kind msg", "OBS ..", "DONE".
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <dlfcn.h>
#include <signal.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
#include <sanitizer/asan_interface.h>
#endif
#endif

static int64_t params[8192]; static int nparams;
typedef struct { uint32_t kind, a; int64_t b; uint8_t v; } val_t; // kind 0 sym, 1 junk
static val_t *vals; static size_t nvals;
static uint32_t symSeq;
typedef struct { uint32_t id; uint8_t *base; uint8_t *core; uint64_t size, lo, hi, total; uint8_t *snap; } buf_t;
static buf_t bufs[4096]; static int nbufs;
#define RED 4096

static int cmpv(const void *x, const void *y) { const val_t *a = x, *b = y; if (a->kind != b->kind) return a->kind < b->kind ? -1 : 1; if (a->a != b->a) return a->a < b->a ? -1 : 1; return a->b < b->b ? -1 : a->b > b->b; }
static uint8_t look(uint32_t k, uint32_t a, int64_t b) { val_t t = {k, a, b, 0}; val_t *r = bsearch(&t, vals, nvals, sizeof(val_t), cmpv); return r ? r->v : 0; }
static void viol(const char *kind, const char *msg) { printf("VIOL %s %s\n", kind, msg); fflush(stdout); _exit(10); }

void *vp_buf(uint32_t id, uint32_t size, uint32_t align, uint32_t slackLo, uint32_t slackHi) {
  buf_t *b = &bufs[nbufs++]; b->id = id; b->size = size; b->lo = slackLo; b->hi = slackHi; b->total = (uint64_t)size + slackLo + slackHi;
  uint8_t *raw = malloc(b->total + 2 * RED + 128); b->core = (uint8_t *)((((uintptr_t)raw + RED + slackLo + 63) & ~(uintptr_t)63) + align);
  b->base = b->core - slackLo;
  memset(raw, 0, b->total + 2 * RED + 128);
  for (size_t i = 0; i < nvals; i++) if (vals[i].kind == 1 && vals[i].a == id && vals[i].b + (int64_t)slackLo >= 0 && vals[i].b + (int64_t)slackLo < (int64_t)b->total) b->base[vals[i].b + slackLo] = vals[i].v;
  // red zones carry a position dependent pattern
  for (int i = 0; i < RED; i++) b->base[b->total + i] = (uint8_t)(i * 7 + 0x5A);
  for (int i = 1; i < RED - 64; i++) b->base[-i] = (uint8_t)(i * 5 + 0xA5);
  b->snap = malloc(b->total + 1); memcpy(b->snap, b->base, b->total);
#ifdef VP_ASAN
  __asan_poison_memory_region(b->base + b->total, RED);
  __asan_poison_memory_region(b->base - (RED - 64), RED - 64);
#endif
  return b->core;
}
static void checkRed(void) {
#ifndef VP_ASAN
  char m[128];
  for (int k = 0; k < nbufs; k++) { buf_t *b = &bufs[k];
    for (int i = 0; i < RED; i++) if (b->base[b->total + i] != (uint8_t)(i * 7 + 0x5A)) { snprintf(m, sizeof m, "write behind buf%u at +%llu", b->id, (unsigned long long)(b->total - b->lo + i)); viol("oob-write", m); }
    for (int i = 1; i < RED - 64; i++) if (b->base[-i] != (uint8_t)(i * 5 + 0xA5)) { snprintf(m, sizeof m, "write before buf%u at -%d", b->id, i); viol("oob-write", m); } }
#endif
}
void vp_sym(void *p, uint32_t n) { if (!n) return; uint32_t s = symSeq++; for (uint32_t i = 0; i < n; i++) ((uint8_t *)p)[i] = look(0, s, i); }
void vp_assume(bool c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _exit(11); } }
void vp_check(bool c, const char *msg) { if (!c) viol("check", msg); }
void vp_equal(const void *a, const void *b, uint32_t n, const char *msg) { if (memcmp(a, b, n)) viol("check", msg); }
void vp_untouched(const void *p, uint32_t n, const char *msg) {
  for (int k = 0; k < nbufs; k++) { buf_t *b = &bufs[k]; const uint8_t *q = p; if (q >= b->base && q + n <= b->base + b->total) { if (memcmp(q, b->snap + (q - b->base), n)) viol("check", msg); return; } }
}
int64_t vp_param(uint32_t i) { return i < (uint32_t)nparams ? params[i] : 0; }
void vp_observe(const void *p, uint32_t n, const char *tag) { if (n > 4096) return; uint64_t h = 1469598103934665603ULL; for (uint32_t i = 0; i < n; i++) h = (h ^ ((const uint8_t *)p)[i]) * 1099511628211ULL; printf("OBS %s:%u:%llx\n", tag, n, (unsigned long long)h); }
void vp_cover(const char *l) { (void)l; }
uint64_t vp_conc(uint64_t v) { return v; }
uint32_t vp_native(void) { return 1; }
void vp_flush(void) {}
static void checkRed(void);
void vp_done(void) { checkRed(); printf("DONE\n"); fflush(stdout); _exit(0); }
uint32_t vp_cpuid(uint32_t leaf, uint32_t reg) { uint32_t v = 0; for (int i = 3; i >= 0; i--) v = v << 8 | look(2, leaf * 16 + reg, i); return v; }
uint64_t vp_xgetbv(uint32_t x) { uint64_t v = 0; for (int i = 7; i >= 0; i--) v = v << 8 | look(3, x, i); return v; }
void vp_need(uint32_t l) { // set_level(l): the host must be able to execute that level
  __builtin_cpu_init();
  if ((l >= 6 && !__builtin_cpu_supports("avx512f")) || (l >= 5 && !__builtin_cpu_supports("avx2")) || (l >= 4 && !__builtin_cpu_supports("avx")) || (l >= 3 && !__builtin_cpu_supports("sse4.1")) || (l >= 2 && !__builtin_cpu_supports("ssse3"))) { printf("UNSUPPORTED\n"); fflush(stdout); _exit(12); }
}

// schedules: the library is built with load and store callbacks; every schedule is tried in a process of its own
static void (*preOther)(void); static uint64_t preAt, preSeen; static int preArmed;
#ifdef VP_TRACE
extern char __data_start[], _end[];
static void hook(const void *p) {
  if (!preArmed || (const char *)p < __data_start || (const char *)p >= _end) return;
  if (preSeen++ != preAt) return;
  preArmed = 0; preOther();
}
#define T(n) void __sanitizer_cov_load ## n(void *p) { hook(p); } void __sanitizer_cov_store ## n(void *p) { hook(p); }
T(1) T(2) T(4) T(8) T(16)
void __sanitizer_cov_trace_pc(void) {}
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *a, const void *b, size_t n) { hook(a); hook(b); return __real_memcpy(a, b, n); }
void *__wrap_memmove(void *a, const void *b, size_t n) { hook(a); hook(b); return __real_memmove(a, b, n); }
void *__wrap_memset(void *a, int b, size_t n) { hook(a); return __real_memset(a, b, n); }
#endif
#include <sys/wait.h>
#include <sys/mman.h>
void vp_preempt(void (*o)(void), uint32_t k) {
  if (!o) { preArmed = 0; if (preOther && preSeen <= preAt) { checkRed(); fflush(stdout); _exit(20); } return; } // fewer accesses than that: the last schedule
  for (preAt = 0; preAt < 60000; preAt += preAt < 300 ? 1 : 1 + preAt / 8) {
    fflush(stdout); const pid_t p = fork(); int st = 0;
    if (p == 0) { preOther = o; preSeen = 0; preArmed = 1; return; }
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 10 || WEXITSTATUS(st) == 11 || WEXITSTATUS(st) == 12)) _exit(WEXITSTATUS(st));
    if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 20)) viol("exit", "abnormal end");
    if (WEXITSTATUS(st) == 20) break;
  }
  printf("DONE\n"); fflush(stdout); _exit(0);
}
void vp_readonly(void *q, bool ro) {
  for (int k = 0; k < nbufs; k++) { buf_t *b = &bufs[k]; if (b->core != q) continue; const uintptr_t s = (uintptr_t)b->base & ~4095ull, e = ((uintptr_t)b->base + b->total + 4095) & ~4095ull; mprotect((void *)s, e - s, ro ? PROT_READ : PROT_READ | PROT_WRITE); }
}
// "junk" build: what uninitialised variables contain
static uint64_t junkState, junkSeen;
uint64_t vp_undef(uint32_t id) {
  static int mode = -1; if (mode < 0) { const char *e = getenv("VP_JUNK"); mode = e ? atoi(e) : 0; junkState = 88172645463325252ull + (uint64_t)mode * 7919; }
  (void)id;
  if (mode == 0) { uint64_t v = 0; for (int i = 7; i >= 0; i--) v = v << 8 | look(4, (uint32_t)junkSeen, i); junkSeen++; return v; } // what the solver chose
  junkState ^= junkState << 13; junkState ^= junkState >> 7; junkState ^= junkState << 17;
  const uint64_t r = junkState * 0x2545F4914F6CDD1Dull;
  switch (r >> 61) { case 0: case 1: return 0; case 2: return ~0ull; case 3: return r >> 32 & 3; case 4: return r >> 32 & 0xFF; case 5: return r & 0x0101010101010101ull; case 6: return r & 0x0F0F0F0F0F0F0F0Full; default: return r; }
}
void vp_undef_mem(void *p, uint64_t n) { const char *e = getenv("VP_JUNK"); if (!e || !atoi(e)) { memset(p, 0xA5, n); return; } for (uint64_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)(i & 7 ? vp_undef(0) : vp_undef(0) >> 8); }
static void onsig(int s) { char m[64]; int n = snprintf(m, sizeof m, "VIOL signal %d\n", s); if (write(1, m, n)) {} _exit(10); }
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  FILE *f = fopen(argv[2], "r"); if (!f) return 2;
  char nm[64]; long long v; int c; static char line[1 << 20];
  size_t cap = 1 << 12; vals = malloc(cap * sizeof(val_t));
  while (fgets(line, sizeof line, f)) {
    if (line[0] == 'P') { char *q = line + 1, *e; for (;;) { int64_t x = strtoll(q, &e, 10); if (e == q) break; params[nparams++] = x; q = e; } continue; }
    if (sscanf(line, "%63s %lld", nm, &v) != 2) continue;
    if (nvals == cap) vals = realloc(vals, (cap *= 2) * sizeof(val_t));
    unsigned a; long long b; unsigned x, y; (void)c;
    if (sscanf(nm, "sym:%u:%lld", &a, &b) == 2) { vals[nvals].kind = 0; vals[nvals].a = a; vals[nvals].b = b; vals[nvals++].v = (uint8_t)v; }
    else if (sscanf(nm, "junk:%u:%lld", &a, &b) == 2) { vals[nvals].kind = 1; vals[nvals].a = a; vals[nvals].b = b; vals[nvals++].v = (uint8_t)v; }
    else if (sscanf(nm, "undef:%u:%lld", &a, &b) == 2) { vals[nvals].kind = 4; vals[nvals].a = a; vals[nvals].b = b; vals[nvals++].v = (uint8_t)v; }
    else if (sscanf(nm, "cpuid:%u:%u:%u:%lld", &a, &x, &y, &b) == 4) { vals[nvals].kind = 2; vals[nvals].a = a * 16 + y; vals[nvals].b = b; vals[nvals++].v = (uint8_t)v; }
    else if (sscanf(nm, "xcr:%u:%lld", &a, &b) == 2) { vals[nvals].kind = 3; vals[nvals].a = a; vals[nvals].b = b; vals[nvals++].v = (uint8_t)v; }
  }
  fclose(f);
  qsort(vals, nvals, sizeof(val_t), cmpv);
#ifndef VP_ASAN
  signal(SIGSEGV, onsig); signal(SIGBUS, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig);
#endif
  signal(SIGILL, onsig);
  alarm(60); signal(SIGALRM, onsig);
  void (*fn)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { printf("NOENTRY\n"); return 2; }
  fn();
  checkRed();
  printf("DONE\n"); return 0;
}
