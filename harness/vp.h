// Interface between harnesses and the symbolic engine (engine/engine.cpp) or the native replay runtime (vp_native.c).
#ifndef vp_h__
#define vp_h__
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>

// Buffer `id` of `size` bytes whose first byte has address % 64 == align. The slackLo bytes before and the slackHi bytes
// behind it may be accessed too; anything further out is a violation. Contents are arbitrary ("junk").
void *vp_buf(uint32_t id, uint32_t size, uint32_t align, uint32_t slackLo, uint32_t slackHi);
void vp_sym(void *p, uint32_t n);                 // n fresh symbolic bytes
void vp_assume(bool c);                           // restrict the inputs
void vp_check(bool c, const char *msg);           // assertion
void vp_equal(const void *a, const void *b, uint32_t n, const char *msg);
void vp_untouched(const void *p, uint32_t n, const char *msg); // never written since vp_buf
int64_t vp_param(uint32_t i);                     // concrete job parameter
void vp_observe(const void *p, uint32_t n, const char *tag);   // compared between engine and native run
void vp_cover(const char *label);                 // reachability witness
uint64_t vp_conc(uint64_t v);                     // case split on the value
uint32_t vp_native(void);                         // 0 in the engine, 1 natively
void vp_flush(void);
// From now on, `other` is called once, before the schedule-th access to shared state (mutable global objects); NULL: ends that.
void vp_preempt(void (*other)(void), uint32_t schedule);
void vp_readonly(void *buf, bool ro);             // writes to this buffer are violations
void vp_done(void);                               // ends the run successfully
#endif
