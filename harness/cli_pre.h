// Force-included into main.c and rle_fuzz.c: file access, clock and output are stand-ins (cli.c), nothing outside the process is touched.
#ifndef cli_pre_h__
#define cli_pre_h__
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <inttypes.h>
#include <time.h>
#include <math.h>
#include <unistd.h>
#ifndef VP_NATIVE
#define __NO_CTYPE // character classes as functions (libc.c)
#endif
#include <ctype.h>
#include <strings.h>
int h_print(const char *fmt, ...);
int h_fprint(FILE *f, const char *fmt, ...);
int h_fputs(const char *s, FILE *f);
FILE *h_fopen(const char *name, const char *mode);
int h_fseek(FILE *f, long off, int whence);
long h_ftell(FILE *f);
size_t h_fread(void *p, size_t s, size_t n, FILE *f);
size_t h_fwrite(const void *p, size_t s, size_t n, FILE *f);
int h_fclose(FILE *f);
int h_fflush(FILE *f);
int h_clock(int id, struct timespec *t);
void h_sleep(uint64_t us);
void *h_aligned_alloc(size_t a, size_t n);
void h_exit(int code);
void h_trap(void);
double h_math(double x);
#define main cli_main
#undef printf
#undef puts
#undef putchar
#define printf h_print
#define puts(s) h_print("%s", s)
#define putchar(c) h_print("%c", c)
#define fputs h_fputs
#undef fputc
#undef putc
#define fputc(c, f) h_fprint(f, "%c", c)
#define putc(c, f) h_fprint(f, "%c", c)
#define perror(s) h_print("%s", s)
#define fprintf h_fprint
#define fopen h_fopen
#define fseek h_fseek
#define ftell h_ftell
#define rewind(f) ((void)h_fseek(f, 0, SEEK_SET))
#define fread h_fread
#define fwrite h_fwrite
#define fclose h_fclose
#define fflush h_fflush
#define clock_gettime(i, t) h_clock((int)(i), t)
#define usleep(n) h_sleep(n)
#define aligned_alloc h_aligned_alloc
#define exit h_exit
#define abort h_trap
#define __builtin_trap h_trap
#define __builtin_debugtrap h_trap
#define log2 h_math
#define sqrt h_math
#endif
