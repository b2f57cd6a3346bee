// String functions for the symbolic encoding (the native replay uses the C library).
#include <stddef.h>
#include <stdint.h>
int strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; if (!a[i]) return 0; } return 0; }
int strcmp(const char *a, const char *b) { for (size_t i = 0;; i++) { if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; if (!a[i]) return 0; } }
size_t strlen(const char *a) { size_t n = 0; while (a[n]) n++; return n; }
char *strchr(const char *a, int c) { for (;; a++) { if (*a == (char)c) return (char *)a; if (!*a) return NULL; } }
long strtol(const char *a, char **e, int base) { long v = 0; int neg = 0; while (*a == ' ' || (*a >= 9 && *a <= 13)) a++; if (*a == '-') neg = 1, a++; else if (*a == '+') a++; for (; *a >= '0' && *a <= '9'; a++) v = v * 10 + (*a - '0'); (void)base; if (e) *e = (char *)a; return neg ? -v : v; }
int atoi(const char *a) { return (int)strtol(a, NULL, 10); }
long long strtoll(const char *a, char **e, int base) { return strtol(a, e, base); }
unsigned long strtoul(const char *a, char **e, int base) { return (unsigned long)strtol(a, e, base); }
unsigned long long strtoull(const char *a, char **e, int base) { return (unsigned long long)strtol(a, e, base); }
long atol(const char *a) { return strtol(a, NULL, 10); }
long long atoll(const char *a) { return strtol(a, NULL, 10); }
char *strrchr(const char *a, int c) { const char *r = NULL; for (;; a++) { if (*a == (char)c) r = a; if (!*a) return (char *)r; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *a = p; for (size_t i = 0; i < n; i++) if (a[i] == (unsigned char)c) return (void *)(a + i); return NULL; }
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
size_t strnlen(const char *a, size_t m) { size_t n = 0; while (n < m && a[n]) n++; return n; }
char *strstr(const char *a, const char *b) { size_t n = strlen(b); for (;; a++) { if (!strncmp(a, b, n)) return (char *)a; if (!*a) return NULL; } }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int strcasecmp(const char *a, const char *b) { for (size_t i = 0;; i++) { int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]); if (x != y) return x - y; if (!x) return 0; } return 0; }
size_t strspn(const char *a, const char *set) { size_t n = 0; while (a[n] && strchr(set, a[n])) n++; return n; }
size_t strcspn(const char *a, const char *set) { size_t n = 0; while (a[n] && !strchr(set, a[n])) n++; return n; }
#undef isdigit
int (isdigit)(int c) { return c >= '0' && c <= '9'; }
int (isspace)(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int (isupper)(int c) { return c >= 'A' && c <= 'Z'; }
int (islower)(int c) { return c >= 'a' && c <= 'z'; }
int (isalpha)(int c) { return isupper(c) || islower(c); }
int (isalnum)(int c) { return isalpha(c) || isdigit(c); }
int (isprint)(int c) { return c >= 32 && c < 127; }
void qsort(void *b, size_t n, size_t s, int (*c)(const void *, const void *)) { unsigned char *p = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && c(p + (j - 1) * s, p + j * s) > 0; j--) for (size_t k = 0; k < s; k++) { unsigned char t = p[(j - 1) * s + k]; p[(j - 1) * s + k] = p[j * s + k]; p[j * s + k] = t; } }
void *bsearch(const void *key, const void *b, size_t n, size_t s, int (*c)(const void *, const void *)) { const unsigned char *p = b; for (size_t i = 0; i < n; i++) if (c(key, p + i * s) == 0) return (void *)(p + i * s); return 0; }
