/* C library pieces in plain C, so that symbolic contents are executed. */
#include <stddef.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <stdbool.h>
int isxdigit(int); int isalnum(int); int isupper(int); int islower(int); int isprint(int); int isspace(int); int isalpha(int); int isdigit(int);
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return NULL; }
void *memrchr(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *)s; for (size_t i = n; i-- > 0;) if (p[i] == (unsigned char)c) return (void *)(p + i); return NULL; }
int strcmp(const char *a, const char *b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && !isalnum(c) && c != ' '; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
static int errno_storage;
int *__errno_location() { return &errno_storage; }
static unsigned long long strtox(const char *s, char **end, int base, bool sgn, bool *neg, bool *ov) {
  const char *p = s; while (isspace((unsigned char)*p)) p++;
  *neg = false; if (*p == '-') { *neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; bool any = false; *ov = false;
  for (;; p++) { int c = (unsigned char)*p, d; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; any = true; unsigned long long nv; if (__builtin_mul_overflow(v, (unsigned long long)base, &nv) || __builtin_add_overflow(nv, (unsigned long long)d, &nv))  *ov = true; else v = nv; }
  if (end) *end = (char *)(any ? p : s);
  return v;
}
unsigned long long strtoull(const char *s, char **e, int b) { bool n, o; unsigned long long v = strtox(s, e, b, false, &n, &o); if (o) { errno_storage = ERANGE; return ~0ULL; } return n ? 0 - v : v; }
unsigned long strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
long long strtoll(const char *s, char **e, int b) { bool n, o; unsigned long long v = strtox(s, e, b, true, &n, &o); if (o || v > (n ? 1ULL << 63 : (1ULL << 63) - 1)) { errno_storage = ERANGE; return n ? (long long)(1ULL << 63) : (long long)((1ULL << 63) - 1); } return n ? (long long)(0 - v) : (long long)v; }
long strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
__attribute__((weak)) time_t time(time_t *t) { time_t v = 1700000000; if (t) *t = v; return v; }
__attribute__((weak)) int gettimeofday(struct timeval *tv, void *z) { tv->tv_sec = 1700000000; tv->tv_usec = 0; return 0; }
// aligned blocks: only the 2 MB scratch pads of the (stubbed) slow hash ask for large ones; they get a small block, and any access to it is still bounds-checked
extern void *malloc(unsigned long);
__attribute__((weak)) int posix_memalign(void **p, unsigned long a, unsigned long n) { (void)a; *p = malloc(n > 65536 ? 64 : n); return *p ? 0 : 12; }
