// C library functions for the symbolic run.
#include <stddef.h>
void *malloc(size_t);
void *memcpy(void *, const void *, size_t);
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) {
  for (size_t i = 0;; ++i) {
    unsigned char x = a[i], y = b[i];
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
}
int strncmp(const char *a, const char *b, size_t n) {
  for (size_t i = 0; i < n; ++i) {
    unsigned char x = a[i], y = b[i];
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
  return 0;
}
void *memchr(const void *s, int c, size_t n) {
  const unsigned char *p = (const unsigned char *)s;
  for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void *)(p + i);
  return 0;
}
char *strchr(const char *s, int c) {
  for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return 0; }
}
char *strrchr(const char *s, int c) {
  char *r = 0;
  for (;; ++s) { if (*s == (char)c) r = (char *)s; if (!*s) return (char *)r; }
}
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *strncpy(char *d, const char *s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; ++i) d[i] = s[i];
  for (; i < n; ++i) d[i] = 0;
  return d;
}
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) ++i; return i; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)malloc(n); if (r) memcpy(r, s, n); return r; }
char *strstr(const char *h, const char *n) {
  size_t k = strlen(n);
  for (;; ++h) { if (strncmp(h, n, k) == 0) return (char *)h; if (!*h) return 0; }
}
// Written without branches, so that a symbolic character does not split the run.
int isdigit(int c) { return (unsigned)c - '0' < 10u; }
int isalpha(int c) { return ((unsigned)c | 32u) - 'a' < 26u; }
int isalnum(int c) { return isdigit(c) | isalpha(c); }
int isspace(int c) { return (c == ' ') | ((unsigned)c - 9u < 5u); }
int isxdigit(int c) { return isdigit(c) | (((unsigned)c | 32u) - 'a' < 6u); }
int isupper(int c) { return (unsigned)c - 'A' < 26u; }
int islower(int c) { return (unsigned)c - 'a' < 26u; }
int toupper(int c) { return c - 32 * ((unsigned)c - 'a' < 26u); }
int tolower(int c) { return c + 32 * ((unsigned)c - 'A' < 26u); }
// Base 10 or 16; saturates as the standard says, with errno (one for all threads).
static int theErrno;
int *__errno_location(void) { return &theErrno; }
unsigned long strtoul(const char *s, char **end, int base) {
  const char *p = s;
  int neg = 0, any = 0, over = 0;
  unsigned long v = 0, lim = ~0ul / (unsigned long)base;
  while (isspace((unsigned char)*p)) ++p;
  if (*p == '-') { neg = 1; ++p; } else if (*p == '+') ++p;
  if (base == 16 && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) p += 2;
  for (;; ++p) {
    unsigned c = (unsigned char)*p, al = (unsigned)isalpha((int)c), d = ((c | 32u) - 87u) * al + (c - 48u) * (1u - al);
    if (d >= (unsigned)base) break;
    any = 1;
    over |= v > lim || v * (unsigned long)base > ~0ul - d;
    v = v * (unsigned long)base + d;
  }
  if (end) *end = (char *)(any ? p : s);
  if (over) theErrno = 34;
  return over ? ~0ul : neg ? 0ul - v : v;
}
unsigned long long strtoull(const char *s, char **end, int base) { return strtoul(s, end, base); }
unsigned long __isoc23_strtoul(const char *s, char **end, int base) { return strtoul(s, end, base); }
unsigned long long __isoc23_strtoull(const char *s, char **end, int base) { return strtoul(s, end, base); }
long strtol(const char *s, char **end, int base) {
  const char *p = s;
  while (isspace((unsigned char)*p)) ++p;
  int neg = *p == '-';
  if (*p == '-' || *p == '+') ++p;
  if ((unsigned char)*p == '+' || *p == '-' || isspace((unsigned char)*p)) { if (end) *end = (char *)s; return 0; }
  char *e;
  int saved = theErrno;
  theErrno = 0;
  unsigned long v = strtoul(p, &e, base);
  int over = theErrno == 34 || v > (unsigned long)0x7fffffffffffffff + neg;
  theErrno = over ? 34 : saved;
  if (end) *end = e == p ? (char *)s : e;
  if (over) return neg ? -0x7fffffffffffffff - 1 : 0x7fffffffffffffff;
  return (long)(neg ? 0ul - v : v);
}
long long strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
long __isoc23_strtol(const char *s, char **end, int base) { return strtol(s, end, base); }
long long __isoc23_strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
