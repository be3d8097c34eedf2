/* C library functions executed symbolically (strings, sorting, searching). */
#include <stddef.h>
#include <stdlib.h>
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
static int lower_(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int tolower(int c) { return lower_(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int strcasecmp(const char *a, const char *b) { while (*a && lower_(*a) == lower_(*b)) { a++; b++; } return lower_((unsigned char)*a) - lower_((unsigned char)*b); }
int strncasecmp(const char *a, const char *b, size_t n) { while (n && *a && lower_(*a) == lower_(*b)) { a++; b++; n--; } return n ? lower_((unsigned char)*a) - lower_((unsigned char)*b) : 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i; for (i = 0; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t i; for (i = 0; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
char *strdup(const char *s) { char *r = (char *)malloc(strlen(s) + 1); strcpy(r, s); return r; }
static char *tokp;
char *strtok(char *s, const char *d) { if (s) tokp = s; if (!tokp) return 0; while (*tokp && strchr(d, *tokp)) tokp++; if (!*tokp) { tokp = 0; return 0; } char *r = tokp; while (*tokp && !strchr(d, *tokp)) tokp++; if (*tokp) *tokp++ = 0; else tokp = 0; return r; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] - y[i]; return 0; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void sx_fail(const char *);
void *memcpy(void *d, const void *s, size_t n) { const char *x = d, *y = s; if (x != y && n && x < y + n && y < x + n) sx_fail("memcpy between overlapping regions"); __builtin_memmove(d, s, n); return d; }
void *memset(void *d, int c, size_t n) { __builtin_memset(d, c, n); return d; }
void *memmove(void *d, const void *s, size_t n) { __builtin_memmove(d, s, n); return d; }
char *__xpg_basename(char *p) { char *s = strrchr(p, '/'); return s ? s + 1 : p; }
int abs(int x) { return x < 0 ? -x : x; }
static void swap_(char *a, char *b, size_t n) { for (size_t i = 0; i < n; i++) { char t = a[i]; a[i] = b[i]; b[i] = t; } }
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  if (n < 2) return;
  char *b = base, *t = malloc(sz);
  for (size_t i = 1; i < n; i++) {
    size_t j = i; __builtin_memmove(t, b + i * sz, sz);
    while (j > 0 && cmp(b + (j - 1) * sz, t) > 0) { __builtin_memmove(b + j * sz, b + (j - 1) * sz, sz); j--; }
    __builtin_memmove(b + j * sz, t, sz);
  }
  free(t);
}
void *bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  size_t l = 0, u = n;
  while (l < u) { size_t i = (l + u) / 2; const void *p = (const char *)base + i * sz; int c = cmp(key, p); if (c < 0) u = i; else if (c > 0) l = i + 1; else return (void *)p; }
  return 0;
}
int pthread_mutex_lock(void *m) { return 0; }
int pthread_mutex_unlock(void *m) { return 0; }
