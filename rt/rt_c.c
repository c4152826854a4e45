// libc pieces, as C.
#include <stddef.h>
#include <stdint.h>
void* malloc(size_t); void free(void*); void* memcpy(void*, const void*, size_t); int* __errno_location(void);
int memcmp(const void* a, const void* b, size_t n) {
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; int r = 0;
  for (size_t i = n; i-- > 0;) { int d = (int)x[i] - (int)y[i]; r = d != 0 ? d : r; }
  return r;
}
int bcmp(const void* a, const void* b, size_t n) {
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; unsigned r = 0;
  for (size_t i = 0; i < n; i++) r |= x[i] ^ y[i];
  return r;
}
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
int strncmp(const char* a, const char* b, size_t n) { size_t i = 0; if (!n) return 0; while (i + 1 < n && a[i] && a[i] == b[i]) i++; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
char* strcpy(char* d, const char* s) { size_t i = 0; while ((d[i] = s[i])) i++; return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
int sym_is_sym(unsigned long);
void* memchr(const void* s, int c, size_t n) { if (n <= 64 && sym_is_sym((unsigned char)c)) { const unsigned char* q = (const unsigned char*)s; const unsigned char* r = 0; for (size_t i = n; i-- > 0;) r = q[i] == (unsigned char)c ? q + i : r; return (void*)r; } const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
char* strstr(const char* a, const char* b) { size_t n = strlen(b); for (;; a++) { if (!strncmp(a, b, n)) return (char*)a; if (!*a) return 0; } }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = (char*)malloc(n); memcpy(r, s, n); return r; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isspace(int c) { return c == 32 || (c >= 9 && c <= 13); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) { return c == 32 || c == 9; }
int tolower(int c) { return c + (isupper(c) ? 32 : 0); }
int toupper(int c) { return c - (islower(c) ? 32 : 0); }
unsigned long sym_ite64(int c, unsigned long a, unsigned long b);
static int digitv(int c) { int d = c - '0', l = (c | 32) - 'a'; return (int)sym_ite64((unsigned)d < 10u, d, sym_ite64((unsigned)l < 26u, l + 10, 99)); }
static unsigned long sto(const char* s, char** end, int base, int sgn) {
  const char* p = s; int neg = 0;
  while (isspace((unsigned char)*p)) p++;
  if (*p == '+') p++; else if (*p == '-') { neg = 1; p++; }
  if ((base == 0 || base == 16) && *p == '0' && (p[1] | 32) == 'x' && digitv((unsigned char)p[2]) < 16) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; int any = 0, ov = 0;
  while (digitv((unsigned char)*p) < base) {
    unsigned d = digitv((unsigned char)*p);
    if (base == 16) { ov |= (v >> 60) != 0; v = (v << 4) | (d & 15); any = 1; p++; continue; }
    unsigned __int128 t = (unsigned __int128)v * base + d;
    if (t >> 64) ov = 1;
    v = (unsigned long)t; any = 1; p++;
  }
  if (end) *end = (char*)(any ? p : s);
  if (sgn) {
    unsigned long lim = neg ? 0x8000000000000000UL : 0x7fffffffffffffffUL;
    if (ov || v > lim) { *__errno_location() = 34; return lim; }
  } else if (ov) { *__errno_location() = 34; return ~0UL; }
  return neg ? -v : v;
}
unsigned long strtoul(const char* s, char** e, int b) { return sto(s, e, b, 0); }
unsigned long long strtoull(const char* s, char** e, int b) { return sto(s, e, b, 0); }
long strtol(const char* s, char** e, int b) { return (long)sto(s, e, b, 1); }
long long strtoll(const char* s, char** e, int b) { return (long)sto(s, e, b, 1); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return sto(s, e, b, 0); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return sto(s, e, b, 0); }
long __isoc23_strtol(const char* s, char** e, int b) { return (long)sto(s, e, b, 1); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return (long)sto(s, e, b, 1); }
int atoi(const char* s) { return (int)sto(s, 0, 10, 1); }
long atol(const char* s) { return (long)sto(s, 0, 10, 1); }
long long atoll(const char* s) { return (long)sto(s, 0, 10, 1); }
int abs(int x) { return x < 0 ? -x : x; }
static const char kErr[] = "error";
char* strerror(int e) { return (char*)kErr; }
void qsort(void* b, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
  char* p = (char*)b;
  for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * sz, p + j * sz) > 0; j--)
    for (size_t k = 0; k < sz; k++) { char t = p[(j - 1) * sz + k]; p[(j - 1) * sz + k] = p[j * sz + k]; p[j * sz + k] = t; }
}
