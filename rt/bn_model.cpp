// Model of BIGNUM: two's-complement integers of BNW bits.
#include <openssl/bn.h>
#include <openssl/rand.h>
#include "sym.h"
typedef _BitInt(BNW) I;
typedef unsigned _BitInt(BNW) U;
struct bignum_st { I v; };
struct bignum_ctx { int d; };
extern "C" {
void* malloc(size_t); void free(void*); void* memcpy(void*, const void*, size_t); int isxdigit(int);
static U mag(const BIGNUM* a) { return a->v < 0 ? (U)-a->v : (U)a->v; }
static void fits(int n) { if (n < 0 || n >= BNW - 2) sym_inconclusive("number larger than the BIGNUM model (BNW)"); }
static void chk(const BIGNUM* a) { (void)a; }
BIGNUM* BN_new(void) { BIGNUM* b = (BIGNUM*)malloc(sizeof(BIGNUM)); b->v = 0; return b; }
void BN_free(BIGNUM* a) { free(a); }
void BN_clear_free(BIGNUM* a) { free(a); }
int BN_num_bits(const BIGNUM* a) {
  U m = mag(a);
  return sym_numbits(&m, BNW / 8);
}
int BN_is_bit_set(const BIGNUM* a, int n) { if (n < 0) return 0; if (n >= BNW - 1) return 0; return (int)((mag(a) >> n) & 1); }
static void put(BIGNUM* a, U m) { a->v = a->v < 0 ? -(I)m : (I)m; }
int BN_set_bit(BIGNUM* a, int n) { if (n < 0) return 0; fits(n); put(a, mag(a) | ((U)1 << n)); return 1; }
static int top(const BIGNUM* a) { return (BN_num_bits(a) + 63) / 64; }
// (clearing or masking changes nothing where the real functions report that the number is shorter)
int BN_clear_bit(BIGNUM* a, int n) { if (n < 0) return 0; if (n >= BNW) return 0; int r = (mag(a) >> (n / 64 * 64)) != 0; put(a, mag(a) & ~((U)1 << n)); return r; }
int BN_mask_bits(BIGNUM* a, int n) { if (n < 0) return 0; if (n >= BNW) return 0; int r = (mag(a) >> (n / 64 * 64)) != 0; put(a, mag(a) & (((U)1 << n) - 1)); return r; }
BIGNUM* BN_bin2bn(const unsigned char* s, int len, BIGNUM* r) {
  if (len < 0) return 0;
  if (!r) r = BN_new();
  U v = 0;
  int n = (int)sym_concretize((unsigned)len);
  for (int i = 0; i < n; i++) {
    int pos = 8 * (n - 1 - i);
    if (pos + 8 > BNW - 2) { if (sym_is_sym(s[i]) || s[i]) fits(BNW); continue; }
    v |= (U)s[i] << pos;
  }
  r->v = (I)v; return r;
}
int BN_bn2binpad(const BIGNUM* a, unsigned char* to, int len) {
  if (BN_num_bytes(a) > len) return -1;
  U m = mag(a);
  for (int i = 0; i < len; i++) { int pos = 8 * (len - 1 - i); to[i] = pos < BNW ? (unsigned char)(m >> pos) : 0; }
  return len;
}
int BN_bn2bin(const BIGNUM* a, unsigned char* to) {
  int n = (int)sym_concretize((unsigned)BN_num_bytes(a));
  U m = mag(a);
  for (int i = 0; i < n; i++) to[i] = (unsigned char)(m >> (8 * (n - 1 - i)));
  return n;
}
BIGNUM* BN_lebin2bn(const unsigned char* s, int len, BIGNUM* r) {
  if (len < 0) return 0; if (!r) r = BN_new(); U v = 0;
  for (int i = 0; i < len; i++) { if (8 * i + 8 > BNW - 2) { if (sym_is_sym(s[i]) || s[i]) fits(BNW); continue; } v |= (U)s[i] << (8 * i); }
  r->v = (I)v; return r;
}
int BN_bn2lebinpad(const BIGNUM* a, unsigned char* to, int len) {
  if (BN_num_bytes(a) > len) return -1;
  U m = mag(a); for (int i = 0; i < len; i++) to[i] = 8 * i < BNW ? (unsigned char)(m >> (8 * i)) : 0;
  return len;
}
int BN_hex2bn(BIGNUM** a, const char* s) {
  if (!s || !*s) return 0;
  int neg = 0; if (*s == '-') { neg = 1; s++; }
  int n = 0; while (isxdigit((unsigned char)s[n])) n++;
  if (n == 0) return 0;
  if (!a) return n + neg;
  BIGNUM* r = *a; if (!r) { r = BN_new(); *a = r; }
  U v = 0;
  for (int i = 0; i < n; i++) {
    unsigned c = (unsigned char)s[i]; unsigned d = c <= '9' ? c - '0' : (c | 32) - 'a' + 10; int pos = 4 * (n - 1 - i);
    if (pos + 4 > BNW - 2) { if (sym_is_sym(d) || d) fits(BNW); continue; }
    v |= (U)(d & 15) << pos;
  }
  r->v = neg ? -(I)v : (I)v; return n + neg;
}
char* BN_bn2hex(const BIGNUM* a) {
  U m = mag(a); int neg = a->v < 0; int n = (int)sym_concretize((unsigned)BN_num_bytes(a));
  char* s = (char*)malloc(2 * n + 3); int k = 0;
  if (n == 0) { s[0] = '0'; s[1] = 0; return s; }
  if (neg) s[k++] = '-';
  for (int i = 2 * n - 1; i >= 0; i--) { unsigned d = (unsigned)((m >> (4 * i)) & 15); s[k++] = (char)(d + (d < 10 ? '0' : 'A' - 10)); }
  s[k] = 0; return s;
}
int BN_dec2bn(BIGNUM** a, const char* s) {
  if (!s || !*s) return 0; int neg = 0; if (*s == '-') { neg = 1; s++; }
  int n = 0; while (s[n] >= '0' && s[n] <= '9') n++;
  if (!n) return 0; if (!a) return n + neg;
  BIGNUM* r = *a; if (!r) { r = BN_new(); *a = r; }
  U v = 0; for (int i = 0; i < n; i++) v = v * 10 + (unsigned)(s[i] - '0');
  r->v = neg ? -(I)v : (I)v; return n + neg;
}
int BN_add(BIGNUM* r, const BIGNUM* a, const BIGNUM* b) { r->v = a->v + b->v; return 1; }
int BN_sub(BIGNUM* r, const BIGNUM* a, const BIGNUM* b) { r->v = a->v - b->v; return 1; }
int BN_mul(BIGNUM* r, const BIGNUM* a, const BIGNUM* b, BN_CTX*) { r->v = a->v * b->v; return 1; }
int BN_add_word(BIGNUM* a, BN_ULONG w) { a->v += (I)(U)w; return 1; }
int BN_lshift(BIGNUM* r, const BIGNUM* a, int n) { if (n < 0) return 0; if (n >= BNW) fits(n); U m = mag(a) << n; int neg = a->v < 0; if (n && (U)(m >> n) != mag(a)) fits(BNW); r->v = neg ? -(I)m : (I)m; return 1; }
int BN_rshift(BIGNUM* r, const BIGNUM* a, int n) { if (n < 0) return 0; U m = n >= BNW ? (U)0 : mag(a) >> n; int neg = a->v < 0; r->v = neg ? -(I)m : (I)m; return 1; }
int BN_lshift1(BIGNUM* r, const BIGNUM* a) { return BN_lshift(r, a, 1); }
int BN_rshift1(BIGNUM* r, const BIGNUM* a) { return BN_rshift(r, a, 1); }
int BN_cmp(const BIGNUM* a, const BIGNUM* b) { return a->v < b->v ? -1 : a->v > b->v ? 1 : 0; }
int BN_ucmp(const BIGNUM* a, const BIGNUM* b) { return mag(a) < mag(b) ? -1 : mag(a) > mag(b) ? 1 : 0; }
int BN_is_zero(const BIGNUM* a) { return a->v == 0; }
int BN_is_one(const BIGNUM* a) { return a->v == 1; }
int BN_is_odd(const BIGNUM* a) { return (int)(mag(a) & 1); }
int BN_is_negative(const BIGNUM* a) { return a->v < 0; }
void BN_set_negative(BIGNUM* a, int n) { I m = (I)mag(a); a->v = n ? -m : m; }
BIGNUM* BN_copy(BIGNUM* a, const BIGNUM* b) { a->v = b->v; return a; }
BIGNUM* BN_dup(const BIGNUM* a) { if (!a) return 0; BIGNUM* r = BN_new(); r->v = a->v; return r; }
void BN_swap(BIGNUM* a, BIGNUM* b) { I t = a->v; a->v = b->v; b->v = t; }
int BN_set_word(BIGNUM* a, BN_ULONG w) { a->v = (I)(U)w; return 1; }
BN_ULONG BN_get_word(const BIGNUM* a) { U m = mag(a); return (m >> 64) ? ~0UL : (BN_ULONG)m; }
int BN_zero(BIGNUM* a) { a->v = 0; return 1; }
void BN_zero_ex(BIGNUM* a) { a->v = 0; }
int BN_one(BIGNUM* a) { a->v = 1; return 1; }
void BN_clear(BIGNUM* a) { a->v = 0; }
int BN_rand(BIGNUM* a, int bits, int top, int bottom) {
  if (bits < 0) return 0; if (bits >= BNW - 2) fits(bits);
  unsigned char t[BNW / 8 + 8]; int nb = (bits + 7) / 8; sym_bytes(t, nb, "bnrand");
  U v = 0; for (int i = 0; i < nb; i++) v |= (U)t[i] << (8 * i);
  v &= ((U)1 << bits) - 1;
  if (top >= 0 && bits) { v |= (U)1 << (bits - 1); if (top == 1 && bits > 1) v |= (U)1 << (bits - 2); }
  if (bottom && bits) v |= 1;
  a->v = (I)v; return 1;
}
static bignum_ctx gCtx;
BN_CTX* BN_CTX_new(void) { return &gCtx; }
void BN_CTX_free(BN_CTX*) {}
// remainder by a small known modulus of a number known to be small: narrow arithmetic
static int smallMod(const BIGNUM* a, const BIGNUM* m, unsigned* out) {
  U t = a->v < 0 ? ~(U)a->v : (U)a->v; uint64_t lo = (uint64_t)t, n = (uint64_t)(U)m->v;
  if (sym_is_sym(n) || (m->v >> 8) != 0 || n == 0 || !sym_must((t >> 16) == 0)) return 0;
  (void)lo; unsigned x = (unsigned)(int)(int64_t)a->v + (unsigned)n * 2048u * (65536u / ((unsigned)n * 2048u) + 1);
  *out = (x & 0xfffff) % (unsigned)n; return 1;
}
int BN_nnmod(BIGNUM* r, const BIGNUM* a, const BIGNUM* m, BN_CTX*) { unsigned s; if (smallMod(a, m, &s)) { r->v = (I)(U)s; return 1; } I x = a->v % m->v; if (x < 0) x += (I)mag(m); r->v = x; return 1; }
int BN_mod(BIGNUM* r, const BIGNUM* a, const BIGNUM* m, BN_CTX*) { r->v = a->v % m->v; return 1; }
void CRYPTO_free(void* p, const char*, int) { free(p); }
void* CRYPTO_malloc(size_t n, const char*, int) { return malloc(n); }
int RAND_bytes(unsigned char* b, int n) { sym_bytes(b, n, "rand"); return 1; }
int RAND_pseudo_bytes(unsigned char* b, int n) { sym_bytes(b, n, "rand"); return 1; }
void RAND_seed(const void*, int) {}
int RAND_status(void) { return 1; }
}
