// RSA with the modulus 33 in place of a generated key: every residue, random
// number and exponentiation is exact, so the solver decides over all of them.
// Randomness is an input (gRandFill scripts it).
#pragma once
#include <openssl/bn.h>
#include <openssl/rsa.h>
#include "sym.h"
static const int kMod = 33, kLambda = 10;
static int inv10(int e) { for (int d = 1; d < 10; d++) if (e * d % 10 == 1) return d; return 0; }
static unsigned (*gRandFill)(int bits) = nullptr;
static unsigned gRandCount;
extern "C" int BN_rand(BIGNUM* a, int bits, int, int) {
  gRandCount++;
  if (gRandFill) { BN_set_word(a, gRandFill(bits)); return 1; }
  unsigned char b[1]; sym_bytes(b, 1, "draw"); BN_bin2bn(b, 1, a); return 1;
}
extern "C" int RSA_check_key(const RSA*) { return 1; }
#ifdef VT_NATIVE
extern "C" int RSA_generate_key_ex(RSA* r, int, BIGNUM* e, BN_GENCB*) {
  int d = inv10((int)(BN_get_word(e) % 10)); if (!d) return 0;
  BIGNUM *n = BN_new(), *dd = BN_new(); BN_set_word(n, 33); BN_set_word(dd, d);
  return RSA_set0_key(r, n, BN_dup(e), dd);
}
#else
struct rsa_st { BIGNUM *n, *e, *d; };
extern "C" {
RSA* RSA_new(void) { RSA* r = new rsa_st; r->n = r->e = r->d = nullptr; return r; }
void RSA_free(RSA* r) { if (!r) return; BN_free(r->n); BN_free(r->e); BN_free(r->d); delete r; }
int RSA_generate_key_ex(RSA* r, int, BIGNUM* e, BN_GENCB*) {
  int d = inv10((int)(BN_get_word(e) % 10)); if (!d) return 0;
  r->n = BN_new(); BN_set_word(r->n, 33); r->e = BN_dup(e); r->d = BN_new(); BN_set_word(r->d, d);
  return 1;
}
void RSA_get0_key(const RSA* r, const BIGNUM** n, const BIGNUM** e, const BIGNUM** d) { if (n) *n = r->n; if (e) *e = r->e; if (d) *d = r->d; }
const BIGNUM* RSA_get0_n(const RSA* r) { return r->n; }
const BIGNUM* RSA_get0_e(const RSA* r) { return r->e; }
const BIGNUM* RSA_get0_d(const RSA* r) { return r->d; }
int RSA_size(const RSA*) { return 1; }
static unsigned char pw(int x, unsigned long p, int m) { unsigned long r = 1, b = x % m; while (p) { if (p & 1) r = r * b % m; b = b * b % m; p >>= 1; } return (unsigned char)(r % m); }
int BN_mod_exp(BIGNUM* r, const BIGNUM* a, const BIGNUM* p, const BIGNUM* m, BN_CTX* c) {
  unsigned long e = BN_get_word(p), n = BN_get_word(m);
  if (sym_is_sym(e) || sym_is_sym(n) || n == 0 || n > 64 || BN_is_negative(p)) sym_inconclusive("exponentiation outside the small RSA model");
  BIGNUM* t = BN_new(); BN_nnmod(t, a, m, c);
  unsigned char T[64]; for (unsigned i = 0; i < 64; i++) T[i] = i < n ? pw(i, e, n) : 0;
  unsigned k = (unsigned)BN_get_word(t) & 63; BN_free(t);
  unsigned v = 0; for (unsigned i = 0; i < n; i++) v |= (0u - (unsigned)(k == i)) & T[i];
  BN_set_word(r, v); return 1;
}
}
#endif
