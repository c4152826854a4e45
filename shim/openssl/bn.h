// Model of the part of OpenSSL's BIGNUM interface used here: values are
// two's-complement integers of BNW bits (BNW bounds every number of a run; a
// larger number ends the path as inconclusive, never silently wraps).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifndef BNW
#define BNW 256
#endif
typedef unsigned long BN_ULONG;
#ifndef BN_ULONG
#define BN_ULONG unsigned long
#endif
struct bignum_st;
typedef struct bignum_st BIGNUM;
typedef struct bignum_ctx BN_CTX;
typedef struct bn_gencb_st BN_GENCB;
#ifdef __cplusplus
extern "C" {
#endif
BIGNUM* BN_new(void);
void BN_free(BIGNUM*);
void BN_clear_free(BIGNUM*);
int BN_num_bits(const BIGNUM*);
#define BN_num_bytes(a) ((BN_num_bits(a) + 7) / 8)
int BN_is_bit_set(const BIGNUM*, int);
int BN_set_bit(BIGNUM*, int);
int BN_clear_bit(BIGNUM*, int);
int BN_mask_bits(BIGNUM*, int);
BIGNUM* BN_bin2bn(const unsigned char*, int, BIGNUM*);
int BN_bn2bin(const BIGNUM*, unsigned char*);
int BN_bn2binpad(const BIGNUM*, unsigned char*, int);
BIGNUM* BN_lebin2bn(const unsigned char*, int, BIGNUM*);
int BN_bn2lebinpad(const BIGNUM*, unsigned char*, int);
int BN_hex2bn(BIGNUM**, const char*);
char* BN_bn2hex(const BIGNUM*);
int BN_dec2bn(BIGNUM**, const char*);
int BN_add(BIGNUM*, const BIGNUM*, const BIGNUM*);
int BN_sub(BIGNUM*, const BIGNUM*, const BIGNUM*);
int BN_mul(BIGNUM*, const BIGNUM*, const BIGNUM*, BN_CTX*);
int BN_add_word(BIGNUM*, BN_ULONG);
int BN_lshift(BIGNUM*, const BIGNUM*, int);
int BN_rshift(BIGNUM*, const BIGNUM*, int);
int BN_lshift1(BIGNUM*, const BIGNUM*);
int BN_rshift1(BIGNUM*, const BIGNUM*);
int BN_cmp(const BIGNUM*, const BIGNUM*);
int BN_ucmp(const BIGNUM*, const BIGNUM*);
int BN_is_zero(const BIGNUM*);
int BN_is_one(const BIGNUM*);
int BN_is_odd(const BIGNUM*);
int BN_is_negative(const BIGNUM*);
void BN_set_negative(BIGNUM*, int);
BIGNUM* BN_copy(BIGNUM*, const BIGNUM*);
BIGNUM* BN_dup(const BIGNUM*);
void BN_swap(BIGNUM*, BIGNUM*);
int BN_set_word(BIGNUM*, BN_ULONG);
BN_ULONG BN_get_word(const BIGNUM*);
int BN_zero(BIGNUM*);
void BN_zero_ex(BIGNUM*);
int BN_one(BIGNUM*);
void BN_clear(BIGNUM*);
int BN_rand(BIGNUM*, int, int, int);
BN_CTX* BN_CTX_new(void);
void BN_CTX_free(BN_CTX*);
int BN_nnmod(BIGNUM*, const BIGNUM*, const BIGNUM*, BN_CTX*);
int BN_mod(BIGNUM*, const BIGNUM*, const BIGNUM*, BN_CTX*);
int BN_mod_exp(BIGNUM*, const BIGNUM*, const BIGNUM*, const BIGNUM*, BN_CTX*);
void CRYPTO_free(void*, const char*, int);
void* CRYPTO_malloc(size_t, const char*, int);
#define OPENSSL_free(p) CRYPTO_free(p, "", 0)
#define OPENSSL_malloc(n) CRYPTO_malloc(n, "", 0)
#ifdef __cplusplus
}
#endif
