#pragma once
#include "openssl/bn.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct rsa_st RSA;
#define RSA_F4 0x10001L
RSA* RSA_new(void); void RSA_free(RSA*);
int RSA_generate_key_ex(RSA*, int, BIGNUM*, BN_GENCB*);
int RSA_check_key(const RSA*);
void RSA_get0_key(const RSA*, const BIGNUM**, const BIGNUM**, const BIGNUM**);
#ifdef __cplusplus
}
#endif
