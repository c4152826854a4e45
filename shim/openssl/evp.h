#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct evp_md_st EVP_MD;
typedef struct evp_md_ctx_st EVP_MD_CTX;
#define EVP_MAX_MD_SIZE 64
EVP_MD_CTX* EVP_MD_CTX_new(void); void EVP_MD_CTX_free(EVP_MD_CTX*);
#define EVP_MD_CTX_create() EVP_MD_CTX_new()
#define EVP_MD_CTX_destroy(c) EVP_MD_CTX_free(c)
const EVP_MD* EVP_sha256(void);
int EVP_DigestInit_ex(EVP_MD_CTX*, const EVP_MD*, void*);
int EVP_DigestUpdate(EVP_MD_CTX*, const void*, size_t);
int EVP_DigestFinal_ex(EVP_MD_CTX*, unsigned char*, unsigned int*);
#define OpenSSL_add_all_digests() ((void)0)
#define EVP_cleanup() ((void)0)
#ifdef __cplusplus
}
#endif
