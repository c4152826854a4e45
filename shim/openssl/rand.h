#pragma once
#ifdef __cplusplus
extern "C" {
#endif
int RAND_bytes(unsigned char*, int);
int RAND_pseudo_bytes(unsigned char*, int);
void RAND_seed(const void*, int);
int RAND_status(void);
#ifdef __cplusplus
}
#endif
