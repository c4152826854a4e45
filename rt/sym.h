// Harness interface.  Under irsym these are engine built-ins; natively they
// are provided by replay.cpp, which feeds a counterexample back.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void sym_bytes(void* p, size_t n, const char* name);
uint64_t sym_u64(const char* name);
uint32_t sym_u32(const char* name);
uint8_t sym_u8(const char* name);
int sym_bool(const char* name);
uint32_t sym_range(uint64_t n, const char* name);   // symbolic value in [0,n)
uint32_t sym_choose(uint64_t n, const char* name);  // enumerated value in [0,n)
void sym_assume(int c);
void sym_assert(int c, const char* msg);
void sym_fail(const char* msg);
void sym_cover(const char* name);
void sym_cover_if(int c, const char* name);
void sym_shard_point(void);
int sym_merge(int on);
void sym_tag(const char* name, uint64_t v);   // states with different tags are not merged
int64_t sym_param(const char* name, int64_t dflt);
int sym_spawn(void (*f)(void*), void* arg);
void sym_block(void);
void sym_notify(void);
void sym_join(void);
void sym_expect_block(int on);
void sym_end(void) __attribute__((noreturn));
void sym_inconclusive(const char* why) __attribute__((noreturn));
int sym_numbits(const void* p, size_t n);
int sym_is_sym(uint64_t v);
uint64_t sym_concretize(uint64_t v);
uint64_t sym_ite64(int c, uint64_t a, uint64_t b);
int sym_must(int c);
int sym_may(int c);
void sym_uf(const char* name, const void* in, size_t ni, void* out, size_t no);
uint8_t sym_sbox(uint8_t b);
void sym_aes_interp(int on);
int sym_memeq(const void* a, const void* b, size_t n);
uint64_t sym_objsize(const void* p);
uint64_t sym_live_heap(void);
void sym_print(const char* name, uint64_t v);
// in-memory files
void sym_fs_put(const char* name, const void* data, size_t n);
size_t sym_fs_get(const char* name, void* data, size_t cap);
int sym_fs_exists(const char* name);
void sym_fs_remove(const char* name);
#ifdef __cplusplus
}
#endif
