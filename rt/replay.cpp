// Native side of the harness interface: feeds one concrete input (a
// counterexample or a witness) to the same harness linked with the real
// libraries.  Exit codes: 0 the harness ran to its end, 42 an assertion or
// environment check failed, 43 an assumption did not hold, others: crash.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <ucontext.h>
#include <unistd.h>
#include <exception>
#include "sym.h"
extern "C" void harness_entry(void);
static std::map<std::string, std::string> gVals;   // name -> bytes
static std::map<std::string, uint64_t> gChoice;
static std::map<std::string, unsigned> gCnt;
static std::map<std::string, int64_t> gParams;
static uint64_t gRng; static bool gRandomise;
static uint64_t rnd() { gRng ^= gRng << 13; gRng ^= gRng >> 7; gRng ^= gRng << 17; return gRng; }
static void fin(int code, const char* what) { printf("REPLAY %s\n", what); fflush(stdout); _exit(code); }
static bool isRandom(const std::string& n) { return n.rfind("rand", 0) == 0 || n.rfind("rnd", 0) == 0 || n.rfind("bnrand", 0) == 0; }
static void fetch(void* p, size_t n, const char* name) {
  std::string k = std::string(name) + "#" + std::to_string(gCnt[name]++);
  memset(p, 0, n);
  auto it = gVals.find(k);
  if (it == gVals.end() || (gRandomise && isRandom(k))) {
    if (isRandom(k)) for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = rnd() >> 24;
    return;
  }
  memcpy(p, it->second.data(), std::min(n, it->second.size()));
}
struct Co { ucontext_t c; bool blocked = false, done = false; char* stk = nullptr; void (*f)(void*) = nullptr; void* a = nullptr; };
static std::vector<Co*> gCo; static int gCur = 0; static bool gExpectBlock;
static void sched() {
  int n = gCo.size(), me = gCur;
  for (int k = 1; k <= n; k++) { int i = (me + k) % n; if (!gCo[i]->done && !gCo[i]->blocked) { gCur = i; if (i != me) swapcontext(&gCo[me]->c, &gCo[i]->c); return; } }
  if (gExpectBlock) fin(0, "PASS (blocked as expected)");
  fin(42, "VIOLATION deadlock: every party is blocked waiting for data");
}
static void tramp() { Co* c = gCo[gCur]; try { c->f(c->a); } catch (...) { fin(42, "VIOLATION uncaught exception"); } c->done = true; for (auto x : gCo) x->blocked = false; sched(); }
extern "C" {
void sym_bytes(void* p, size_t n, const char* name) { if (n) fetch(p, n, name); }
uint64_t sym_u64(const char* n) { uint64_t v; fetch(&v, 8, n); return v; }
uint32_t sym_u32(const char* n) { uint32_t v; fetch(&v, 4, n); return v; }
uint8_t sym_u8(const char* n) { uint8_t v; fetch(&v, 1, n); return v; }
int sym_bool(const char* n) { uint8_t v; fetch(&v, 1, n); return v & 1; }
uint32_t sym_range(uint64_t m, const char* n) { uint32_t v; fetch(&v, 4, n); return m ? v % m : 0; }
uint32_t sym_choose(uint64_t m, const char* name) { std::string k = std::string(name) + "#" + std::to_string(gCnt[name]++); auto it = gChoice.find(k); return it == gChoice.end() ? 0 : it->second; }
void sym_assume(int c) { if (!c) fin(43, "ASSUMPTION FAILED"); }
void sym_assert(int c, const char* m) { if (!c) { std::string s = std::string("VIOLATION assertion: ") + m; fin(42, s.c_str()); } }
void sym_fail(const char* m) { sym_assert(0, m); }
void sym_cover(const char*) {} void sym_cover_if(int, const char*) {} void sym_shard_point(void) {} void sym_tag(const char*, uint64_t) {} int sym_merge(int) { return 0; }
int64_t sym_param(const char* n, int64_t d) { auto it = gParams.find(n); return it == gParams.end() ? d : it->second; }
int sym_spawn(void (*f)(void*), void* a) {
  Co* c = new Co(); getcontext(&c->c); c->stk = (char*)malloc(8 << 20); c->c.uc_stack.ss_sp = c->stk; c->c.uc_stack.ss_size = 8 << 20; c->c.uc_link = nullptr; c->f = f; c->a = a;
  makecontext(&c->c, (void (*)())tramp, 0); gCo.push_back(c); return gCo.size() - 1;
}
void sym_block(void) { gCo[gCur]->blocked = true; sched(); }
void sym_notify(void) { for (auto c : gCo) c->blocked = false; }
void sym_join(void) { for (;;) { bool all = true; for (int i = 0; i < (int)gCo.size(); i++) if (i != gCur && !gCo[i]->done) all = false; if (all) return; gCo[gCur]->blocked = true; sched(); } }
void sym_expect_block(int on) { gExpectBlock = on; }
void sym_end(void) { fin(0, "PASS"); abort(); }
void sym_inconclusive(const char* w) { fin(43, w); abort(); }
int sym_is_sym(uint64_t) { return 0; }
uint64_t sym_concretize(uint64_t v) { return v; }
uint64_t sym_ite64(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int sym_must(int c) { return c != 0; } int sym_may(int c) { return c != 0; }
void sym_uf(const char* name, const void* in, size_t ni, void* out, size_t no) {
  uint64_t h = 1469598103934665603ULL; for (const char* p = name; *p; p++) h = (h ^ *p) * 1099511628211ULL;
  for (size_t i = 0; i < ni; i++) h = (h ^ ((const unsigned char*)in)[i]) * 1099511628211ULL;
  for (size_t i = 0; i < no; i++) { h ^= h >> 29; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 32; ((unsigned char*)out)[i] = h; }
}
static uint8_t mulgf(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = (a << 1) ^ ((a & 128) ? 0x1b : 0); b >>= 1; } return r; }
uint8_t sym_sbox(uint8_t b) {
  uint8_t inv = 0; if (b) for (int i = 1; i < 256; i++) if (mulgf(b, i) == 1) { inv = i; break; }
  uint8_t r = 0; for (int i = 0; i < 8; i++) r |= (((inv >> i) ^ (inv >> ((i + 4) % 8)) ^ (inv >> ((i + 5) % 8)) ^ (inv >> ((i + 6) % 8)) ^ (inv >> ((i + 7) % 8)) ^ (0x63 >> i)) & 1) << i;
  return r;
}
void sym_aes_interp(int) {}
int sym_memeq(const void* a, const void* b, size_t n) { return memcmp(a, b, n) == 0; }
uint64_t sym_objsize(const void*) { return ~0ULL; }
uint64_t sym_live_heap(void) { return 0; }
void sym_print(const char* n, uint64_t v) { printf("[print] %s %llx\n", n, (unsigned long long)v); }
int sym_numbits(const void* p, size_t n) { for (size_t i = n; i-- > 0;) for (int b = 7; b >= 0; b--) if ((((const unsigned char*)p)[i] >> b) & 1) return i * 8 + b + 1; return 0; }
void sym_fs_put(const char* name, const void* d, size_t n) { FILE* f = fopen(name, "wb"); if (n) fwrite(d, 1, n, f); fclose(f); }
size_t sym_fs_get(const char* name, void* d, size_t cap) { FILE* f = fopen(name, "rb"); if (!f) return 0; size_t n = fread(d, 1, cap, f); fclose(f); return n; }
int sym_fs_exists(const char* name) { return access(name, F_OK) == 0; }
void sym_fs_remove(const char* name) { unlink(name); }
}
int main(int argc, char** argv) {
  // replay FILE [random-seed]; FILE: lines "V name hex", "C name value", "P name value"
  std::ifstream in(argv[1]); std::string line;
  while (std::getline(in, line)) {
    std::istringstream s(line); std::string t, n, h; s >> t >> n >> h;
    if (t == "V") { std::string b; for (size_t i = 0; i + 1 < h.size(); i += 2) b.push_back((char)strtoul(h.substr(i, 2).c_str(), 0, 16)); gVals[n] = b; }
    else if (t == "C") gChoice[n] = strtoull(h.c_str(), 0, 10);
    else if (t == "P") gParams[n] = strtoll(h.c_str(), 0, 10);
  }
  gRng = 88172645463325252ULL;
  if (argc > 2) { uint64_t sd = strtoull(argv[2], 0, 10); gRng ^= sd * 0x9E3779B97F4A7C15ULL; if (!gRng) gRng = 1; gRandomise = sd != 0; for (int i = 0; i < 20; i++) rnd(); }
  gCo.push_back(new Co());
  try { harness_entry(); } catch (...) { fin(42, "VIOLATION uncaught exception"); }
  gCo[0]->done = true; for (auto x : gCo) x->blocked = false;
  bool all = true; for (auto c : gCo) if (!c->done) all = false;
  if (!all) sched();
  fin(0, "PASS");
}
