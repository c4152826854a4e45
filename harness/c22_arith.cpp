// A23 arithmetic benchmarks against independent definitions.  SRCFILE is the
// program under test; its entry gc_main is called as the processor calls it.
#include SRCFILE
#include "sym.h"
#define N_MAX 64
typedef unsigned long long u64;
typedef unsigned u32;
static int *G, *E, *O;
static void in(int gn, int en, int on) {
  G = new int[gn]; E = new int[en]; O = new int[on];
  sym_bytes(G, 4 * gn, "g"); sym_bytes(E, 4 * en, "e"); sym_bytes(O, 4 * on, "old");
}
// the call may not change its inputs, and a second call on other data is independent of the first
static void call(int gn, int en) {
  int g[N_MAX], e[N_MAX];
  for (int i = 0; i < gn; i++) g[i] = G[i];
  for (int i = 0; i < en; i++) e[i] = E[i];
  int calls = 1 + sym_choose(2, "earlier call");
  for (int c = 0; c < calls; c++) {
    if (c + 1 < calls) {
      int *g0 = new int[gn], *e0 = new int[en], *o0 = new int[N_MAX];
      sym_bytes(g0, 4 * gn, "g0"); sym_bytes(e0, 4 * en, "e0");
      gc_main(g0, e0, o0);
    } else gc_main(G, E, O);
  }
  for (int i = 0; i < gn; i++) sym_assert(G[i] == g[i], "the garbler's input is not changed");
  for (int i = 0; i < en; i++) sym_assert(E[i] == e[i], "the evaluator's input is not changed");
  sym_cover("done");
}
extern "C" void sum_main() {
  in(32, 32, 32); sym_merge(1); call(32, 32); sym_merge(0);
  u64 c = 0;
  for (int i = 0; i < 32; i++) { u64 s = (u64)(u32)G[i] + (u32)E[i] + c; sym_assert((u32)O[i] == (u32)s, "sum: the 1024-bit sum of the inputs"); c = s >> 32; }
}
extern "C" void mul_main() { in(1, 1, 1); call(1, 1); sym_assert((u32)O[0] == (u32)G[0] * (u32)E[0], "mul: the product modulo 2^32"); }
extern "C" void compare_main() {
  in(32, 32, 1); sym_merge(1); call(32, 32);
  int r = 0, decided = 0;
  for (int i = 31; i >= 0; i--) { int ne = (u32)G[i] != (u32)E[i], lt = (u32)G[i] < (u32)E[i]; r |= !decided & ne & lt; decided |= ne; }
  sym_merge(0);
  sym_assert(O[0] == r, "compare: 1 exactly when the garbler's number is smaller");
}
extern "C" void hamming_main() {
  in(1, 1, 1); sym_merge(1); call(1, 1); sym_merge(0);
  u32 x = (u32)G[0] ^ (u32)E[0], n = 0;
  for (int i = 0; i < 32; i++) n += (x >> i) & 1;
  sym_assert((u32)O[0] == n, "hamming: the number of differing bits");
}
extern "C" void matrix_main() {
  in(9, 9, 9); call(9, 9);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    u32 t = 0; for (int k = 0; k < 3; k++) t += (u32)G[3 * i + k] * (u32)E[3 * k + j];
    sym_assert((u32)O[3 * i + j] == t, "matrix-mul: row times column modulo 2^32");
  }
}
extern "C" void mem_main() { in(1, 1, 64); call(1, 1); for (int i = 0; i < 64; i++) sym_assert(O[i] == i, "mem-test: counts"); }
