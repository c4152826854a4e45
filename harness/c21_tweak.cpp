// Every hash evaluation has its own tweak.
#include "tp.h"
static GarbledTable rows(block a0, block b0, block R, int type, uint64_t cid, uint64_t gid, AES_KEY key) {
  BlockPair A, B, O; short v; GarbledTable t; __builtin_memset(&t, 0, sizeof t); uint64_t ind = 0;
  A.label0 = a0; A.label1 = XorBlock(a0, R); B.label0 = b0; B.label1 = XorBlock(b0, R);
  GarbleGate(A, SECRET, B, SECRET, type, cid, gid, &t, &ind, R, key, &O, &v);
  sym_assert(ind == 1, "one table per gate of two secret inputs");
  return t;
}
static block mkb(uint64_t hi, uint64_t lo) { uint64_t w[2] = { lo, hi }; block b; __builtin_memcpy(&b, w, 16); return b; }
// the two halves of two gates, for every pair of clock and gate numbers.  The labels and the offset are chosen
// so that equal cipher texts can only come from equal tweaks; the cipher is an arbitrary function, so equal
// tweaks are exactly the (clock, gate, half) triples whose rows are always equal.
extern "C" void gate_main() {
  static const int T[8] = { ANDGATE, ANDNGATE, NANDGATE, NANDNGATE, ORGATE, ORNGATE, NORGATE, NORNGATE };
  int type = T[sym_choose(8, "type")];
  uint64_t c1 = sym_u64("cid"), c2 = sym_u64("cid"), g1 = sym_u32("gid"), g2 = sym_u32("gid");
  block R = mkb(0, 1ull << 62 | 1), L = mkb(0, 0), Z = mkb(0, 0x3ull << 60);
  AES_KEY key; __builtin_memset(&key, 0, sizeof key); key.rounds = 10;
  GarbledTable a = rows(L, Z, R, type, c1, g1, key), b = rows(L, Z, R, type, c2, g2, key), c = rows(Z, L, R, type, c2, g2, key);
  bool same = (c1 == c2) & (g1 == g2);
  bool r0 = sym_memeq(&a.row[0], &b.row[0], 16), r1 = sym_memeq(&a.row[1], &b.row[1], 16);
  // second half of the second gate hashing the labels the first half of the first gate hashes; row 1
  // additionally carries the first input's label for 0 (of its permuted value): remove what it can be
  bool x01 = false;
  block w = c.row[1]; block cand[4] = { XorBlock(w, Z), XorBlock(w, XorBlock(Z, R)), XorBlock(XorBlock(w, Z), R), XorBlock(w, L) };
  for (int k = 0; k < 4; k++) x01 |= (bool)sym_memeq(&a.row[0], &cand[k], 16);
  sym_assert(!(r0 & !same), "first halves of different gates or clocks use different tweaks");
  sym_assert(!(r1 & !same), "second halves of different gates or clocks use different tweaks");
  sym_assert(!x01, "a first and a second half never share a tweak");
  sym_cover_if(same, "same"); sym_cover_if(!same, "different");
}
static int gTabs; static GarbledTable gTab[32];
static void onWrite(int fd, const void* p, size_t n) {
  if (fd != 1000 || n < sizeof(GarbledTable) || n % sizeof(GarbledTable)) return;
  for (size_t o = 0; o < n; o += sizeof(GarbledTable)) { if (gTabs >= 32) sym_inconclusive("more tables than expected"); __builtin_memcpy(&gTab[gTabs++], (const char*)p + o, sizeof(GarbledTable)); }
}
// gates that hash the same labels in every gate and every clock
extern "C" void run_main() {
  int cc = sym_param("cc", 3), ng = sym_param("gates", 3);
  GC c = mk(0, 1, 1, 0, 0, 0, 2, ng, ng);
  c.I[0] = 0; c.I[1] = 1; c.D[0] = 2; c.D[1] = 3;    // g_init 0, e_init 1, dff 2 3 keep their values
  int perm = sym_choose(2, "swap"), type = sym_choose(2, "type") ? ANDGATE : ORNGATE;
  for (int i = 0; i < ng; i++) { setGate(c, i, type, perm && i % 2 ? 3 : 2, perm && i % 2 ? 2 : 3); c.outputs[i] = 4 + i; }
  bool low = sym_param("low", 0);
  gLblPattern = sym_param("lsb", 0);
  sym_assume(FillFanout(&c) == SUCCESS);
  In x = symInputs(c, cc);
  Cfg k; k.low = low; k.cc = cc; k.period = 0; k.mode = (OutputMode)0; k.mask = "0"; k.noOT = false;
  gOnWrite = onWrite; runParties(c, k, x); gOnWrite = nullptr;
  sym_assert(gTabs == cc * ng, "one table per gate and clock");
  if (gTabs == cc * ng) for (int i = 0; i < gTabs; i++) for (int j = 0; j < i; j++) {
    sym_assert(!sym_memeq(&gTab[i].row[0], &gTab[j].row[0], 16) , "two gates or clocks never hash with the same tweak");
    sym_assert(!sym_memeq(&gTab[i].row[1], &gTab[j].row[1], 16) , "two gates or clocks never hash with the same tweak (second half)");
  }
  Ref r = reference(c, x, cc); checkOutputs(c, k, r, 0, cc);
  sym_cover("protocol finished");
}
