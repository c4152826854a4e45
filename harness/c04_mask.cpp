// Output masks: who learns what, and what travels.
#include "tp.h"
static size_t gBytes[2]; static bool gBits = true;
static void onWrite(int fd, const void* p, size_t n) {
  gBytes[fd - 1000] += n;
  if (fd == 1001) for (size_t i = 0; i < n; i++) sym_assert(((const unsigned char*)p)[i] <= 1, "evaluator transmits only decoding bits (oblivious transfer on)");
}
// p_init 0, e_init 1, g 2, e 3, dff 4 5, gates 6 7 8; outputs mix public and secret
static GC circuit(int shape) {
  GC c = mk(1, 0, 1, 0, 1, 1, 2, 3, 4);
  c.I[0] = 0; c.D[0] = 6; c.I[1] = 1; c.D[1] = 8;
  setGate(c, 0, NOTGATE, 4, -1);                        // public, toggles
  setGate(c, 1, shape & 1 ? ANDGATE : ORGATE, 2, 3);    // secret
  setGate(c, 2, XNORGATE, 5, 7);                        // secret state
  int64_t o[4][4] = { {4, 7, 8, 6}, {8, 6, 7, 4}, {7, 8, 5, 8}, {6, 4, 8, 7} };
  for (int i = 0; i < 4; i++) c.outputs[i] = o[shape][i];
  return c;
}
extern "C" void mask_main() {
  int shape = sym_choose(sym_param("shapes", 4), "shape");
  GC c = circuit(shape);
  uint64_t mask = sym_choose(18, "mask"); if (mask == 16) mask = 0x1c; if (mask == 17) mask = 0xffffff5;   // 16 masks of the outputs, and longer ones
  int cc = sym_param("cc", 2);
  bool low = sym_param("low", 0);
  int mode = low ? (int)sym_param("mode", 0) : 0;
  bool term = sym_param("term", 0) && sym_choose(2, "term");
  if (term) c.terminate_id = 5;
  sym_shard_point();
  gLblPattern = sym_param("lsb", 0);
  sym_assume(FillFanout(&c) == SUCCESS);
  In x = symInputs(c, cc);
  Cfg k; k.low = low; k.cc = cc; k.period = term ? 2 : 0; k.mode = (OutputMode)mode; k.mask = hexOf(mask); k.noOT = false;
  Ref r = reference(c, x, cc);
  if (!term) gOnWrite = onWrite;
  runParties(c, k, x);
  gOnWrite = nullptr;
  int ran = cc;
  if (term) { ran = (int)gA.cc; int want = cc; for (int t = cc - 1; t >= 0; t--) if (t % 2 == 0 && r.term[t]) want = t + 1; sym_assert(ran == want, "stops where the terminate wire says"); sym_assume(ran <= cc); }
  checkOutputs(c, k, r, mask, ran);
  if (!term) {
    // decoding bits: as many messages of the same size from each side as outputs (per mask) are secret
    int toG = 0, toE = 0; bool last = low && k.mode == OutputMode::last_clock;
    for (int i = 0; i < 4; i++) { bool secret = c.outputs[i] == 7 || c.outputs[i] == 8 || c.outputs[i] == 5; if (secret) (maskBit(mask, i) ? toG : toE)++; }
    sym_assert(gBytes[1] % (last ? 1 : cc) == 0, "same traffic every clock cycle");
    sym_assert(toG == 0 ? gBytes[1] == 0 : gBytes[1] > 0 && gBytes[1] <= 8u * toG * cc, "evaluator transmits one decoding bit per secret output given to the garbler");
    size_t b0 = gBytes[0], b1 = gBytes[1];
    // the same run with everything given to the evaluator: the garbler then sends the others too
    if (sym_param("twice", 1)) {
      gBytes[0] = gBytes[1] = 0; Cfg k2 = k; k2.mask = "0"; gLblCount = 0; gOnWrite = onWrite; runParties(c, k2, x); gOnWrite = nullptr;
      sym_assert(gBytes[1] == 0, "evaluator transmits nothing when every output is its own");
      sym_assert(gBytes[0] - b0 == b1, "garbler keeps back its decoding bit of each output given to it");
    }
  }
  sym_cover("protocol finished");
}
// longer outputs than 32/64 and masks given with leading zeros and in lower case
extern "C" void longmask_main() {
  int no = 34;
  GC c = mk(0, 0, 0, 1, 2, 1, 0, 1, no);   // p 0, g 1 2, e 3, gate 4
  setGate(c, 0, XORGATE, 2, 3);
  for (int i = 0; i < no; i++) c.outputs[i] = i % 5;
  int v = sym_choose(4, "mask");
  static const char* txt[4] = { "2aaaaaaaa", "0000000000155555555", "3c0f0a05f", "200000000" };
  static const uint64_t val[4] = { 0x2aaaaaaaaull, 0x155555555ull, 0x3c0f0a05full, 0x200000000ull };
  bool low = sym_param("low", 0);
  sym_shard_point();
  gLblPattern = sym_param("lsb", 0);
  sym_assume(FillFanout(&c) == SUCCESS);
  In x = symInputs(c, 1);
  Cfg k; k.low = low; k.cc = 1; k.period = 0; k.mode = (OutputMode)0; k.mask = txt[v]; k.noOT = false;
  Ref r = reference(c, x, 1);
  runParties(c, k, x);
  checkOutputs(c, k, r, val[v], 1);
  sym_cover("protocol finished");
}
