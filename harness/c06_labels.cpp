// What the garbler puts on the wire for its input bits.
#include "tp.h"
static int gBlocks; static unsigned char gSent[2][kMaxLog];
static bool eqb(const block& a, const block& b) { uint64_t x[2], y[2]; __builtin_memcpy(x, &a, 16); __builtin_memcpy(y, &b, 16); return ((x[0] ^ y[0]) | (x[1] ^ y[1])) == 0; }
static block xorb(const block& a, const block& b) { uint64_t x[2], y[2]; __builtin_memcpy(x, &a, 16); __builtin_memcpy(y, &b, 16); x[0] ^= y[0]; x[1] ^= y[1]; block r; __builtin_memcpy(&r, x, 16); return r; }
static void onWrite(int fd, const void* p, size_t n) {
  if (fd != 1000) return;
  for (size_t o = 0; o + 16 <= n; o += 16) {
    block b; __builtin_memcpy(&b, (const char*)p + o, 16);
    gBlocks++;
    sym_assert(!eqb(b, gR), "the global offset is never transmitted");
    for (unsigned k = 0; k < gLblCount && k < (unsigned)kMaxLog; k++) {
      gSent[0][k] |= eqb(b, gLblLog[k]); gSent[1][k] |= eqb(b, xorb(gLblLog[k], gR));
    }
  }
}
static int gPairs; static unsigned char gOT[kMaxLog];
static void onOT(const block* m) {
  gPairs++;
  sym_assert(eqb(xorb(m[0], m[1]), gR), "the two labels of a bit differ by the global offset");
  for (unsigned k = 0; k < gLblCount && k < (unsigned)kMaxLog; k++) gOT[k] |= eqb(m[0], gLblLog[k]);
}
extern "C" void labels_main() {
  int cc = sym_param("cc", 2), gi = sym_param("gi", 2), g = sym_param("g", 2), ei = sym_param("ei", 1), e = sym_param("e", 2);
  bool ot = sym_choose(2, "ot"), gates = sym_choose(2, "gates");
  int nd = gi + ei, base = nd + g + e;
  GC c = mk(0, gi, ei, 0, g, e, nd, 1, nd + g + e + 1);
  for (int i = 0; i < nd; i++) { c.I[i] = i; c.D[i] = nd + (i % (g + e)); }
  setGate(c, 0, gates ? ANDGATE : XORGATE, nd, nd + g);
  for (int i = 0; i < g + e + nd + 1; i++) c.outputs[i] = nd + i;
  bool low = sym_param("low", 0);
  sym_shard_point();
  gLblPattern = sym_param("lsb", 0);
  sym_assume(FillFanout(&c) == SUCCESS);
  In x = symInputs(c, cc);
  Cfg k; k.low = low; k.cc = cc; k.period = 0; k.mode = (OutputMode)0; k.mask = "0"; k.noOT = !ot;
  Ref r = reference(c, x, cc);
  gOnWrite = onWrite; gOnOT = onOT;
  runParties(c, k, x);
  gOnWrite = nullptr; gOnOT = nullptr;
  unsigned n = 0, no = 0;
  for (unsigned i = 0; i < gLblCount && i < (unsigned)kMaxLog; i++) {
    sym_assert(!(gSent[0][i] & gSent[1][i]), "never both labels of a bit");
    n += gSent[0][i] | gSent[1][i]; no += gOT[i];
    sym_assert(!(gOT[i] & (gSent[0][i] | gSent[1][i])), "a label offered in the oblivious transfer is not sent besides");
  }
  unsigned gb = gi + g * cc, eb = ei + e * cc;
  sym_assert(n == gb + (ot ? 0 : eb), "one label, of a pair of its own, is transmitted for each input bit");
  if (!gates) sym_assert((unsigned)gBlocks == gb + (ot ? 0 : eb), "no further label is transmitted");
  if (ot) { sym_assert(no == eb && (unsigned)gPairs == eb, "one label pair, of its own, per evaluator bit in the oblivious transfer"); sym_assert(gPipe[1].tail == 0, "the evaluator sends nothing of its bits besides the oblivious transfer"); }
  checkOutputs(c, k, r, 0, cc);   // so each label stands for the true bit
  sym_cover("protocol finished");
}
// input words shorter than the circuit's inputs: absent bits are 0
extern "C" void short_main() {
  int cc = 2, g = 2, e = 2;
  GC c = mk(0, 1, 1, 0, g, e, 2, 1, 6);
  c.I[0] = 0; c.I[1] = 1; c.D[0] = 2; c.D[1] = 4;
  setGate(c, 0, XORGATE, 2, 4);
  for (int i = 0; i < 6; i++) c.outputs[i] = 2 + i;
  c.outputs[5] = 8;
  int ng = sym_choose(5, "gbits"), ne = sym_choose(5, "ebits"), ni = sym_choose(2, "ibits");
  bool low = sym_param("low", 0), ot = sym_choose(2, "ot");
  sym_shard_point();
  sym_assume(FillFanout(&c) == SUCCESS);
  In x = symInputs(c, cc);
  for (int i = ng; i < g * cc; i++) x.g.b[i] = 0;
  for (int i = ne; i < e * cc; i++) x.e.b[i] = 0;
  if (!ni) x.gi.b[0] = x.ei.b[0] = 0;
  In y = x; Ref r = reference(c, y, cc);
  x.g.n = ng; x.e.n = ne; x.gi.n = x.ei.n = ni;
  Cfg k; k.low = low; k.cc = cc; k.period = 0; k.mode = (OutputMode)0; k.mask = "15"; k.noOT = !ot;
  runParties(c, k, x);
  checkOutputs(c, k, r, 0x15, cc);
  sym_cover("protocol finished");
}
