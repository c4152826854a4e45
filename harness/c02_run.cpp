#include "tp.h"
static const int kRep[6] = { ANDGATE, XORGATE, ORNGATE, NOTGATE, XNORGATE, NANDGATE };
static void go(GC& c, int cc, uint64_t mask, int64_t period) {
  sym_shard_point();
  bool low = sym_param("low", 0);
  gLblPattern = sym_param("lsb", 0);
  sym_assume(FillFanout(&c) == SUCCESS);
  In x = symInputs(c, cc);
  Cfg k; k.low = low; k.cc = cc; k.period = period; k.mode = (OutputMode)sym_param("mode", 0); k.mask = hexOf(mask); k.noOT = !sym_param("ot", 0);
  runParties(c, k, x);
  Ref r = reference(c, x, cc);
  checkOutputs(c, k, r, mask, cc);
  sym_cover("protocol finished");
}
static int anyType(const char* n) { return kRep[sym_choose(sym_param("types", 6), n)]; }
// one gate of any type over one public, one garbler, one evaluator input and constants
extern "C" void comb1_main() {
  GC c = mk(0, 0, 0, 1, 1, 1, 0, 1, 2);
  int t = kGateTypes[sym_choose(11, "type")];
  int64_t a = anyWire(3, true, "in0"), b = t == NOTGATE ? -1 : anyWire(3, true, "in1");
  setGate(c, 0, t, a, b);
  c.outputs[0] = 3; c.outputs[1] = sym_choose(4, "out1");
  go(c, 1, sym_param("mask", 2), 0);
}
// two gates; the second reads the first
extern "C" void comb2_main() {
  GC c = mk(0, 0, 0, 1, 1, 1, 0, 2, 2);
  int t0 = anyType("type0"); int64_t a0 = anyWire(3, false, "in0"), b0 = t0 == NOTGATE ? -1 : sym_choose(3, "in1");
  setGate(c, 0, t0, a0, b0);
  int t1 = anyType("type1"); int64_t o = t1 == NOTGATE ? -1 : anyWire(4, true, "other");
  bool sw = t1 != NOTGATE && sym_choose(2, "swap");
  setGate(c, 1, t1, sw ? o : 3, sw ? 3 : o);
  c.outputs[0] = 4; c.outputs[1] = sym_choose(2, "out1") ? 3 : 0;
  go(c, 1, sym_param("mask", 0), 0);
}
// a shared AND gate whose readers may vanish when a public value is known
extern "C" void drop_main() {
  int n = sym_param("gates", 4);
  GC c = mk(0, 0, 0, 1, 1, 1, 0, n, 2);
  setGate(c, 0, ANDGATE, 1, 2);
  for (int i = 1; i < n; i++) {
    int t = sym_choose(2, "type") ? XORGATE : ANDGATE;
    int64_t a = 3 + sym_choose(i, "in0"), k = sym_choose(i + 2, "in1");   // public input, garbler input or an earlier gate
    setGate(c, i, t, a, k < 2 ? k : 1 + k);
  }
  c.outputs[0] = 3 + n - 1; c.outputs[1] = sym_choose(2, "out1") ? 4 : 3 + n - 1;
  go(c, 1, sym_param("mask", 0), 0);
}
// the same readers, but the public value is a flip-flop toggling every clock
extern "C" void dropseq_main() {
  int n = sym_param("gates", 3);
  GC c = mk(1, 0, 0, 0, 1, 1, 1, n + 1, 2);   // wires: p_init 0, g 1, e 2, dff 3, gates 4..
  c.I[0] = 0; c.D[0] = 4 + n;
  setGate(c, 0, ANDGATE, 1, 2);
  for (int i = 1; i < n; i++) {
    int t = sym_choose(2, "type") ? XORGATE : ANDGATE;
    int64_t a = 4 + sym_choose(i, "in0"), k = sym_choose(i + 2, "in1");
    setGate(c, i, t, a, k == 0 ? 3 : k == 1 ? 1 : 2 + k);
  }
  setGate(c, n, NOTGATE, 3, -1);
  c.outputs[0] = 4 + n - 1; c.outputs[1] = 4;
  if (sym_choose(2, "out1")) c.outputs[1] = 4 + n - 1;
  go(c, sym_param("cc", 3), sym_param("mask", 0), 0);
}
// one flip-flop with any source, one gate
extern "C" void seq1_main() {
  int cc = sym_param("cc", 2);
  GC c = mk(1, 1, 1, 1, 1, 1, 1, 1, 2);      // wires: inits 0-2, inputs 3-5, dff 6, gate 7
  c.I[0] = anyWire(3, true, "I");
  int t = anyType("type");
  int64_t a = 3 + sym_choose(4, "in0"), b = t == NOTGATE ? -1 : anyWire(4, true, "in1"); if (b >= 0) b += 3;
  setGate(c, 0, t, a, b);
  c.D[0] = anyWire(5, true, "D"); if (c.D[0] >= 0) c.D[0] += 3;
  c.outputs[0] = 7; c.outputs[1] = 3 + sym_choose(4, "out1");
  go(c, cc, sym_param("mask", 1), 0);
}
// two flip-flops feeding each other
extern "C" void seq2_main() {
  int cc = sym_param("cc", 3);
  GC c = mk(0, 1, 1, 0, 1, 1, 2, 2, 3);   // wires: g_init 0, e_init 1, g 2, e 3, dff 4 5, gates 6 7
  int t = anyType("type");
  c.I[0] = sym_choose(2, "I0"); c.I[1] = sym_choose(2, "I1") ? CONST_ONE : (int64_t)1;
  c.D[0] = 2 + sym_choose(6, "D0"); c.D[1] = 2 + sym_choose(6, "D1");
  setGate(c, 0, t, 4, t == NOTGATE ? -1 : 2 + (int64_t)sym_choose(4, "in1"));
  setGate(c, 1, ANDGATE, 5, 6);
  c.outputs[0] = 7; c.outputs[1] = 4; c.outputs[2] = 5;
  go(c, cc, sym_param("mask", 5), 0);
}
// many wires of every owner read straight through (or through free gates): every
// index and stride of inits, inputs, flip-flops and outputs
extern "C" void wide_main() {
  int p = sym_param("p", 2), g = sym_param("g", 3), e = sym_param("e", 2), cc = sym_param("cc", 3);
  int pi = sym_param("pi", 2), gi = sym_param("gi", 2), ei = sym_param("ei", 3);
  int nd = pi + gi + ei, ng = 2, base = nd + p + g + e;
  int no = nd + p + g + e + ng;
  GC c = mk(pi, gi, ei, p, g, e, nd, ng, no);
  int rot = sym_choose(nd, "rot");
  for (int i = 0; i < nd; i++) { c.I[i] = (i + rot) % nd; int k = (i * 3 + rot) % (p + g + e + ng); c.D[i] = k < p + g + e ? nd + k : base + nd + k - (p + g + e); }
  setGate(c, 0, XORGATE, nd + p, nd + p + g);           // garbler xor evaluator
  setGate(c, 1, XNORGATE, base, base + nd);          // first flip-flop xnor the first gate
  for (int i = 0; i < no; i++) c.outputs[i] = nd + i;   // every input, flip-flop and gate
  go(c, cc, sym_param("mask", 0x5a5a5), 0);
}
