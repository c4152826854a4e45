// Fan-out accounting.
#include "garbled_circuit/garbled_circuit_util.h"
#include "util/common.h"
#include "sym.h"
#include "gates.h"
typedef GarbledCircuit GC;
static const int kG = 6;
static GC blank(int in, int nd, int ng, int no) {
  GC c; c.p_init_size = 0; c.g_init_size = in > 2 ? 1 : 0; c.e_init_size = 0; c.p_input_size = in > 1 ? 1 : 0; c.g_input_size = 1; c.e_input_size = 0;
  c.dff_size = nd; c.gate_size = ng; c.output_size = no; c.terminate_id = 0;
  c.garbledGates = new GarbledGate[ng + 1]; c.outputs = new int64_t[no + 1]; c.D = new int64_t[nd + 1]; c.I = new int64_t[nd + 1];
  return c;
}
static bool wireOk(int64_t w, int64_t lim) { return (w >= -3) & (w < lim); }
static int64_t anyW(int64_t lim, bool neg, const char* n) { int64_t w = (int64_t)sym_range(lim + (neg ? 3 : 0), n) - (neg ? 3 : 0); return w; }
// the counts, for every circuit: operands, flip-flop data, outputs and terminate
// wire any wire (also ones computed later), constants and "none"
extern "C" void count_main() {
  int in = 1 + sym_choose(3, "inputs"), nd = sym_choose(sym_param("dffs", 2) + 1, "dffs"), ng = 1 + sym_choose(sym_param("gates", 4), "gates"), no = 1 + sym_choose(sym_param("outs", 2), "outs");
  sym_shard_point();
  GC c = blank(in, nd, ng, no);
  int64_t bias = in + nd, lim = bias + ng;
  for (int i = 0; i < ng; i++) {
    GarbledGate& g = c.garbledGates[i];
    g.type = (int)sym_range(17, "type"); g.input0 = anyW(lim, true, "in0"); g.input1 = anyW(lim, true, "in1"); g.output = bias + i; g.fanout = (int)sym_u32("old");
  }
  for (int i = 0; i < nd; i++) { c.D[i] = anyW(lim, true, "D"); c.I[i] = CONST_ZERO; }
  for (int i = 0; i < no; i++) c.outputs[i] = anyW(lim, false, "out");
  c.terminate_id = (uint64_t)anyW(lim, false, "term");
  GC k = c;
  int64_t in0[kG], in1[kG]; int ty[kG]; for (int i = 0; i < ng; i++) { in0[i] = c.garbledGates[i].input0; in1[i] = c.garbledGates[i].input1; ty[i] = c.garbledGates[i].type; }
  // reference
  int cnt[kG]; bool ok = true;
  for (int g = 0; g < ng; g++) {
    int n = 0;
    for (int i = 0; i < ng; i++) n += (in0[i] == bias + g) + (in1[i] == bias + g);
    for (int i = 0; i < nd; i++) n += c.D[i] == bias + g;
    for (int i = 0; i < no; i++) n += c.outputs[i] == bias + g;
    n += (int64_t)c.terminate_id == bias + g;
    cnt[g] = n; ok = ok & (n > 0);
  }
  for (int i = 0; i < ng; i++) ok = ok & (in0[i] < bias + i) & (in1[i] < bias + i);
  sym_merge(1); int rc = FillFanout(&c); sym_merge(0);
  sym_assert((rc == SUCCESS) == ok, "accepted exactly when every gate is read and only earlier wires are read");
  sym_cover_if(ok, "accepted"); sym_cover_if(!ok, "rejected");
  for (int g = 0; g < ng; g++) {
    GarbledGate& q = c.garbledGates[g];
    sym_assert(!ok | (q.fanout == cnt[g]), "the fan-out is the number of readers");
    sym_assert((q.input0 == in0[g]) & (q.input1 == in1[g]) & (q.type == ty[g]) & (q.output == bias + g), "the gates are kept");
  }
}
// number of non-free gates
extern "C" void nonxor_main() {
  int ng = sym_choose(sym_param("n", 7), "gates");
  GC c = blank(1, 0, ng, 1); unsigned want = 0;
  for (int i = 0; i < ng; i++) { int t = 0; unsigned k = sym_range(11, "type"); for (int j = 0; j < 11; j++) t = (int)sym_ite64(k == (unsigned)j, (uint64_t)kGateTypes[j], (uint64_t)t); c.garbledGates[i].type = t; c.garbledGates[i].input0 = c.garbledGates[i].input1 = 0; want += !((t == 6) | (t == 9) | (t == 12)); }
  sym_merge(1); uint64_t n = NumOfNonXor(c); sym_merge(0);
  sym_assert(n == want, "every gate but XOR, XNOR and NOT is counted");
  sym_cover("done");
}
// removals: any sequence of readers disappearing
static int gNg, gExt; static int64_t gBias;
extern "C" void remove_main() {
  int ng = sym_param("gates", 4), steps = sym_param("steps", 3), in = 2;
  gNg = ng; gBias = in;
  GC c = blank(in, 1, ng, 2); int64_t bias = in + 1;
  for (int i = 0; i < ng; i++) {
    GarbledGate& g = c.garbledGates[i]; g.type = ANDGATE; g.output = bias + i; g.fanout = 0;
    // an input wire, the flip-flop, a constant or an earlier gate
    int64_t a = (int64_t)sym_choose(i + 1, "in0"), b = (int64_t)sym_choose(i + 1, "in1");
    g.input0 = a == 0 ? (i == 0 ? 1 : CONST_ONE) : bias + a - 1; g.input1 = b == 0 ? (int64_t)2 : bias + b - 1;
    if (i == ng - 1 && sym_choose(2, "not")) { g.type = NOTGATE; g.input1 = -1; }
  }
  c.D[0] = bias + (int64_t)sym_choose(ng, "D"); c.I[0] = CONST_ZERO; c.outputs[0] = bias + ng - 1; c.outputs[1] = sym_choose(2, "out1") ? bias : bias + ng - 1;
  sym_shard_point();
  sym_assume(FillFanout(&c) == SUCCESS);
  int fan[kG]; for (int i = 0; i < ng; i++) fan[i] = c.garbledGates[i].fanout;
  bool ext[3] = { true, true, true }, pub[kG] = {}; int64_t tgt[3] = { c.D[0], c.outputs[0], c.outputs[1] };
  for (int s = 0; s < steps; s++) {
    // which reader goes: an output or flip-flop input, or a whole gate whose value became public
    unsigned k = sym_range(3 + ng, "step");
    for (int j = 0; j < 3 + ng; j++) if (k == (unsigned)j) {
      if (j < 3) { if (!ext[j]) sym_end(); ext[j] = false; if (pub[tgt[j] - bias]) sym_end(); ReduceFanout(c, fan, tgt[j], bias); }
      else { int g = j - 3; if (pub[g] || fan[g] == 0) sym_end(); pub[g] = true; fan[g] = 0; ReduceFanout(c, fan, c.garbledGates[g].input0, bias); ReduceFanout(c, fan, c.garbledGates[g].input1, bias); }
    }
    int want[kG];
    for (int g = ng - 1; g >= 0; g--) {
      int n = 0;
      for (int e = 0; e < 3; e++) n += ext[e] && tgt[e] == bias + g;
      for (int h = g + 1; h < ng; h++) if (want[h] > 0) n += (c.garbledGates[h].input0 == bias + g) + (c.garbledGates[h].input1 == bias + g);
      want[g] = pub[g] ? 0 : n;
    }
    for (int g = 0; g < ng; g++) sym_assert(fan[g] == want[g], "after a reader is gone every fan-out is the number of remaining live readers");
  }
  // wires that are not gates
  int save[kG]; for (int g = 0; g < ng; g++) save[g] = fan[g];
  int64_t w = (int64_t)sym_range((uint64_t)bias + 3, "wire") - 3;
  ReduceFanout(c, fan, w, bias);
  for (int g = 0; g < ng; g++) sym_assert(fan[g] == save[g], "releasing a wire that is not a gate changes nothing");
  sym_cover("done");
}
