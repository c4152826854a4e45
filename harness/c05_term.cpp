#include "tp.h"
// terminate wire public or secret, combinational or registered; every period
extern "C" void term_main() {
  int cc = sym_param("cc", 3);
  // p_init 0, e_init 1, p 2, g 3, e 4, dff 5 6, gates 7..
  GC c = mk(1, 0, 1, 1, 1, 1, 2, 4, 3);
  int shape = sym_choose(7, "shape");
  c.I[0] = 0; c.D[0] = 7;                 // public toggle
  c.I[1] = 1; c.D[1] = 9;                 // secret state
  setGate(c, 0, NOTGATE, 5, -1);
  setGate(c, 1, shape == 1 ? ORGATE : ANDGATE, 3, 4);
  setGate(c, 2, XORGATE, 6, 3);
  setGate(c, 3, ANDGATE, shape == 5 ? 5 : 6, shape == 6 ? 2 : 8);   // dropped in the clocks the public wire kills it
  static const int64_t t[7] = { 2, 8, 3, 6, 5, 10, 10 };
  c.terminate_id = t[shape];
  c.outputs[0] = 9; c.outputs[1] = 10; c.outputs[2] = 7;
  int period = sym_choose(4, "period");
  bool low = sym_param("low", 0);
  sym_shard_point();
  gLblPattern = sym_param("lsb", 0);
  sym_assume(FillFanout(&c) == SUCCESS);
  In x = symInputs(c, cc);
  Cfg k; k.low = low; k.cc = cc; k.period = period; k.mode = (OutputMode)sym_param("mode", 0); k.mask = "3"; k.noOT = !sym_param("ot", 1);
  Ref r = reference(c, x, cc);
  runParties(c, k, x);
  int want = cc;
  if (period) for (int i = cc - 1; i >= 0; i--) if (i % period == 0) want = r.term[i] ? i + 1 : want;
  sym_assert(gA.cc == gB.cc, "both parties stop in the same clock cycle");
  sym_assert(gA.cc == (uint64_t)want, "stops in the first clock cycle the terminate wire and the period select");
  int ran = (int)sym_concretize(gA.cc); sym_assume(ran >= 1 && ran <= cc);
  checkOutputs(c, k, r, 3, ran);
  sym_cover("protocol finished"); sym_cover_if(ran < cc, "stopped early"); sym_cover_if(ran == cc, "ran to the end");
}
// a terminate wire is ignored when the period is 0, and no wire means no stop
extern "C" void noterm_main() {
  int cc = 2;
  GC c = mk(0, 0, 0, 1, 1, 1, 0, 1, 1);
  setGate(c, 0, ANDGATE, 1, 2); c.outputs[0] = 3;
  bool wire = sym_choose(2, "wire");
  c.terminate_id = wire ? 3 : 0;
  int64_t period = wire ? 0 : 1 + sym_choose(2, "period");
  bool low = sym_param("low", 0);
  sym_assume(FillFanout(&c) == SUCCESS);
  In x = symInputs(c, cc);
  Cfg k; k.low = low; k.cc = cc; k.period = period; k.mode = (OutputMode)0; k.mask = "0"; k.noOT = true;
  Ref r = reference(c, x, cc);
  runParties(c, k, x);
  checkOutputs(c, k, r, 0, cc);
  sym_cover("protocol finished");
}
