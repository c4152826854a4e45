// The .scd file.
#include <fstream>
#include "scd/v_2_scd.h"
#include "scd/scd.h"
#include "garbled_circuit/garbled_circuit_util.h"
#include "util/common.h"
#include "sym.h"
static const int kN = 5;
struct Desc { uint64_t hdr[6]; uint64_t nd, no, term, ng; int64_t a[kN], b[kN], t[kN], out[kN], D[kN], I[kN]; };
static Desc any() {
  Desc d; int m = sym_param("n", 3);
  for (int i = 0; i < 6; i++) d.hdr[i] = sym_u64("size");
  d.nd = sym_choose(m, "dffs"); d.no = sym_choose(m, "outs"); d.ng = sym_choose(m, "gates"); d.term = sym_u64("term");
  for (int i = 0; i < kN; i++) { d.a[i] = (int64_t)sym_u64("in0"); d.b[i] = (int64_t)sym_u64("in1"); d.t[i] = (short)sym_u32("type"); d.out[i] = (int64_t)sym_u64("out"); d.D[i] = (int64_t)sym_u64("D"); d.I[i] = (int64_t)sym_u64("I"); }
  return d;
}
static void check(const Desc& d, const GarbledCircuit& g) {
  sym_assert((g.p_init_size == d.hdr[0]) & (g.g_init_size == d.hdr[1]) & (g.e_init_size == d.hdr[2]) & (g.p_input_size == d.hdr[3]) & (g.g_input_size == d.hdr[4]) & (g.e_input_size == d.hdr[5]), "init and input sizes are read back");
  sym_assert((g.dff_size == d.nd) & (g.output_size == d.no) & (g.gate_size == d.ng), "flip-flop, output and gate counts are read back");
  sym_assert(g.terminate_id == d.term, "the terminate signal is read back");
  uint64_t bias = d.hdr[0] + d.hdr[1] + d.hdr[2] + d.hdr[3] + d.hdr[4] + d.hdr[5] + d.nd;
  for (unsigned i = 0; i < d.ng; i++) {
    GarbledGate& q = g.garbledGates[i];
    sym_assert((q.input0 == d.a[i]) & (q.input1 == d.b[i]), "gate operands are read back");
    sym_assert(q.type == (int)d.t[i], "gate types are read back");
    sym_assert(q.output == (int64_t)(bias + i), "gate i drives the i-th wire after inputs and flip-flops");
  }
  for (unsigned i = 0; i < d.no; i++) sym_assert(g.outputs[i] == d.out[i], "outputs are read back");
  for (unsigned i = 0; i < d.nd; i++) sym_assert((g.D[i] == d.D[i]) & (g.I[i] == d.I[i]), "flip-flop data and initial sources are read back");
}
// write then read
extern "C" void trip_main() {
  Desc d = any(); sym_shard_point();
  ReadCircuit r;
  r.p_init_size = d.hdr[0]; r.g_init_size = d.hdr[1]; r.e_init_size = d.hdr[2]; r.p_input_size = d.hdr[3]; r.g_input_size = d.hdr[4]; r.e_input_size = d.hdr[5];
  r.dff_size = d.nd; r.output_size = d.no; r.terminate_id = d.term; r.gate_size = d.ng;
  // the gate list is in any order, the schedule says which comes when
  int rot = d.ng ? (int)sym_choose(d.ng, "rot") : 0, rev = sym_choose(2, "rev");
  r.gate_list.resize(d.ng); r.task_schedule.resize(d.ng); r.dff_list.resize(d.nd); r.output_list.resize(d.no);
  for (unsigned i = 0; i < d.ng; i++) { unsigned at = rev ? d.ng - 1 - (i + rot) % d.ng : (i + rot) % d.ng; r.task_schedule[i] = at; ReadGate& q = r.gate_list[at]; q.input[0] = d.a[i]; q.input[1] = d.b[i]; q.type = (short)d.t[i]; q.output = 0; }
  for (unsigned i = 0; i < d.nd; i++) { r.dff_list[i].input[0] = d.D[i]; r.dff_list[i].input[1] = d.I[i]; r.dff_list[i].type = DFFGATE; r.dff_list[i].output = 0; }
  for (unsigned i = 0; i < d.no; i++) r.output_list[i] = (uint64_t)d.out[i];
  for (unsigned i = 0; i < d.no; i++) sym_assume(d.out[i] >= 0);
  if (sym_choose(2, "old")) { const char* s = "9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9 9\n"; sym_fs_put("c.scd", s, 120); }
  sym_assert(WriteSCD(r, "c.scd") == SUCCESS, "writing succeeds");
  GarbledCircuit g;
  sym_assert(ReadSCD("c.scd", &g) == SUCCESS, "reading succeeds");
  check(d, g);
  sym_cover("done");
}
// a file in the documented layout, any white space between the numbers
extern "C" void layout_main() {
  Desc d = any(); sym_shard_point();
  { std::ofstream f("c.scd");
    const char* nl = sym_choose(2, "nl") ? "\n" : "  \n";
    for (int i = 0; i < 6; i++) f << d.hdr[i] << " ";
    f << d.nd << " " << d.no << " " << d.term << " " << d.ng << nl;
    for (unsigned i = 0; i < d.ng; i++) f << d.a[i] << " ";
    f << nl; for (unsigned i = 0; i < d.ng; i++) f << d.b[i] << " ";
    f << nl; for (unsigned i = 0; i < d.ng; i++) f << d.t[i] << " ";
    f << nl; for (unsigned i = 0; i < d.no; i++) f << d.out[i] << " ";
    f << nl; for (unsigned i = 0; i < d.nd; i++) f << d.D[i] << " ";
    f << nl; for (unsigned i = 0; i < d.nd; i++) f << d.I[i] << " ";
    f << nl; f.close(); }
  GarbledCircuit g;
  sym_assert(ReadSCD("c.scd", &g) == SUCCESS, "reading succeeds");
  check(d, g);
  sym_cover("done");
}
extern "C" void missing_main() {
  GarbledCircuit g;
  sym_assert(ReadSCD("nosuchfile.scd", &g) == FAILURE, "a missing file is reported as failure");
  ReadCircuit r;
  sym_assert(WriteSCD(r, "nosuchdir/x.scd") == FAILURE || sym_param("native", 0) == 0, "an unwritable file is reported as failure");
  sym_cover("done");
}
