// Scheduling.
#include <vector>
#include <string>
#include "scd/v_2_scd.h"
#include "scd/scheduling.h"
#include "util/common.h"
#include "sym.h"
static const int kG = 8;
static int64_t other(int64_t bias, bool none, const char* n) { int64_t w = (int64_t)sym_range(bias + 3, n) - 3; if (!none) sym_assume(w != -1); return w; }
extern "C" void sort_main() {
  int ng = sym_param("gates", 3), nd = sym_param("dffs", 1), no = 2;
  ReadCircuit r; ReadCircuitString names;
  // one wire in one of the six input groups (which one does not matter to sorting but to numbering)
  int grp = ng > 3 ? 0 : sym_choose(3, "groups");
  if (grp == 0) { r.g_input_size = 1; r.e_input_size = 1; } else if (grp == 1) { r.p_init_size = 1; r.e_init_size = 1; } else { r.g_init_size = 1; r.p_input_size = 1; }
  int64_t in = 2, bias = in + nd, lim = bias + ng;
  r.dff_size = nd; r.gate_size = ng; r.output_size = no;
  int64_t a[kG], b[kG], D[kG], I[kG], out[kG]; short ty[kG];
  for (int i = 0; i < ng; i++) {
    ReadGate g; g.type = (short)(1 + sym_range(14, "type")); ty[i] = g.type;
    // a gate (any, also a later one or itself), or any other wire or constant
    unsigned ka = sym_choose(ng + 1, "in0"), kb = sym_choose(ng + 1, "in1");
    a[i] = ka < (unsigned)ng ? bias + ka : other(bias, false, "in0"); b[i] = kb < (unsigned)ng ? bias + kb : other(bias, true, "in1");
    g.input[0] = a[i]; g.input[1] = b[i];
    if (i == 1) sym_shard_point();
    g.output = bias + i; r.gate_list.push_back(g);
    ReadGateString s; s.output = std::string("g") + (char)('0' + i); names.gate_list_string.push_back(s);
  }
  for (int i = 0; i < nd; i++) {
    ReadGate g; g.type = DFFGATE; g.input[0] = D[i] = (int64_t)sym_range(lim + 3, "D") - 3; sym_assume(D[i] != -1);
    g.input[1] = I[i] = (int64_t)sym_range(in + 3, "I") - 3; sym_assume(I[i] != -1); g.output = in + i; r.dff_list.push_back(g);
    ReadGateString s; s.output = "q"; names.dff_list_string.push_back(s);
  }
  for (int i = 0; i < no; i++) { out[i] = (int64_t)sym_range(lim, "out"); r.output_list.push_back((uint64_t)out[i]); }
  int64_t term = (int64_t)sym_range(lim, "term"); r.terminate_id = (uint64_t)term;
  // reference: is there a combinational cycle?
  bool reach[kG][kG];
  for (int i = 0; i < ng; i++) for (int j = 0; j < ng; j++) reach[i][j] = (a[i] == bias + j) | (b[i] == bias + j);
  for (int k = 0; k < ng; k++) for (int i = 0; i < ng; i++) for (int j = 0; j < ng; j++) reach[i][j] = reach[i][j] | (reach[i][k] & reach[k][j]);
  bool cyc = false; for (int i = 0; i < ng; i++) cyc = cyc | reach[i][i];
  sym_merge(1); int rc = SortNetlist(&r, names); sym_merge(0);
  sym_assert((rc == SUCCESS) == !cyc, "sorting succeeds exactly when the circuit has no combinational cycle");
  sym_cover_if(cyc, "cyclic");
  if (rc != SUCCESS) return;
  sym_cover("sorted");
  sym_assert(r.gate_list.size() == (size_t)ng && r.task_schedule.size() == (size_t)ng && r.dff_list.size() == (size_t)nd && r.output_list.size() == (size_t)no, "nothing is added or lost");
  int64_t pos[kG];
  for (int i = 0; i < ng; i++) {
    pos[i] = r.gate_list[i].output; sym_assert((pos[i] >= bias) & (pos[i] < lim), "gates keep the wire range of gates");
    sym_assert(r.task_schedule[(size_t)(pos[i] - bias)] == (uint64_t)i, "the schedule lists a gate at the position of its output wire");
  }
  for (int i = 0; i < ng; i++) for (int j = i + 1; j < ng; j++) sym_assert(pos[i] != pos[j], "every gate has a wire of its own");
  auto mapped = [&](int64_t w) { int64_t v = w; for (int i = 0; i < ng; i++) v = (int64_t)sym_ite64(w == bias + i, (uint64_t)pos[i], (uint64_t)v); return v; };
  for (int i = 0; i < ng; i++) {
    ReadGate& g = r.gate_list[i];
    sym_assert(g.type == ty[i], "a gate keeps its type");
    sym_assert((g.input[0] == mapped(a[i])) & (g.input[1] == mapped(b[i])), "a gate still reads the same signals");
    sym_assert((g.input[0] < g.output) & (g.input[1] < g.output), "a gate comes after the gates it reads");
  }
  for (int i = 0; i < nd; i++) { ReadGate& g = r.dff_list[i]; sym_assert((g.output == in + i) & (g.input[0] == mapped(D[i])) & (g.input[1] == I[i]) & (g.type == DFFGATE), "a flip-flop keeps its number and still latches the same signals"); }
  for (int i = 0; i < no; i++) sym_assert((int64_t)r.output_list[i] == mapped(out[i]), "an output still shows the same signal");
  sym_assert((int64_t)r.terminate_id == mapped(term), "the terminate wire is still the same signal");
  sym_assert(r.get_init_input_size() == (uint64_t)in && r.dff_size == (uint64_t)nd && r.gate_size == (uint64_t)ng && r.output_size == (uint64_t)no, "sizes are kept");
  sym_cover("done");
}
