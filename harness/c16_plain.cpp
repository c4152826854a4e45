// The plaintext evaluator.
#define TP_OWN_RANDOM
#include "tp.h"
int EvalauatePlaintext(const string& scd_file_address, const GarbledCircuit& garbled_circuit, const BIGNUM* p_init, const BIGNUM* g_init, const BIGNUM* e_init, const BIGNUM* p_input, const BIGNUM* g_input, const BIGNUM* e_input,
                       uint64_t* clock_cycles, int64_t terminate_period, BIGNUM** outputs);
static int anyT() { unsigned k = sym_range(11, "type"); uint64_t t = 0; for (int j = 0; j < 11; j++) t = sym_ite64(k == (unsigned)j, (uint64_t)kGateTypes[j], t); return (int)t; }
// a wire in [lo,hi) or a constant
static int64_t anyS(int64_t lo, int64_t hi, const char* n) { unsigned k = sym_range((uint64_t)(hi - lo) + 2, n); int64_t w = lo + (int64_t)k; w = (int64_t)sym_ite64(k == (unsigned)(hi - lo), (uint64_t)CONST_ZERO, (uint64_t)w); return (int64_t)sym_ite64(k == (unsigned)(hi - lo) + 1, (uint64_t)CONST_ONE, (uint64_t)w); }
extern "C" void plain_main() {
  static const int gr[6][6] = { { 1, 1, 1, 1, 1, 1 }, { 2, 0, 1, 0, 2, 1 }, { 0, 2, 0, 2, 0, 1 }, { 1, 0, 2, 1, 1, 0 }, { 0, 0, 0, 1, 2, 1 }, { 0, 1, 1, 0, 0, 2 } };
  const int* z = gr[sym_choose(6, "sizes")];
  // {flip-flops, gates, outputs, clocks}
  static const int sh[12][4] = { { 0, 1, 2, 1 }, { 1, 1, 1, 2 }, { 1, 2, 1, 2 }, { 2, 1, 2, 2 }, { 0, 2, 3, 2 }, { 1, 1, 2, 3 }, { 2, 2, 1, 3 }, { 1, 3, 1, 2 }, { 2, 3, 2, 3 }, { 3, 2, 2, 3 }, { 1, 4, 2, 2 }, { 1, 2, 3, 4 } };
  // {terminate wire, period, trace map, outputs pre-allocated}
  static const int md[6][4] = { { 0, 0, 0, 0 }, { 1, 1, 1, 1 }, { 1, 2, 0, 0 }, { 1, 0, 0, 1 }, { 0, 1, 1, 0 }, { 1, 3, 0, 1 } };
  const int* h = sh[sym_choose(sym_param("shapes", 7), "shape")]; const int* m4 = md[sym_choose(6, "mode")];
  int nd = h[0], ng = h[1], no = h[2], cc = h[3];
  sym_shard_point();
  GC c = mk(z[0], z[1], z[2], z[3], z[4], z[5], nd, ng, no);
  int64_t ni = c.get_init_size(), base = c.get_gate_lo_index(), in0 = c.get_input_lo_index();
  for (int i = 0; i < ng; i++) { int t = anyT(); int64_t a = anyS(in0, base + i, "in0"), b = anyS(in0, base + i, "in1"); GarbledGate& g = c.garbledGates[i]; g.type = t; g.input0 = a; g.input1 = (int64_t)sym_ite64(t == NOTGATE, (uint64_t)-1, (uint64_t)b); }
  for (int i = 0; i < nd; i++) { c.I[i] = anyS(0, ni, "I"); c.D[i] = anyS(in0, base + ng, "D"); }
  for (int i = 0; i < no; i++) c.outputs[i] = in0 + (int64_t)sym_range(base + ng - in0, "out");
  int term = m4[0]; int64_t period = m4[1];
  c.terminate_id = term ? (uint64_t)(1 + sym_range(base + ng - 1, "termid")) : 0;
  if (term) sym_assume((int64_t)c.terminate_id >= in0);
  In x = symInputs(c, cc);
  BIGNUM *pi = bnOf(x.pi), *gi = bnOf(x.gi), *ei = bnOf(x.ei), *p = bnOf(x.p), *g = bnOf(x.g), *e = bnOf(x.e);
  // names of internal wires for the trace file
  static const char* maps[2] = { "terminate 0\n", "w0 0\ng[1] 1\nterminate 0\n" };
  const char* m = maps[m4[2]]; sym_fs_put("c.scd.map", m, __builtin_strlen(m));
  BIGNUM* out = m4[3] ? BN_new() : nullptr; if (out) { BN_set_bit(out, 3); BN_set_bit(out, 40); }
  uint64_t n = cc;
  sym_merge(1); Ref r = reference(c, x, cc);
  int rc = EvalauatePlaintext("c.scd", c, pi, gi, ei, p, g, e, &n, period, &out);
  sym_assert(rc == SUCCESS, "evaluation succeeds");
  int want = cc;
  if (period && term) for (int i = cc - 1; i >= 0; i--) if (i % period == 0) want = (int)sym_ite64(r.term[i], i + 1, want);
  sym_assert(n == (uint64_t)want, "runs until the first clock cycle the terminate wire and the period select, and reports the count");
  for (int t = 0; t < cc; t++) for (int i = 0; i < no; i++) { unsigned b = BN_is_bit_set(out, t * no + i); sym_assert((b != 0) == ((t < want) & r.out[t][i]), "output bit j of cycle c is bit c*outputs+j"); }
  sym_assert(BN_num_bits(out) <= cc * no, "no bits beyond the outputs");
  sym_merge(0);
  sym_cover("done"); sym_cover_if(want < cc, "stopped early");
}
