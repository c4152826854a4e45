#include "util/util.h"
#include "gates.h"
#include "sym.h"
extern "C" void harness_main() {
  int t = kGateTypes[sym_choose(11, "type")];
  unsigned a = sym_bool("a"), b = sym_bool("b");
  unsigned want = specGate(t, a, b);
  sym_assert((unsigned)GateOperator(t, a, b) == want, "GateOperator gives the documented truth table");
  if (t == NOTGATE) sym_assert((unsigned)GateOperator(t, a) == (a ^ 1), "GateOperator(NOT) with one operand");
  if (!isFree(t)) {
    unsigned v = Type2V(t);
    unsigned v0 = v & 1, v1 = (v >> 1) & 1, v2 = (v >> 2) & 1;
    sym_assert(v < 8, "half-gate constants are three bits");
    sym_assert((((a ^ v0) & (b ^ v1)) ^ v2) == want, "half-gate constants reproduce the truth table");
    sym_cover("halfgate");
  }
}
// public-value propagation; each input is 0, 1, SECRET or SECRET_INV
extern "C" void known_main() {
  int t = kGateTypes[sym_choose(11, "type")];
  short v0 = (short)(int)sym_range(4, "v0") - 2, v1 = (short)(int)sym_range(4, "v1") - 2;
  unsigned a = sym_bool("a"), b = sym_bool("b");
  if (v0 >= 0) sym_assume(a == (unsigned)v0);
  if (v1 >= 0) sym_assume(b == (unsigned)v1);
  short out = 77;
  GarbleEvalGateKnownValue(v0, v1, t, &out);
  // which outputs are possible given what is known
  bool can0 = false, can1 = false;
  for (unsigned x = 0; x < 2; x++) for (unsigned y = 0; y < 2; y++) {
    bool ok = (v0 < 0 || x == (unsigned)v0) && (v1 < 0 || y == (unsigned)v1);
    if (ok) { if (specGate(t, x, y)) can1 = true; else can0 = true; }
  }
  if (v0 < 0 && v1 < 0) { sym_assert(out < 0, "two secret inputs give a secret output"); sym_cover("both secret"); }
  else if (t == NOTGATE && v0 < 0) { sym_assert(out < 0, "NOT of a secret is secret"); }
  else if (can0 && can1) { sym_assert(out < 0, "output not forced by the known input is secret"); sym_cover("unforced"); }
  else { sym_assert(out == (short)(can1 ? 1 : 0), "output forced by the known inputs is that constant"); sym_assert(out == (short)specGate(t, a, b), "constant equals the truth table"); sym_cover("forced"); }
}
