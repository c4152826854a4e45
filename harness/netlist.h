// Netlist text, and the circuit file that an import wrote, read back and run. (after sym.h)
#pragma once
#include "scd/v_2_scd.h"
#include "scd/scd.h"
#include "garbled_circuit/garbled_circuit_util.h"
#include "util/common.h"
// ---- text
static char gB[4096]; static int gN;
static void T(const char* s) { while (*s) gB[gN++] = *s++; }
static void C(char c) { gB[gN++] = c; }
static void D(int v) { if (v >= 10) D(v / 10); C((char)('0' + v % 10)); }
static void file(int n) { sym_fs_put("n.v", gB, n); }
// ---- the circuit that was read
static const int kW = 200;
static GarbledCircuit gC; static int gV[kW]; static int gBias;
static int wire(int64_t w) { if (w == CONST_ZERO) return 0; if (w == CONST_ONE) return 1; if (w < 0 || w >= kW) { sym_assert(false, "operands are wires of the circuit"); return 0; } return gV[w]; }
static int fn(int t, int a, int b) {
  switch (t) {
    case ANDGATE: return a & b; case ANDNGATE: return a & !b; case NANDGATE: return !(a & b); case NANDNGATE: return !(a & !b);
    case ORGATE: return a | b; case ORNGATE: return a | !b; case NORGATE: return !(a | b); case NORNGATE: return !(a | !b);
    case XORGATE: return a ^ b; case XNORGATE: return !(a ^ b); case NOTGATE: return !a;
  }
  sym_assert(false, "gates are of the basic types"); return 0;
}
static void load(int inputs, int dffs) {
  sym_assert(ReadSCD("n.scd", &gC) == SUCCESS, "the circuit can be read");
  gBias = inputs + dffs;
  sym_assert((int)(gC.p_init_size + gC.g_init_size + gC.e_init_size + gC.p_input_size + gC.g_input_size + gC.e_input_size) == inputs && (int)gC.dff_size == dffs, "declared inputs and flip-flops are all there");
}
static void run() {
  for (unsigned i = 0; i < gC.gate_size; i++) {
    GarbledGate& g = gC.garbledGates[i];
    sym_assert(g.input0 < (int64_t)(gBias + i) && (g.type == NOTGATE || g.input1 < (int64_t)(gBias + i)), "gates read earlier wires");
    gV[gBias + i] = fn(g.type, wire(g.input0), g.type == NOTGATE ? 0 : wire(g.input1));
  }
}
