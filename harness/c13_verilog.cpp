// Verilog netlist -> SCD file -> circuit, against a direct reading of the netlist's description.
#include "sym.h"
#include "netlist.h"
static int import() { return Verilog2SCD("n.v", "n.map", "n.scd"); }
// ---- cells
enum { cMUX = 20, cHS, cHC, cHSC, cFS, cFC, cFSC, cEND };
static const int kBasic[] = {ANDGATE, ANDNGATE, NANDGATE, NANDNGATE, ORGATE, ORNGATE, NORGATE, NORNGATE, XORGATE, XNORGATE, NOTGATE};
static const char* kBasicName[] = {"AND", "ANDN", "NAND", "NANDN", "OR", "ORN", "NOR", "NORN", "XOR", "XNOR", "IV"};
static const int kTypes = 11 + 7;
struct Cell { int type; const char* pin[5]; char net[5][24]; int np; };   // net "" = pin left out
static void initCell(Cell& c, int k) {
  static const char* two[] = {"A", "B", "Z"}; static const char* one[] = {"A", "Z"}; static const char* mux[] = {"IN0", "IN1", "SEL", "F"};
  static const char* hs[] = {"IN0", "IN1", "SUM"}; static const char* hc[] = {"IN0", "IN1", "COUT"}; static const char* hsc[] = {"IN0", "IN1", "SUM", "COUT"};
  static const char* fs[] = {"IN0", "IN1", "CIN", "SUM"}; static const char* fc[] = {"IN0", "IN1", "CIN", "COUT"}; static const char* fsc[] = {"IN0", "IN1", "CIN", "SUM", "COUT"};
  const char** p; int n;
  c.type = k < 11 ? kBasic[k] : cMUX + k - 11;
  if (k < 10) p = two, n = 3; else if (k == 10) p = one, n = 2; else { const char** ps[] = {mux, hs, hc, hsc, fs, fc, fsc}; int ns[] = {4, 3, 3, 4, 4, 4, 5}; p = ps[k - 11]; n = ns[k - 11]; }
  c.np = n; for (int i = 0; i < n; i++) c.pin[i] = p[i];
}
static int inputsOf(int k) { return k < 10 ? 2 : k == 10 ? 1 : k == 11 ? 3 : k < 15 ? 2 : 3; }
static int outputsOf(int k) { return k < 11 ? 1 : k == 14 || k == 17 ? 2 : 1; }
static void values(int k, const int* in, int* out) {
  if (k < 11) { out[0] = fn(kBasic[k], in[0], in[1]); return; }
  int s3 = in[0] ^ in[1] ^ in[2], c3 = (in[0] + in[1] + in[2]) >> 1;
  switch (k) {
    case 11: out[0] = (in[2] & in[1]) | (!in[2] & in[0]); return;
    case 12: out[0] = in[0] ^ in[1]; return; case 13: out[0] = in[0] & in[1]; return; case 14: out[0] = in[0] ^ in[1]; out[1] = in[0] & in[1]; return;
    case 15: out[0] = s3; return; case 16: out[0] = c3; return; case 17: out[0] = s3; out[1] = c3; return;
  }
}
static const char* nameOf(int k) { return k < 11 ? kBasicName[k] : k == 11 ? "MUX" : k < 15 ? "HADDER" : "FADDER"; }
static int gateCount(int k) { return k < 11 ? 1 : -1; }
static void put(const Cell& c, int k, int id, int rot, int style) {
  T("  "); T(nameOf(k)); T(" U"); D(id); T(style ? "\n   ( " : " (");
  for (int i = 0; i < c.np; i++) {
    int at = rot == 2 ? c.np - 1 - i : (i + rot) % c.np;
    if (i) T(style ? ",\n      " : ", ");
    C('.'); T(c.pin[at]); T(style ? " ( " : "("); T(c.net[at]); T(style ? " )" : ")");
  }
  T(style ? "\n   );\n" : ");\n");
}
static void str(char* d, const char* s) { while ((*d = *s)) d++, s++; }
// an operand: a bit of one of two ports (the index is any in range) or a constant; returns its value
static int gG[4], gE[4];
static int gSym = 1, gFix;   // symbolic indices left; the next index once they are used up
static int operand(char* net, int kind) {
  if (kind == 2) { str(net, "1'b0"); return 0; }
  if (kind == 3) { str(net, "1'b1"); return 1; }
  str(net, kind ? "e_input[?]" : "g_input[?]");
  unsigned char d = (unsigned char)('0' + gFix++ % 3);
  if (gSym > 0) { gSym--; d = (unsigned char)sym_u8("index"); sym_assume(d >= '0' && d <= '2'); }
  net[8] = (char)d;
  int i = d - '0'; const int* v = kind ? gE : gG;
  return i == 0 ? v[0] : i == 1 ? v[1] : v[2];
}
static const char* kHead = "/////////\nmodule top ( clk, rst, g_input, e_input, o );\n";
static void bits(int* v, int n, const char* w) { for (int i = 0; i < n; i++) v[i] = sym_bool(w); }
static const int kKinds[][3] = { {0, 1, 0}, {1, 0, 1}, {2, 0, 3}, {0, 3, 2}, {3, 3, 0}, {0, 0, 2}, {1, 2, 0} };
// rotation of the pins, layout, whether the reader comes before the driver
static const int kForm[][3] = { {0, 0, 0}, {1, 1, 1}, {2, 0, 1}, {1, 0, 0}, {2, 1, 0}, {0, 1, 1} };
extern "C" void cells_main() {
  int nf = sym_param("forms", 0), k1 = sym_choose(kTypes, "cell"), kk = sym_choose(sym_param("kinds", 4), "kinds"), f = nf ? sym_choose(nf, "form") : (k1 + kk) % 6, k2 = sym_choose(sym_param("second", 3), "second");
  static const int seconds[] = {3, 11, 17, 5, 10, 14, 1, 12};
  k2 = seconds[nf ? k2 : (k2 + k1) % 8];
  sym_shard_point();
  gFix = kk + f; gSym = sym_param("digits", 1);
  bits(gG, 3, "g"); bits(gE, 3, "e");
  Cell a, b; int in[3] = {0, 0, 0}, out[2], in2[3] = {0, 0, 0}, out2[2];
  initCell(a, k1); for (int i = 0; i < inputsOf(k1); i++) in[i] = operand(a.net[i], kKinds[kk][i]);
  values(k1, in, out); int no1 = outputsOf(k1);
  for (int i = 0; i < no1; i++) { str(a.net[inputsOf(k1) + i], i ? "n11" : "n1"); }
  initCell(b, k2);
  for (int i = 0; i < inputsOf(k2); i++) {
    if (i == (int)(kk % 2) && inputsOf(k2) > 1) in2[i] = operand(b.net[i], 1); else { str(b.net[i], i == 2 && no1 == 2 ? "n11" : "n1"); in2[i] = i == 2 && no1 == 2 ? out[1] : out[0]; }
  }
  values(k2, in2, out2); int no2 = outputsOf(k2);
  for (int i = 0; i < no2; i++) str(b.net[inputsOf(k2) + i], i ? "o[1]" : "o[0]");
  T(kHead); T("  input [2:0] g_input;\n  input [2:0] e_input;\n  output ["); D(no1 + no2 - 1); T(":0] o;\n  input clk, rst;\n  wire   n1, n11;\n\n");
  for (int i = 0; i < no1; i++) { T("  assign o["); D(no2 + i); T(i ? "] = n11;\n" : "] = n1;\n"); }
  if (kForm[f][2]) { put(b, k2, 1, kForm[f][0], kForm[f][1]); put(a, k1, 2, kForm[f][0], kForm[f][1]); }
  else { put(a, k1, 1, kForm[f][0], kForm[f][1]); put(b, k2, 2, kForm[f][0], kForm[f][1]); }
  T("endmodule\n"); file(gN);
  sym_assert(import() == SUCCESS, "a supported netlist is imported");
  load(6, 0);
  sym_assert(gC.g_input_size == 3 && gC.e_input_size == 3 && (int)gC.output_size == no1 + no2, "ports have their declared widths");
  for (int i = 0; i < 3; i++) { gV[i] = gG[i]; gV[3 + i] = gE[i]; }
  run();
  for (int i = 0; i < no2; i++) sym_assert(wire(gC.outputs[i]) == out2[i], "the cells compute their functions");
  for (int i = 0; i < no1; i++) sym_assert(wire(gC.outputs[no2 + i]) == out[i], "the cells compute their functions");
  if (gateCount(k1) == 1 && gateCount(k2) == 1) {
    sym_assert(gC.gate_size == 2, "one gate per basic cell");
    int t0 = gC.garbledGates[0].type, t1 = gC.garbledGates[1].type, x = kBasic[k1], y = kBasic[k2];
    sym_assert((t0 == x && t1 == y) || (t0 == y && t1 == x), "gates have the types of their cells");
  }
  sym_cover("done");
}
// flip-flops: data from a cell, an input, a constant or another flip-flop; initial value from an init bit or a constant
extern "C" void dff_main() {
  int src = sym_choose(5, "data"), init = sym_choose(4, "init"), f = sym_choose(sym_param("forms", 3), "form"), order = sym_choose(2, "order");
  sym_shard_point();
  int p[2], g[2], e[1]; bits(p, 2, "p"); bits(g, 2, "g"); bits(e, 1, "e"); bits(gG, 2, "in"); int st[2]; bits(st, 2, "state");
  unsigned char d1 = (unsigned char)sym_u8("index"), d2 = (unsigned char)sym_u8("index"); sym_assume((d1 == '0' || d1 == '1') && (d2 == '0' || d2 == '1'));
  char ini[16], dat[16]; int vi, vd;
  switch (init) { case 0: str(ini, "1'b0"); vi = 0; break; case 1: str(ini, "1'b1"); vi = 1; break; case 2: str(ini, "p_init[?]"); ini[7] = (char)d1; vi = d1 == '0' ? p[0] : p[1]; break; default: str(ini, "e_init"); vi = e[0]; }
  switch (src) { case 0: str(dat, "n1"); vd = st[0] ^ gG[1]; break; case 1: str(dat, "g_input[?]"); dat[8] = (char)d2; vd = d2 == '0' ? gG[0] : gG[1]; break; case 2: str(dat, "1'b1"); vd = 1; break; case 3: str(dat, "q0"); vd = st[0]; break; default: str(dat, "o[0]"); vd = st[1]; }
  T(kHead); T("  input [1:0] p_init;\n  input [1:0] g_init; input e_init;\n  input [1:0] g_input;\n  output [2:0] o;\n  input clk, rst; wire q0, n1;\n");
  const char* sep = kForm[f][1] ? "\n     " : " ";
  for (int i = 0; i < 3; i++) {
    int w = order ? 2 - i : i;
    if (w == 0) { T("  XOR U1 ( .A(q0), .B(g_input[1]), .Z(n1) );\n"); continue; }
    const char* pins[5] = {".D(", ".CLK(", ".RST(", ".I(", ".Q("}; const char* nets[5] = {w == 1 ? "n1" : dat, "clk", "rst", w == 1 ? "g_init[1]" : ini, w == 1 ? "q0" : "o[0]"};
    T("  DFF \\r_reg["); D(w); T("] ("); 
    for (int j = 0; j < 5; j++) { int at = kForm[f][0] == 2 ? 4 - j : (j + kForm[f][0]) % 5; if (j) T(","); T(sep); T(pins[at]); T(nets[at]); T(")"); }
    T(" );\n");
  }
  T("  assign o[1] = q0;\n  assign o[2] = n1;\nendmodule"); file(gN);
  sym_assert(import() == SUCCESS, "a supported netlist is imported");
  load(7, 2);
  sym_assert(gC.p_init_size == 2 && gC.g_init_size == 2 && gC.e_init_size == 1 && gC.g_input_size == 2, "ports have their declared widths");
  int v[7] = {p[0], p[1], g[0], g[1], e[0], gG[0], gG[1]}; for (int i = 0; i < 7; i++) gV[i] = v[i];
  // which flip-flop is which: by the outputs
  int64_t w0 = gC.outputs[1], w1 = gC.outputs[0];
  sym_assert(w0 >= 7 && w0 < 9 && w1 >= 7 && w1 < 9 && w0 != w1, "flip-flop outputs are flip-flops");
  gV[w0] = st[0]; gV[w1] = st[1]; run();
  sym_assert(wire(gC.outputs[2]) == (st[0] ^ gG[1]), "flip-flop outputs are read where they are named");
  sym_assert(wire(gC.D[w0 - 7]) == (st[0] ^ gG[1]) && wire(gC.D[w1 - 7]) == vd, "flip-flops take their data");
  sym_assert(wire(gC.I[w0 - 7]) == g[1] && wire(gC.I[w1 - 7]) == vi, "flip-flops take their initial values");
  sym_cover("done");
}
// ports: widths, order, layout
static const char* kPort[] = {"p_init", "g_init", "e_init", "p_input", "g_input", "e_input"};
static const int kWidths[][6] = { {0, 0, 0, 0, 1, 1}, {0, 0, 0, 0, 2, 3}, {1, 2, 3, 1, 1, 2}, {0, 11, 0, 2, 0, 12}, {3, 0, 1, 10, 1, 0}, {1, 1, 1, 1, 1, 1}, {0, 0, 0, 0, 0, 1}, {2, 2, 2, 2, 2, 2} };
extern "C" void ports_main() {
  int w = sym_choose(sym_param("widths", 8), "widths"), order = sym_choose(3, "order"), style = sym_choose(4, "layout");
  sym_shard_point();
  const int* W = kWidths[w]; int no = 0, tot = 0, base[6]; for (int i = 0; i < 6; i++) { base[i] = tot; tot += W[i]; no += W[i] > 0 ? W[i] > 1 ? 2 : 1 : 0; }
  T("module top ( clk, rst"); for (int i = 0; i < 6; i++) if (W[i]) { T(", "); T(kPort[i]); } T(",\n      o );\n");
  if (style & 1) T("  output ["), D(no), T(":0]\n      o;\n");
  for (int j = 0; j < 6; j++) {
    int i = order == 0 ? j : order == 1 ? 5 - j : (j * 5 + 2) % 6; if (i < 0 || i > 5 || !W[i]) continue;
    T("  input "); if (W[i] > 1 || (style & 2)) { C('['); D(W[i] - 1); T(":0] "); } if (style & 1) T("\n     "); T(kPort[i]); T(style == 2 ? " ;\n" : ";\n");
  }
  T("  input clk, rst;\n"); if (!(style & 1)) T("  output ["), D(no), T(":0] o;\n");
  int64_t want[16]; int n = 0; bool seen = false;
  for (int i = 0; i < 6; i++) for (int j = 0; j < 2; j++) {
    if (!W[i] || (j && W[i] == 1)) continue;
    int bit = j ? W[i] - 1 : 0; bool any = j && !seen && W[i] <= 10; T("  assign o["); D(n); T("] = "); T(kPort[i]);
    if (any) { unsigned char d = (unsigned char)sym_u8("index"); sym_assume(d >= '0' && d < '0' + W[i]); C('['); C((char)d); C(']'); seen = true; bit = d - '0'; }
    else if (W[i] > 1 || (style & 2)) { C('['); D(bit); C(']'); }
    T(";\n"); want[n++] = base[i] + bit;
  }
  for (int i = 5; i >= 0; i--) if (W[i]) { T("  IV U1 ( .A("); T(kPort[i]); if (W[i] > 1) T("[1]"); T("), .Z(o["); D(n); T("]) );\nendmodule\n"); want[n++] = base[i] + (W[i] > 1); break; }
  file(gN);
  sym_assert(import() == SUCCESS, "a supported netlist is imported");
  load(tot, 0);
  uint64_t got[6] = {gC.p_init_size, gC.g_init_size, gC.e_init_size, gC.p_input_size, gC.g_input_size, gC.e_input_size};
  for (int i = 0; i < 6; i++) sym_assert((int)got[i] == W[i], "ports have their declared widths");
  sym_assert((int)gC.output_size == n && gC.gate_size == 1, "the output has its declared width");
  for (int i = 0; i < tot; i++) gV[i] = sym_bool("in");
  run();
  for (int i = 0; i + 1 < n; i++) sym_assert(wire(gC.outputs[i]) == gV[want[i]], "outputs name the declared input bits");
  sym_assert(wire(gC.outputs[n - 1]) == !gV[want[n - 1]], "outputs name the declared input bits");
  sym_cover("done");
}
// aliases, constants on outputs, terminate
extern "C" void alias_main() {
  int perm = sym_choose(6, "order"), src = sym_choose(4, "source"), place = sym_choose(2, "place"), term = sym_choose(4, "terminate"), one = sym_choose(2, "scalar");
  sym_shard_point();
  static const int P[6][3] = { {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0} };
  const char* srcs[] = {"n1", "g_input[?]", "1'b0", "1'b1"};
  bits(gG, 2, "g"); bits(gE, 1, "e"); unsigned char dig = (unsigned char)sym_u8("index"); sym_assume(dig == '1' || (dig == '0' && term != 3));
  char any[16]; str(any, srcs[1]); any[8] = (char)dig; srcs[1] = any;
  int n1 = gG[0] & gE[0], v = src == 0 ? n1 : src == 1 ? gG[dig == '1'] : src == 2 ? 0 : 1;
  T(kHead); T("  input [1:0] g_input;\n  input e_input;\n"); T(one ? "  output o;\n" : "  output [2:0] o;\n"); if (term) T("  output terminate;\n"); T("  input clk, rst;\n  wire n1, n2, n3, n4;\n");
  for (int k = 0; k < 2; k++) {
    if (k == place) { T("  AND U1 ( .A(g_input[0]), .B(e_input), .Z(n1) );\n  OR U2 ( .A(n1), .B(n3), .Z("); T(one ? "n4" : "o[1]"); T(") );\n"); if (one) T("  XOR U3 (.A(n4), .B(n2), .Z(o) );\n"); }
    else for (int i = 0; i < 3; i++) {
      int a = P[perm][i]; T("  assign ");
      if (a == 0) { T("n2 = "); T(srcs[src]); } else if (a == 1) T("n3 = n2"); else if (one) T("n5 = n3"); else T("o[0] = n3");
      T(";\n");
    }
  }
  if (!one) T("  assign o[2] = n3;\n");
  if (term == 1) T("  assign terminate = n1;\n"); if (term == 2) T("  AND U9 ( .A(g_input[1]), .B(e_input), .Z(terminate) );\n"); if (term == 3) T("  assign terminate = n3;\n");
  T("endmodule\n"); file(gN);
  sym_assert(import() == SUCCESS, "a supported netlist is imported");
  load(3, 0);
  gV[0] = gG[0]; gV[1] = gG[1]; gV[2] = gE[0]; run();
  if (one) sym_assert(gC.output_size == 1 && wire(gC.outputs[0]) == ((n1 | v) ^ v), "aliases stand for what drives them");
  else {
    sym_assert(gC.output_size == 3 && wire(gC.outputs[0]) == v && wire(gC.outputs[2]) == v, "aliases stand for what drives them");
    sym_assert(wire(gC.outputs[1]) == (n1 | v), "aliases stand for what drives them");
    for (int i = 0; i < 3; i++) sym_assert(gC.outputs[i] >= 0 && gC.outputs[i] < (int64_t)(gBias + gC.gate_size), "outputs are wires of the circuit");
  }
  if (!term) sym_assert(gC.terminate_id == 0, "there is no terminate signal");
  else {
    sym_assert(gC.terminate_id > 0 && gC.terminate_id < (uint64_t)gBias + gC.gate_size, "the terminate signal is a wire of the circuit");
    sym_assert(wire((int64_t)gC.terminate_id) == (term == 1 ? n1 : term == 2 ? (gG[1] & gE[0]) : v), "the terminate signal is what drives it");
  }
  sym_cover("done");
}
// malformed netlists
extern "C" void pins_main() {   // one pin of one cell left out, or left unconnected; or an operand nothing drives
  int k = sym_choose(kTypes + 1, "cell"), how = sym_choose(3, "how"), f = sym_choose(2, "form"), after = sym_choose(2, "after"); Cell c;
  if (k < kTypes) initCell(c, k); else { c.type = DFFGATE; c.np = 3; c.pin[0] = "D"; c.pin[1] = "I"; c.pin[2] = "Q"; }
  int nin = k < kTypes ? inputsOf(k) : 2, both = k == 14 || k == 17;   // (adders need only one of their outputs)
  int bad = sym_choose(c.np, "pin");
  sym_shard_point();
  if (both && bad >= nin) sym_end();
  if (how == 2 && bad >= nin) sym_end();
  bits(gG, 3, "g");
  for (int i = 0; i < nin; i++) { str(c.net[i], "g_input[0]"); c.net[i][8] = (char)('0' + i); }
  unsigned char d = (unsigned char)sym_u8("index"); sym_assume(d >= '0' && d <= '2'); c.net[bad == 0 && nin > 1][8] = (char)d;
  for (int i = nin; i < c.np; i++) { str(c.net[i], "o[0]"); c.net[i][2] = (char)('0' + i - nin); }
  int no = c.np - nin;
  if (how == 1) c.net[bad][0] = 0;
  if (how == 2) str(c.net[bad], "n77");
  if (how == 0) { for (int i = bad; i + 1 < c.np; i++) { c.pin[i] = c.pin[i + 1]; str(c.net[i], c.net[i + 1]); } c.np--; }
  T(kHead); T("  input [2:0] g_input;\n  output ["); D(no); T(":0] o;\n  input clk, rst;\n");
  // another, complete cell before or after it
  for (int i = 0; i < 2; i++) if (i == after) { if (k < kTypes) put(c, k, 5, kForm[f][0], kForm[f][1]); else { T("  DFF r (.CLK(clk), .RST(rst)"); for (int j = 0; j < c.np; j++) { T(", ."); T(c.pin[j]); T("("); T(c.net[j]); T(")"); } T(");\n"); } } else { T("  FADDER U0 ( .IN0(g_input[0]), .IN1(g_input[1]), .CIN(g_input[2]), .SUM(o["); D(no); T("]) );\n  DFF U6 ( .D(g_input[0]), .I(1'b0), .Q(n9), .CLK(clk), .RST(rst) );\n  MUX U7 ( .IN0(g_input[0]), .IN1(n9), .SEL(g_input[2]), .F(n6) );\n  AND U8 ( .A(n6), .B(g_input[2]), .Z(n8) );\n"); }
  T("endmodule\n"); file(gN);
  sym_assert(import() != SUCCESS, how == 2 ? "an operand that nothing drives is rejected" : "a cell with a missing pin is rejected");
  sym_cover("done");
}
extern "C" void reject_main() {
  int k = sym_choose(11, "case"); sym_shard_point();
  T(kHead); T("  input [2:0] g_input;\n");
  T(k == 0 ? "  output [1:0] out;\n" : k == 1 ? "  output [1:0] o;\n  output [1:0] terminate;\n" : k == 2 ? "  output [1:0] o;\n  input [3:0] x_input;\n" : k == 7 ? "  output [1:0] o;\n  output terminate;\n" : "  output [1:0] o;\n");
  unsigned char d = (unsigned char)sym_u8("index"), u = (unsigned char)sym_u8("index"); sym_assume(d >= '0' && d <= '2' && u >= '3' && u <= '9');
  T("  input clk, rst;\n  AND U1 ( .A(g_input["); C((char)d); T("]), .B(g_input[2]), .Z(o[1]) );\n");
  if (k != 3) k == 5 ? (T("  assign o[0] = g_input["), C((char)u), T("];\n")) : T(k == 4 ? "  assign o[0] = n4;\n" : "  XOR U2 ( .A(g_input[0]), .B(g_input[2]), .Z(o[0]) );\n");
  if (k == 8) T("  OR U3 ( .A(o[2]), .B(g_input[0]), .Z(n3) );\n");
  if (k == 9) T("  AND U4 ( .A(n5), .B(g_input[0]), .Z(n6) );\n  OR U5 ( .A(n6), .B(o[1]), .Z(n5) );\n");
  if (k == 10) T("  XOR U4 ( .A(o[1]), .B(n5), .Z(n5) );\n");
  if (k != 6) T("endmodule\n");
  file(gN);
  sym_assert(import() != SUCCESS, "a malformed netlist is rejected");
  sym_cover("done");
}
// cut short anywhere: rejected unless the cut is after endmodule
extern "C" void cut_main() {
  T("module top ( clk, rst, g_input, o );\n  input [1:0] g_input;\n  output o;\n  input clk, rst;\n  wire n1;\n  AND U1 ( .A(g_input[0]), .B(g_input[1]), .Z(n1) );\n  assign o = n1;\nendmodule\n");
  int cut = sym_choose(gN, "cut"); sym_shard_point();
  for (int i = 0; i < gN; i++) if (gB[i] == '1' && gB[i - 1] == 'U') { unsigned char d = (unsigned char)sym_u8("name"); sym_assume((d >= '0' && d <= '9') || (d >= 'a' && d <= 'z')); gB[i] = (char)d; }
  file(cut);
  sym_assert((import() == SUCCESS) == (cut >= gN - 1), "a netlist without its end is rejected");
  sym_cover("done");
}
