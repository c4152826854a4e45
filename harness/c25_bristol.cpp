// Bristol-format circuit -> SCD file -> circuit, against a direct reading of the text's description.
#include "sym.h"
#include "netlist.h"
static int import() { return Bris2SCD("n.v", "n.map", "n.scd"); }
static void num(int v, const char* sep) { D(v); T(sep); }
static const char* kName[] = {"XOR", "AND", "INV"};
static const int kCode[] = {XORGATE, ANDGATE, NOTGATE};
static const int kMax = 40;
struct G { int type, a, b, o; };
static G gG[kMax]; static int gN2, gWires, gSz[3];
static const char* kSep[] = {" ", "  ", "\n"};
static void header(int style) { num(gN2, " "); num(gWires, "\n"); num(gSz[0], " "); num(gSz[1], style ? "   " : " "); num(gSz[2], style ? "\n\n" : "\n"); }
// (the operand digits may be symbolic, so they are written as one character when they are below ten)
static void wireText(int w, bool one) { if (one) C((char)('0' + w)); else D(w); }
static void line(const G& g, int style, bool onedigit, const char* end) {
  const char* s = style == 1 ? "  " : " ";
  T(g.type == 2 ? "1" : "2"); T(s); T("1"); T(s); wireText(g.a, onedigit); T(s); if (g.type != 2) { wireText(g.b, onedigit); T(s); } D(g.o); T(s); T(kName[g.type]); T(end);
}
static void check() {
  int ng = gSz[0], ne = gSz[1], no = gSz[2], n = ng + ne, v[kMax + 24];
  load(n, 0);
  sym_assert((int)gC.g_input_size == ng && (int)gC.e_input_size == ne && (int)gC.output_size == no && (int)gC.gate_size == gN2, "sizes are as declared");
  for (int i = 0; i < n; i++) v[i] = gV[i] = sym_bool("in");
  for (int i = 0; i < gN2; i++) {   // (gates in the text are in an order that can be run)
    G& g = gG[i]; int a = 0, b = 0;
    for (int j = 0; j < gWires; j++) { if (j < n || j < gWires) { a = sym_ite64(g.a == j, j < kMax + 24 ? v[j] : 0, a); if (g.type != 2) b = sym_ite64(g.b == j, v[j], b); } }
    v[g.o] = g.type == 0 ? a ^ b : g.type == 1 ? a & b : !a;
  }
  run();
  for (int i = 0; i < no; i++) sym_assert(wire(gC.outputs[i]) == v[gWires - no + i], "outputs are the last wires, computed by the gates of the text");
  int cnt[3] = {0, 0, 0}; for (unsigned i = 0; i < gC.gate_size; i++) for (int t = 0; t < 3; t++) cnt[t] += gC.garbledGates[i].type == kCode[t];
  for (int i = 0; i < gN2; i++) cnt[gG[i].type]--;
  sym_assert(cnt[0] == 0 && cnt[1] == 0 && cnt[2] == 0, "every gate keeps its type");
  sym_cover("done");
}
// small circuits: any types, the operands of one or two gates arbitrary
static const int kSizes[][3] = { {2, 1, 1}, {1, 1, 1}, {1, 3, 2}, {0, 2, 1}, {3, 0, 2}, {1, 2, 3} };
// order in which the gates' output wires are numbered
static const int kPerm[][4] = { {0, 1, 2, 3}, {1, 0, 2, 3}, {0, 2, 1, 3} };
extern "C" void ops_main() {
  int ns = sym_param("sizes", 4), n = sym_param("gates", 3), z = sym_choose(ns, "sizes"), which = sym_choose(n, "arbitrary"), sym = sym_param("symbolic", 0), pm = sym ? z % 3 : sym_choose(3, "numbering"), style = (z + which + pm) % 2;
  for (int i = 0; i < n; i++) gG[i].type = sym_choose(3, "type");
  sym_shard_point();
  for (int i = 0; i < 3; i++) gSz[i] = kSizes[z][i];
  int in = gSz[0] + gSz[1]; gN2 = n; gWires = in + n;
  if (gSz[2] > n) sym_end();
  for (int i = 0; i < n; i++) gG[i].o = in + (i < 4 ? kPerm[pm][i] : i);
  for (int i = 0; i < n; i++) {
    G& g = gG[i];
    int prev[2]; for (int j = 0; j < 2; j++) { int x = i - 1 - j; prev[j] = x >= 0 ? gG[x].o : (j + i) % in; }
    g.a = prev[0]; g.b = prev[1];
    if (i == which) {
      for (int j = 0; j < (g.type == 2 ? 1 : 2); j++) {
        int d = sym ? sym_u8("operand") : sym_choose(in + i, "wire"); if (!sym && d >= in) d = gG[d - in].o;
        bool ok = d < in; for (int k = 0; k < i; k++) ok = ok | (d == gG[k].o);
        sym_assume(ok); (j ? g.b : g.a) = d;
      }
    }
  }
  header(style);
  for (int i = 0; i < n; i++) line(gG[i], style, sym && i == which, i == n - 1 && style ? "" : style ? "\n\n" : "\n");
  file(gN);
  sym_assert(import() == SUCCESS, "a well-formed circuit is imported");
  check();
}
// wire numbers of several digits; a chain of gates over every input
extern "C" void wide_main() {
  static const int S[][4] = { {8, 8, 3, 16}, {12, 1, 1, 14}, {1, 11, 12, 13}, {16, 0, 2, 20}, {10, 10, 10, 12} };
  int z = sym_choose(5, "sizes"), mix = sym_choose(3, "types"), order = sym_choose(2, "order");
  sym_shard_point();
  for (int i = 0; i < 3; i++) gSz[i] = S[z][i];
  int in = gSz[0] + gSz[1], n = S[z][3]; gN2 = n; gWires = in + n;
  int last = in - 1;
  for (int i = 0; i < n; i++) {
    G& g = gG[i]; g.type = (i * (mix + 1) + mix) % (mix == 2 ? 2 : 3); g.o = in + (order ? (i ^ (i + 1 < n || (i & 1) ? 1 : 0)) : i); g.a = (i * 7 + 3) % in; g.b = last; if (g.type == 2 || (i & 1)) { int x = g.a; g.a = g.b; g.b = x; }
    last = g.o;
  }
  header(0); for (int i = 0; i < n; i++) line(gG[i], 0, false, "\n");
  file(gN);
  sym_assert(import() == SUCCESS, "a well-formed circuit is imported");
  check();
}
// not well formed
extern "C" void reject_main() {
  int k = sym_choose(5, "case"), at = sym_choose(3, "gate"); sym_shard_point();
  gSz[0] = 1; gSz[1] = 1; gSz[2] = 1; gN2 = k == 1 ? 0 : 3; gWires = k == 2 ? 0 : 5;
  gG[0] = G{1, 0, 1, 2}; gG[1] = G{2, 2, 0, 3}; gG[2] = G{0, 3, 2, 4};
  header(0);
  for (int i = 0; i < 3; i++) {
    int b = gN; line(gG[i], 0, true, "\n");
    if (i == at && k == 0) {   // any other name of three letters
      char* p = gB + gN - 4; for (int j = 0; j < 3; j++) { p[j] = (char)sym_u8("name"); sym_assume(p[j] >= 'A' && p[j] <= 'Z'); }
      bool x = false; for (int t = 0; t < 3; t++) x = x | ((p[0] == kName[t][0]) & (p[1] == kName[t][1]) & (p[2] == kName[t][2])); sym_assume(!x);
    }
    if (i == at && k == 3) { gN = b; break; }   // fewer gates than declared
    if (i == at && k == 4) { gB[gN - 1] = 'S'; C('\n'); }   // a longer name
  }
  file(gN);
  sym_assert(import() != SUCCESS, "an unknown gate type or an empty circuit is rejected");
  sym_cover("done");
}
