#include "util/util.h"
#include "garbled_circuit/garbled_circuit_util.h"
#include "gates.h"
#include "sym.h"
static block anyBlock(const char* n) { block b; sym_bytes(&b, sizeof b, n); return b; }
// symbolic block whose point-and-permute bit is enumerated
static block lsbBlock(const char* n, unsigned lsb) { block b = anyBlock(n); unsigned char* p = (unsigned char*)&b; p[0] = (unsigned char)((p[0] & 0xfe) | lsb); return b; }
static bool eqB(block a, block b) { return sym_memeq(&a, &b, sizeof a); }
static block xr(block a, block b) { return _mm_xor_si128(a, b); }
struct W { int kind; BlockPair g; short gv; block e; short ev; unsigned bit; };  // one wire: garbler view, evaluator view, true bit
static block R; static AES_KEY key;
static void wireSecret(W& w, block l0, unsigned bit, short ev) {
  w.kind = 1; w.g.label0 = l0; w.g.label1 = xr(l0, R); w.gv = SECRET; w.bit = bit; w.e = bit ? w.g.label1 : w.g.label0; w.ev = ev;
}
static void wirePublic(W& w, unsigned bit) { w.kind = 0; w.g.label0 = ZeroBlock(); w.g.label1 = ZeroBlock(); w.gv = bit; w.e = ZeroBlock(); w.ev = bit; w.bit = bit; }
static GarbledTable tg[8], te[8]; static uint64_t ig, ie;
static void gate(const W& x, const W& y, int t, uint64_t cid, uint64_t gid, W& o) {
  uint64_t ig0 = ig, ie0 = ie;
  GarbleGate(x.g, x.gv, y.g, y.gv, t, cid, gid, tg, &ig, R, key, &o.g, &o.gv);
  for (uint64_t i = ig0; i < ig; i++) te[i] = tg[i];
  EvalGate(x.e, x.ev, y.e, y.ev, t, cid, gid, te, &ie, key, &o.e, &o.ev);
  o.bit = specGate(t, x.bit, y.bit); o.kind = IsSecret(o.gv);
  sym_assert(ig - ig0 == ie - ie0, "garbler produced as many tables as the evaluator consumed");
  sym_assert(ig - ig0 <= 1, "a gate makes at most one table");
  if (!IsSecret(o.gv)) {
    sym_assert(o.gv == o.ev, "both sides agree on the public output value");
    sym_assert((unsigned)o.gv == o.bit, "public output value equals the gate's truth table");
    sym_cover("public output");
  } else {
    sym_assert(IsSecret(o.ev), "both sides agree that the output is secret");
    sym_assert(eqB(o.g.label1, xr(o.g.label0, R)), "output labels differ by the global offset");
    sym_assert(eqB(o.e, o.bit ? o.g.label1 : o.g.label0), "evaluator holds the garbler's label of the true output bit");
    sym_cover("secret output");
  }
}
static void setup() {
  R = lsbBlock("R", 1);
  sym_bytes(&key, sizeof(block) * 11, "key");
  for (int i = 0; i < 8; i++) tg[i].gid = te[i].gid = 0xFFFFFFFFu;
  ig = ie = 0;
}
// one gate, any inputs
extern "C" void harness_main() {
  setup();
  int t = kGateTypes[sym_choose(11, "type")];
  int k0 = sym_choose(2, "secret0"), k1 = sym_choose(2, "secret1");
  unsigned a = sym_choose(2, "a"), b = sym_choose(2, "b");
  uint64_t cid = sym_u64("cid"), gid = sym_u64("gid");
  sym_assume(gid < 0xFFFFFFFFull);
  W x, y, o;
  int rel = 0;
  if (k0 && k1) rel = sym_choose(3, "relation");
  if (rel == 1) sym_assume(a == b);
  if (rel == 2) sym_assume(a != b);
  block l0 = lsbBlock("l0", k0 ? sym_choose(2, "lsb0") : 0), l1 = lsbBlock("l1", k1 ? sym_choose(2, "lsb1") : 0);
  short f0 = sym_choose(2, "flag0") ? SECRET_INV : SECRET, f1 = sym_choose(2, "flag1") ? SECRET_INV : SECRET;
  if (rel == 0 && k0 && k1) sym_assume(!(eqB(l0, l1) | eqB(l0, xr(l1, R))));
  if (rel == 1) { l1 = l0; f1 = f0; }
  if (rel == 2) { l1 = xr(l0, R); f1 = f0 == SECRET ? SECRET_INV : SECRET; }
  if (k0) wireSecret(x, l0, a, f0); else wirePublic(x, a);
  if (k1) wireSecret(y, l1, b, f1); else wirePublic(y, b);
  gate(x, y, t, cid, gid, o);
  bool need = k0 && k1 && rel == 0 && !isFree(t);
  sym_assert(ig == (need ? 1u : 0u), "exactly the non-free gates with two distinct secret inputs produce a table");
  if (need) { sym_assert(tg[0].gid == (uint32_t)gid, "table carries its gate number"); sym_cover("table"); }
}
// any three-gate history: free gates build equal and inverse wires, then any gate
static void anyGate(W* w, int& n, const int* types, int nt, uint64_t cid, uint64_t gid, const char* tn, const char* an, const char* bn) {
  int t = types[sym_choose(nt, tn)];
  int i = sym_choose(n, an), j = t == NOTGATE ? i : (int)sym_choose(n, bn);
  gate(w[i], w[j], t, cid, gid, w[n]);
  n++;
}
extern "C" void chain_main() {
  setup();
  static W w[8]; int n = 0;
  int depth = sym_param("depth", 3);
  block l0 = lsbBlock("l0", sym_choose(2, "lsb0")), l1 = lsbBlock("l1", sym_choose(2, "lsb1"));
  // independent wires: nothing derived from one equals something derived from the other
  sym_assume(!(eqB(l0, l1) | eqB(l0, xr(l1, R)) | eqB(l0, ZeroBlock()) | eqB(l1, ZeroBlock()) | eqB(l0, R) | eqB(l1, R)));
  wireSecret(w[n++], l0, sym_choose(2, "a"), SECRET);
  wireSecret(w[n++], l1, sym_choose(2, "b"), SECRET);
  sym_shard_point();
  static const int freeT[3] = { XORGATE, XNORGATE, NOTGATE };
  uint64_t cid = sym_u64("cid");
  for (int d = 0; d + 1 < depth; d++) anyGate(w, n, freeT, 3, cid, d, "ftype", "fa", "fb");
  sym_shard_point();
  anyGate(w, n, kGateTypes, 11, cid, depth, "type", "x", "y");
}
