// Two-party runs: circuits, reference semantics, both parties as coroutines.
#pragma once
#include <string>
#include <vector>
#include "garbled_circuit/garbled_circuit_util.h"
#include "garbled_circuit/garbled_circuit_high_mem.h"
#include "garbled_circuit/garbled_circuit_low_mem.h"
#include "util/util.h"
#include "util/common.h"
#include "gates.h"
#include "sym.h"
#include "chan.h"
typedef GarbledCircuit GC;
static unsigned gLblCount, gLblPattern;   // pattern: 0/1 all point-and-permute bits 0/1, 2 free
static block gR;
static block freshBlock(const char* n, int lsb) { block b; sym_bytes(&b, sizeof b, n); if (lsb >= 0) { unsigned char* p = (unsigned char*)&b; p[0] = (unsigned char)((p[0] & 0xfe) | lsb); } return b; }
#ifndef TP_OWN_RANDOM
static const int kMaxLog = 64;
static block gLblLog[kMaxLog];
block RandomBlock() { block b = freshBlock("rand", gLblPattern < 2 ? (int)gLblPattern : -1); if (gLblCount < kMaxLog) gLblLog[gLblCount] = b; gLblCount++; return b; }
#endif
// ---- oblivious transfer, ideal functionality (C09/C10 decide the real one)
#ifndef TP_REAL_OT
#include "tcpip/tcpip.h"
static void (*gOnOT)(const block* pair) = nullptr;   // sees every message pair
static void (*gOnWriteSave)(int, const void*, size_t);
static int idealSend(const block* const* m, uint32_t n, int fd) {
  // the pairs travel on the functionality's own (private) connection
  struct Mute { Mute() { gOnWriteSave = gOnWrite; gOnWrite = nullptr; } ~Mute() { gOnWrite = gOnWriteSave; } } mute;
  if (gOnOT) for (uint32_t i = 0; i < n; i++) gOnOT(m[i]);
  for (uint32_t i = 0; i < n; i++) if (SendData(fd, m[i], 2 * sizeof(block)) != SUCCESS) return FAILURE;
  return SUCCESS;
}
static int idealRecv(const bool* sel, uint32_t n, int fd, block* m) {
  for (uint32_t i = 0; i < n; i++) {
    block p[2]; if (RecvData(fd, p, sizeof p) != SUCCESS) return FAILURE;
    uint64_t w[4], r[2]; __builtin_memcpy(w, p, 32); uint64_t k = 0 - (uint64_t)(sel[i] & 1);
    r[0] = w[0] ^ (k & (w[0] ^ w[2])); r[1] = w[1] ^ (k & (w[1] ^ w[3])); __builtin_memcpy(&m[i], r, 16);
  }
  return SUCCESS;
}
int OTSend(const block* const* m, uint32_t n, int fd) { return idealSend(m, n, fd); }
int OTExtSend(const block* const* m, uint32_t n, int fd) { return idealSend(m, n, fd); }
int OTRecv(const bool* sel, uint32_t n, int fd, block* m) { return idealRecv(sel, n, fd, m); }
int OTExtRecv(const bool* sel, uint32_t n, int fd, block* m) { return idealRecv(sel, n, fd, m); }
#endif
// ---- circuits
static GC mk(int pi, int gi, int ei, int p, int g, int e, int nd, int ng, int no) {
  GC c;
  c.p_init_size = pi; c.g_init_size = gi; c.e_init_size = ei; c.p_input_size = p; c.g_input_size = g; c.e_input_size = e;
  c.dff_size = nd; c.gate_size = ng; c.output_size = no; c.terminate_id = 0;
  c.garbledGates = new GarbledGate[ng + 1]; c.outputs = new int64_t[no + 1]; c.D = new int64_t[nd + 1]; c.I = new int64_t[nd + 1];
  for (int i = 0; i < ng; i++) c.garbledGates[i].output = (int64_t)c.get_gate_lo_index() + i;
  return c;
}
static void setGate(GC& c, int i, int t, int64_t a, int64_t b) { GarbledGate& g = c.garbledGates[i]; g.type = t; g.input0 = a; g.input1 = t == NOTGATE ? -1 : b; g.fanout = 0; }
// any wire below limit, or (if consts) a constant
static int64_t anyWire(int64_t limit, bool consts, const char* n) { int64_t k = sym_choose(limit + (consts ? 2 : 0), n); return k < limit ? k : (k == limit ? CONST_ZERO : CONST_ONE); }
// ---- inputs (bits are symbolic bytes 0/1)
static const int kMaxBits = 64;
struct Bits { unsigned char b[kMaxBits]; int n; };
static Bits symBits(int n, const char* name) { Bits r; r.n = n; for (int i = 0; i < n; i++) r.b[i] = (unsigned char)sym_bool(name); return r; }
static BIGNUM* bnOf(const Bits& x) {
  unsigned char buf[kMaxBits / 8 + 1]; int nb = (x.n + 7) / 8;
  for (int i = 0; i < nb; i++) { unsigned v = 0; for (int k = 0; k < 8; k++) if (8 * i + k < x.n) v |= (unsigned)x.b[8 * i + k] << k; buf[nb - 1 - i] = (unsigned char)v; }
  return BN_bin2bn(buf, nb, BN_new());
}
struct In { Bits pi, gi, ei, p, g, e; };
// every party's inputs; input words may be shorter than needed (absent bits are 0)
static In symInputs(const GC& c, int cc) {
  In x; x.pi = symBits(c.p_init_size, "p_init"); x.gi = symBits(c.g_init_size, "g_init"); x.ei = symBits(c.e_init_size, "e_init");
  x.p = symBits(c.p_input_size * cc, "p_in"); x.g = symBits(c.g_input_size * cc, "g_in"); x.e = symBits(c.e_input_size * cc, "e_in");
  return x;
}
// ---- reference semantics of sequential circuits
static const int kMaxWires = 64, kMaxCc = 8, kMaxOut = 40;
struct Ref { unsigned char out[kMaxCc][kMaxOut]; unsigned char term[kMaxCc]; };
static Ref reference(const GC& c, const In& x, int cc) {
  Ref r; unsigned char w[kMaxWires], lt[kMaxWires];
  for (int t = 0; t < cc; t++) {
    int k = 0;
    for (unsigned i = 0; i < c.p_init_size; i++) w[k++] = x.pi.b[i];
    for (unsigned i = 0; i < c.g_init_size; i++) w[k++] = x.gi.b[i];
    for (unsigned i = 0; i < c.e_init_size; i++) w[k++] = x.ei.b[i];
    for (unsigned i = 0; i < c.p_input_size; i++) w[k++] = x.p.b[t * c.p_input_size + i];
    for (unsigned i = 0; i < c.g_input_size; i++) w[k++] = x.g.b[t * c.g_input_size + i];
    for (unsigned i = 0; i < c.e_input_size; i++) w[k++] = x.e.b[t * c.e_input_size + i];
    auto get = [&](int64_t i) -> unsigned { return i == CONST_ZERO ? 0 : i == CONST_ONE ? 1 : i < 0 ? 0 : w[i]; };
    for (unsigned i = 0; i < c.dff_size; i++) w[k++] = t == 0 ? (unsigned char)get(c.I[i]) : lt[i];
    for (unsigned i = 0; i < c.gate_size; i++) { const GarbledGate& g = c.garbledGates[i]; w[k++] = (unsigned char)specGate(g.type, get(g.input0), get(g.input1)); }
    for (unsigned i = 0; i < c.dff_size; i++) lt[i] = (unsigned char)get(c.D[i]);
    for (unsigned i = 0; i < c.output_size; i++) r.out[t][i] = (unsigned char)get(c.outputs[i]);
    r.term[t] = c.terminate_id > 0 ? w[c.terminate_id] : 0;
  }
  return r;
}
// ---- the two parties
struct Cfg { bool low; int cc; int64_t period; OutputMode mode; std::string mask; bool noOT; };
struct Party { const GC* c; const Cfg* k; BIGNUM *p_init, *p_input, *init, *input, *out; uint64_t cc; int rc; block R, key; bool done; };
static Party gA, gB;
static void partyA(void* q) {
  Party& a = *(Party*)q; const Cfg& k = *a.k;
  a.rc = k.low ? GarbleBNLowMem(*a.c, a.p_init, a.p_input, a.init, a.input, &a.cc, k.mask, k.period, k.mode, a.out, a.R, a.key, k.noOT, 1000)
               : GarbleBNHighMem(*a.c, a.p_init, a.p_input, a.init, a.input, &a.cc, k.mask, k.period, k.mode, a.out, a.R, a.key, k.noOT, 1000);
  a.done = true; chanClose(1000);
}
static void partyB(void* q) {
  Party& b = *(Party*)q; const Cfg& k = *b.k;
  b.rc = k.low ? EvaluateBNLowMem(*b.c, b.p_init, b.p_input, b.init, b.input, &b.cc, k.mask, k.period, k.mode, b.out, b.key, k.noOT, 1001)
               : EvaluateBNHighMem(*b.c, b.p_init, b.p_input, b.init, b.input, &b.cc, k.mask, k.period, k.mode, b.out, b.key, k.noOT, 1001);
  b.done = true; chanClose(1001);
}
static void runParties(const GC& c, const Cfg& k, const In& x) {
  chanInit();
  gR = freshBlock("randR", 1);
  // the key is a fixed value: the AES round function is uninterpreted, so only equality of round keys matters
  block key; { unsigned char kb[16]; for (int i = 0; i < 16; i++) kb[i] = (unsigned char)(i * 29 + 7); __builtin_memcpy(&key, kb, 16); }
  gA.c = gB.c = &c; gA.k = gB.k = &k; gA.cc = gB.cc = k.cc; gA.rc = gB.rc = 77; gA.done = gB.done = false;
  gA.R = gR; gA.key = gB.key = key;
  gA.p_init = bnOf(x.pi); gA.p_input = bnOf(x.p); gB.p_init = bnOf(x.pi); gB.p_input = bnOf(x.p);
  gA.init = bnOf(x.gi); gA.input = bnOf(x.g); gB.init = bnOf(x.ei); gB.input = bnOf(x.e);
  gA.out = BN_new(); gB.out = BN_new();
  sym_merge(sym_param("merge", 1));
  sym_spawn(partyA, &gA); sym_spawn(partyB, &gB);
  sym_join();
  sym_merge(0);
  sym_assert(gA.rc == SUCCESS, "garbler finishes successfully");
  sym_assert(gB.rc == SUCCESS, "evaluator finishes successfully");
  sym_assert(gPipe[0].head == gPipe[0].tail && gPipe[1].head == gPipe[1].tail, "every message sent was received");
}
static int maskBit(uint64_t m, int i) { return i < 64 ? (int)((m >> i) & 1) : 0; }
static std::string hexOf(uint64_t v) { static const char* d = "0123456789ABCDEF"; std::string s; do { s.insert(s.begin(), d[v & 15]); v >>= 4; } while (v); return s; }
// outputs learned so far are exactly the reference's, split by the mask
static void checkOutputs(const GC& c, const Cfg& k, const Ref& r, uint64_t mask, int ran) {
  sym_assert(gA.cc == (uint64_t)ran && gB.cc == (uint64_t)ran, "both parties report the number of cycles run");
  int no = c.output_size;
  bool last = k.low && k.mode == OutputMode::last_clock;
  int first = last ? ran - 1 : 0;
  for (int t = first; t < ran; t++) for (int i = 0; i < no; i++) {
    int pos = (last ? 0 : t * no) + i;
    unsigned want = r.out[t][i];
    unsigned ga = BN_is_bit_set(gA.out, pos), gb = BN_is_bit_set(gB.out, pos);
    if (maskBit(mask, i)) { sym_assert(ga == want, "garbler reads the true value of an output bit given to it"); sym_assert(gb == 0, "evaluator reads 0 where the mask gives the bit to the garbler"); }
    else { sym_assert(gb == want, "evaluator reads the true value of an output bit given to it"); sym_assert(ga == 0, "garbler reads 0 where the mask gives the bit to the evaluator"); }
  }
  int tot = (last ? 1 : ran) * no;
  sym_assert(BN_num_bits(gA.out) <= tot && BN_num_bits(gB.out) <= tot, "no output bits beyond the circuit's outputs");
}
