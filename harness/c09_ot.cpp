// Base oblivious transfer.
#include "crypto/OT.h"
#include "crypto/BN.h"
#include "crypto/block.h"
#include "tcpip/tcpip.h"
#include "util/common.h"
#include "sym.h"
#include "chan.h"
#include "rsa33.h"
static const int kMax = 4;
static int n, rcS, rcR; static BIGNUM *pair[kMax][2]; static BIGNUM** pm[kMax]; static BIGNUM* got[kMax]; static BIGNUM* sel;
static block bpair[kMax][2]; static const block* bp[kMax]; static block bgot[kMax]; static bool bsel[kMax];
static bool same(const BIGNUM* a, const BIGNUM* b) { BIGNUM* t = BN_new(); BN_sub(t, a, b); return BN_is_zero(t); }
// k bytes, the highest one not zero
static void lead(unsigned char* b, int k, const char* nm) { sym_bytes(b, k, nm); if (k) sym_assume(b[0] != 0); }
static BIGNUM* msg(int bytes) { unsigned char b[32]; lead(b, bytes, "message"); return BN_bin2bn(b, bytes, BN_new()); }
static unsigned drawNZ(int) { unsigned char b; sym_bytes(&b, 1, "draw"); sym_assume(b != 0); return b; }
static void sendBN(void*) { rcS = OTSendBN((const BIGNUM* const* const*)pm, n, 1000); chanClose(1000); }
static void recvBN(void*) { rcR = OTRecvBN(sel, n, 1001, got); chanClose(1001); }
static void sendB(void*) { rcS = OTSend(bp, n, 1000); chanClose(1000); }
static void recvB(void*) { rcR = OTRecv(bsel, n, 1001, bgot); chanClose(1001); }
extern "C" void number_main() {
  static const int L[][2] = { {1, 1}, {0, 2}, {17, 1}, {2, 0} };
  chanInit(); gRandFill = drawNZ;
  n = sym_choose(sym_param("n", 3), "transfers"); int k = sym_choose(4, "lengths"), extra = sym_choose(2, "longer selection vector");
  sym_shard_point();
  sel = BN_new(); int s[kMax];
  for (int i = 0; i < n; i++) {
    pm[i] = pair[i]; for (int j = 0; j < 2; j++) pair[i][j] = msg(L[(k + i) % 4][j]);
    s[i] = sym_choose(2, "select"); if (s[i]) BN_set_bit(sel, i); got[i] = BN_new(); if (i & 1) BN_set_bit(got[i], 20);
  }
  if (extra) BN_set_bit(sel, n);
  BIGNUM* keep[kMax][2]; for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) keep[i][j] = BN_dup(pair[i][j]);
  sym_spawn(sendBN, 0); sym_spawn(recvBN, 0); sym_join();
  sym_assert(rcS == SUCCESS && rcR == SUCCESS, "both sides succeed");
  for (int i = 0; i < n; i++) sym_assert(same(got[i], keep[i][s[i]]), "the receiver holds the chosen message");
  for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) sym_assert(same(pair[i][j], keep[i][j]), "the sender's messages are not changed");
  sym_cover("done");
}
extern "C" void block_main() {
  chanInit(); gRandFill = drawNZ;
  static const int L[][2] = { {16, 16}, {16, 15}, {0, 16}, {9, 1} };
  n = 1 + sym_choose(sym_param("n", 2), "transfers"); int k = sym_choose(4, "lengths");
  sym_shard_point();
  for (int i = 0; i < n; i++) {
    bp[i] = bpair[i]; for (int j = 0; j < 2; j++) { unsigned char b[16] = {0}, r[16]; int l = L[(k + i) % 4][j]; lead(b, l, "message"); for (int x = 0; x < 16; x++) r[x] = x < l ? b[l - 1 - x] : 0; memcpy(&bpair[i][j], r, 16); }
    bsel[i] = sym_choose(2, "select"); sym_bytes(&bgot[i], 16, "old");
  }
  sym_spawn(sendB, 0); sym_spawn(recvB, 0); sym_join();
  sym_assert(rcS == SUCCESS && rcR == SUCCESS, "both sides succeed");
  for (int i = 0; i < n; i++) sym_assert(sym_memeq(&bgot[i], &bpair[i][bsel[i]], 16), "the receiver holds the chosen block");
  sym_cover("done");
}
// ---- what the receiver sends says nothing about its choice: for any other choice there are random draws giving the same messages
static unsigned gScript[kMax]; static int gScriptN;
static unsigned scripted(int) { if (gScriptN >= kMax) sym_inconclusive("more draws than transfers"); return gScript[gScriptN++]; }
static unsigned pow33(unsigned v, int p) {
  unsigned char T[33]; for (int i = 0; i < 33; i++) { unsigned r = 1; for (int j = 0; j < p; j++) r = r * i % 33; T[i] = (unsigned char)r; }
  unsigned r = 0; for (int i = 0; i < 33; i++) r |= (0u - (unsigned)(v == (unsigned)i)) & T[i];
  return r;
}
static unsigned num(const BIGNUM* b) { return (unsigned)BN_get_word(b); }
static void feed(unsigned v, int fd) { BIGNUM* b = BN_new(); BN_set_word(b, v); SendBN(fd, b); }
static int receive(const int* s, const unsigned* draws, const unsigned* x, BIGNUM** v, unsigned e) {
  chanInit(); uint32_t len = n; SendData(1000, &len, 4);
  feed(33, 1000); feed(e, 1000); for (int i = 0; i < 2 * n; i++) feed(x[i], 1000);
  for (int i = 0; i < 2 * n; i++) feed(200, 1000);
  BIGNUM* q = BN_new(); for (int i = 0; i < n; i++) if (s[i]) BN_set_bit(q, i);
  for (int i = 0; i < n; i++) gScript[i] = draws[i]; gScriptN = 0; gRandFill = scripted;
  BIGNUM* g[kMax]; for (int i = 0; i < n; i++) g[i] = BN_new();
  int rc = OTRecvBN(q, n, 1001, g); chanClose(1001);
  sym_assert(rc == SUCCESS, "the receiver succeeds");
  for (int i = 0; i < n; i++) { v[i] = BN_new(); sym_assert(RecvBN(1000, v[i]) == SUCCESS, "one message per transfer"); }
  return gScriptN;
}
extern "C" void hide_main() {
  n = 1 + sym_choose(sym_param("n", 2), "transfers"); int s[kMax], t[kMax];
  unsigned e = sym_choose(2, "exponent") ? 3 : 65537;   // e = 7 or 3 modulo 10
  for (int i = 0; i < n; i++) { s[i] = sym_choose(2, "select"); t[i] = sym_choose(2, "other select"); }
  sym_shard_point();
  unsigned x[2 * kMax], k[kMax], k2[kMax];
  for (int i = 0; i < 2 * n; i++) { x[i] = sym_u8("x"); sym_assume(x[i] != 0); }
  for (int i = 0; i < n; i++) k[i] = sym_u8("k");
  int pe = e == 3 ? 3 : 7, pd = e == 3 ? 7 : 3;
  for (int i = 0; i < n; i++) {
    unsigned v = (x[2 * i + s[i]] + pow33(k[i] % 33, pe)) % 33;
    k2[i] = pow33((v + 33 * 16 - x[2 * i + t[i]]) % 33, pd);
  }
  BIGNUM *a[kMax], *b[kMax];
  int d1 = receive(s, k, x, a, e), d2 = receive(t, k2, x, b, e);
  sym_assert(d1 == n && d2 == n, "one fresh random number per transfer");
  for (int i = 0; i < n; i++) sym_assert(same(a[i], b[i]), "another choice with other random numbers sends the same messages");
  sym_cover("done");
}
// ---- the sender's two replies are masked by the two decryptions, whatever the receiver sends
extern "C" void mask_main() {
  chanInit(); gRandFill = drawNZ; n = 1 + sym_choose(sym_param("n", 2), "transfers");
  sym_shard_point();
  BIGNUM* v[kMax];
  for (int i = 0; i < n; i++) { pm[i] = pair[i]; for (int j = 0; j < 2; j++) pair[i][j] = msg(2); unsigned char b; sym_bytes(&b, 1, "v"); v[i] = BN_new(); BN_set_word(v[i], b); SendBN(1001, v[i]); }
  rcS = OTSendBN((const BIGNUM* const* const*)pm, n, 1000); chanClose(1000);
  sym_assert(rcS == SUCCESS, "the sender succeeds");
  uint32_t len; sym_assert(RecvData(1001, &len, 4) == SUCCESS && len == (uint32_t)n, "the sender announces the number of transfers");
  BIGNUM *N = BN_new(), *e = BN_new(), *x[kMax][2], *y = BN_new();
  sym_assert(RecvBN(1001, N) == SUCCESS && RecvBN(1001, e) == SUCCESS && num(N) == 33, "the sender sends its public key");
  int p = inv10((int)(num(e) % 10));
  for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) { x[i][j] = BN_new(); sym_assert(RecvBN(1001, x[i][j]) == SUCCESS, "two random numbers per transfer"); }
  for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) {
    sym_assert(RecvBN(1001, y) == SUCCESS, "two replies per transfer");
    unsigned d = pow33((num(v[i]) + 33 * 16 - num(x[i][j])) % 33, p);
    BIGNUM* t = BN_new(); BN_sub(t, y, pair[i][j]);
    sym_assert(!BN_is_negative(t) && num(t) == d, "reply j is message j masked by the decryption of v - x_j");
  }
  char c; sym_assert(read(1001, &c, 1) == 0, "nothing else is sent");
  sym_cover("done");
}
// ---- different vector lengths are noticed
static int nR;
static void recvOther(void*) { rcR = OTRecvBN(sel, nR, 1001, got); chanClose(1001); }
extern "C" void length_main() {
  chanInit(); gRandFill = drawNZ; n = sym_choose(3, "sender"); nR = sym_choose(3, "receiver"); sym_assume(n != nR); sel = BN_new();
  for (int i = 0; i < 3; i++) { pm[i] = pair[i]; pair[i][0] = msg(1); pair[i][1] = msg(1); got[i] = BN_new(); }
  sym_spawn(sendBN, 0); sym_spawn(recvOther, 0); sym_join();
  sym_assert(rcR == FAILURE, "a receiver expecting another number of transfers reports failure");
  sym_cover("done");
}
