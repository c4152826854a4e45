// Oblivious-transfer extension over an ideal base transfer (C09 decides the base).
#include "crypto/OT.h"
#include "crypto/OT_extension.h"
#include "crypto/BN.h"
#include "crypto/block.h"
#include "tcpip/tcpip.h"
#include "util/common.h"
#include <openssl/evp.h>
#include "sym.h"
#define PIPE_CAP 16384
#include "chan.h"
static const int kMax = 132;
static int n, bits, rcS, rcR;
static BIGNUM *pair[kMax][2]; static BIGNUM** pm[kMax]; static BIGNUM* got[kMax]; static BIGNUM* sel;
static block bpair[kMax][2]; static const block* bp[kMax]; static block bgot[kMax]; static bool bsel[kMax];
static bool same(const BIGNUM* a, const BIGNUM* b) { unsigned char x[36], y[36]; return BN_bn2binpad(a, x, 36) == 36 && BN_bn2binpad(b, y, 36) == 36 && sym_memeq(x, y, 36); }
// ---- base transfer: ideal functionality
static const BIGNUM* const* const* gPairs; static uint32_t gPairN; static bool gTaken;
// ---- randomness: the leading bytes of every draw are one of these, the rest is an input
static const int kTop[][9][3] = {
  { {0xc5, 0, 0}, {0x9a, 0, 0}, {0x31, 0, 0}, {0x60, 0, 0}, {0x05, 0, 0}, {0x81, 0, 0}, {0x11, 0, 0}, {0xf0, 0, 0}, {0x21, 0, 0} },
  { {0, 0x80, 0}, {0x80, 1, 0}, {0x80, 2, 0}, {0, 0x81, 3}, {1, 0, 0}, {0, 0, 5}, {0xff, 0, 0}, {0xfe, 0, 0}, {0, 0, 0} },   // a leading zero byte, or one after xor with another draw
  { {0x40, 0, 0}, {0x9a, 0, 0}, {0x9a, 0, 0}, {0x9a, 0, 0}, {0x9a, 0, 0}, {0x9a, 0, 0}, {0x9a, 0, 0}, {0x9a, 0, 0}, {0x9a, 0, 0} },   // rows may be equal
};
static const int kDraws = 136;
static unsigned char gDraw[kDraws][16]; static int gDraws, gTop; static bool gFixed, gFree; static int gParty, gPeek, gRandomBits; static bool gPeeked;
extern "C" int BN_rand(BIGNUM* a, int b, int top, int bottom) {
  if (b < 0 || b > 128) sym_inconclusive("draws of more than 128 bits");
  int nb = (b + 7) / 8;
  if (gDraws >= kDraws) sym_inconclusive("more draws than modelled");
  unsigned char* d = gDraw[gDraws];
  if (gFixed) for (int i = 0; i < nb; i++) d[i] = (unsigned char)((gDraws * 197 + i * 89 + (gDraws * i) * 13 + 0x5b) ^ (gDraws >> 3));
  else {
    if (!gFree && gDraws > 8) sym_inconclusive("more draws than modelled");
    sym_bytes(d, nb, "draw");
    for (int i = 0; i < 3 && i < nb && !gFree; i++) { int t = kTop[gTop][gDraws][i]; sym_assume(d[i] == t); d[i] = (unsigned char)t; }
  }
  gRandomBits += b - (top + 1) - (bottom != 0);
  gDraws++; BN_bin2bn(d, nb, a); if (b % 8) BN_mask_bits(a, b);
  for (int i = 0; i <= top && i < b; i++) BN_set_bit(a, b - 1 - i);
  if (bottom && b) BN_set_bit(a, 0);
  return 1;
}
static void fresh(int need) {
  sym_assert(gRandomBits >= need, "enough random bits are drawn");
}
int OTSendBN(const BIGNUM* const* const* m, uint32_t len, int) {
  if (gPeek == 2) {
    gPeeked = true; sym_assert(len == 128, "one base transfer for every bit of the sender's secret");
    fresh(128 * n);
    if (gDraws != n) sym_inconclusive("rows are not one draw each");
        for (int t = 0; t < n; t++) {
      int ok[2] = {1, 1};
      for (int i = 0; i < 128; i++) for (int j = 0; j < 2; j++) ok[j] &= BN_is_bit_set(m[i][j], t) == (gDraw[t][15 - i / 8] >> (i % 8) & 1);
      sym_assert(ok[0] | ok[1], "the receiver's rows are the random draws");
    }
    return FAILURE;
  }
  gPairs = m; gPairN = len; sym_notify(); while (!gTaken) sym_block(); gParty = 1; return SUCCESS;
}
int OTRecvBN(const BIGNUM* s, uint32_t len, int, BIGNUM** m) {
  if (gPeek == 1) {
    gPeeked = true; sym_assert(len == 128, "one base transfer for every bit of the sender's secret");
    fresh(128);
    if (gDraws != 1) sym_inconclusive("the secret is not one draw");
    int ok = 1;     for (int i = 0; i < 128; i++) ok &= BN_is_bit_set(s, i) == (gDraw[0][15 - i / 8] >> (i % 8) & 1);
    sym_assert(ok, "the sender's secret is the random draw");
    return FAILURE;
  }
  while (!gPairs) sym_block();
  if (len != gPairN) { gTaken = true; sym_notify(); return FAILURE; }
  for (uint32_t i = 0; i < len; i++) { int b = BN_is_bit_set(s, i); if (b) BN_copy(m[i], gPairs[i][1]); else BN_copy(m[i], gPairs[i][0]); }
  gTaken = true; sym_notify(); gParty = 0; return SUCCESS;
}
// ---- hash: uninterpreted function of the bytes fed to it; evaluations are recorded
static const int kRec = 64;
struct Rec { unsigned char in[64]; int n, party; unsigned char out[32]; };
static bool gAllOnes; static unsigned char gClear, gSet; static int gInjective;   // bits of the first byte that hashes have clear or set; length at which different inputs give different outputs
static Rec* gRec[kRec]; static int gRecs;
#ifdef VT_NATIVE
typedef ENGINE Engine;
#else
typedef void Engine;
#endif
struct evp_md_st { int x; }; struct evp_md_ctx_st { unsigned char in[64]; int n; };
static evp_md_st gMd;
extern "C" {
EVP_MD_CTX* EVP_MD_CTX_new(void) { evp_md_ctx_st* c = new evp_md_ctx_st; c->n = -1; return c; }
void EVP_MD_CTX_free(EVP_MD_CTX* c) { delete c; }
int EVP_MD_CTX_reset(EVP_MD_CTX* c) { c->n = -1; return 1; }
const EVP_MD* EVP_sha256(void) { return &gMd; }
int EVP_DigestInit_ex(EVP_MD_CTX* c, const EVP_MD* m, Engine*) { if (m != &gMd) return 0; c->n = 0; return 1; }
int EVP_DigestUpdate(EVP_MD_CTX* c, const void* p, size_t k) {
  k = sym_concretize(k); if (c->n < 0 || c->n + k > 64) { if (c->n < 0) return 0; sym_inconclusive("hash input longer than the model"); }
  memcpy(c->in + c->n, p, k); c->n += (int)k; return 1;
}
int EVP_DigestFinal_ex(EVP_MD_CTX* c, unsigned char* out, unsigned* len) {
  if (c->n < 0) return 0;
  unsigned char o[32];
  if (gFixed) { unsigned h = 0x9e3779b9; for (int i = 0; i < c->n; i++) h = (h ^ c->in[i]) * 16777619u; for (int i = 0; i < 32; i++) { h = h * 1664525u + 1013904223u; o[i] = (unsigned char)(h >> 24); } }
  else sym_uf("sha256", c->in, c->n, o, 32);
  if (gAllOnes) for (int i = 0; i < 32; i++) o[i] = 0xff;
  o[0] = (unsigned char)((o[0] & ~gClear) | gSet);   // with messages whose top bit is set, what is sent has no leading zero byte (C11 decides the wire format for every number)
  if (gRecs < kRec && !gFixed) {
    Rec* r = new Rec; memcpy(r->in, c->in, 64); r->n = c->n; r->party = gParty; memcpy(r->out, o, 32);
    if (gInjective) for (int i = 0; i < gRecs; i++) sym_assume((gRec[i]->n == r->n && sym_memeq(gRec[i]->in, r->in, r->n)) | !sym_memeq(gRec[i]->out, o, gInjective));
    gRec[gRecs++] = r;
  }
  memcpy(out, o, 32); if (len) *len = 32; return 1;
}
}
static void sendBN(void*) { rcS = OTExtSendBN((const BIGNUM* const* const*)pm, bits, n, 1000); chanClose(1000); }
static void recvBN(void*) { rcR = OTExtRecvBN(sel, bits, n, 1001, got); chanClose(1001); }
static void sendB(void*) { rcS = OTExtSend(bp, n, 1000); chanClose(1000); }
static void recvB(void*) { rcR = OTExtRecv(bsel, n, 1001, bgot); chanClose(1001); }
static void begin(int t) { chanInit(); HashInit(); gTop = t; }
// a message of `bits` bits with the top bit set, so that (the masks having it clear) what is sent has its full length
static BIGNUM* message(bool zero) {
  unsigned char b[40]; int nb = (bits + 7) / 8; sym_bytes(b, nb, "message");
  for (int i = 0; i < nb; i++) if (zero) { sym_assume(b[i] == 0); b[i] = 0; }
  unsigned char top = (unsigned char)(1 << ((bits - 1) % 8));
  if (!zero) { sym_assume((b[0] & top) && b[0] < 2 * top); b[0] = (unsigned char)((b[0] & (top - 1)) | top); }
  return BN_bin2bn(b, nb, 0);
}
extern "C" void block_main() {
  n = sym_choose(1 + sym_param("n", 2), "transfers"); bits = 128; int z = sym_choose(2, "draws");
  for (int i = 0; i < n; i++) bsel[i] = sym_choose(2, "select");
  sym_shard_point(); begin(z); gClear = 0x80;
  for (int i = 0; i < n; i++) {
    bp[i] = bpair[i];
    for (int j = 0; j < 2; j++) { sym_bytes(&bpair[i][j], 16, "message"); unsigned char& t = ((unsigned char*)&bpair[i][j])[15]; sym_assume(t & 0x80); t |= 0x80; }
    sym_bytes(&bgot[i], 16, "old");
  }
  sym_merge(1);
  sym_spawn(sendB, 0); sym_spawn(recvB, 0); sym_join();
  sym_merge(0);
  sym_assert(rcS == SUCCESS && rcR == SUCCESS, "both sides succeed");
  for (int i = 0; i < n; i++) sym_assert(sym_memeq(&bgot[i], &bpair[i][bsel[i]], 16), "the receiver holds the chosen block");
  sym_cover("done");
}
static void setUp(bool zero) {
  gClear = (unsigned char)(0x80 | 1 << ((bits - 1) % 8)); sel = BN_new();
  for (int i = 0; i < n; i++) {
    pm[i] = pair[i]; got[i] = BN_new(); if (bsel[i]) BN_set_bit(sel, i);
    for (int j = 0; j < 2; j++) pair[i][j] = message(zero);
  }
}
static const int kBits[] = {8, 64, 12, 100, 256, 1, 200, 136, 16, 2};
extern "C" void number_main() {
  n = 1 + sym_choose(sym_param("n", 1), "transfers"); bits = kBits[sym_choose(sym_param("widths", 4), "bits")]; int z = sym_choose(2, "draws");
  for (int i = 0; i < n; i++) bsel[i] = sym_choose(2, "select");
  sym_shard_point(); begin(z); setUp(false);
  sym_merge(1);
  sym_spawn(sendBN, 0); sym_spawn(recvBN, 0); sym_join();
  sym_merge(0);
  sym_assert(rcS == SUCCESS && rcR == SUCCESS, "both sides succeed");
  for (int i = 0; i < n; i++) sym_assert(same(got[i], pair[i][bsel[i]]), "the receiver holds the chosen number");
  sym_cover("done");
}
// many transfers: numbers symbolic at three positions, the rest (and the random draws) fixed
extern "C" void long_main() {
  n = sym_choose(sym_param("sizes", 1), "transfers") ? 130 : 66; bits = sym_choose(sym_param("sizes", 1), "bits") ? 128 : 64;
  int at[3] = {0, 64, n - 1}, s3 = sym_choose(8, "select");
  sym_shard_point(); begin(0); gFixed = true; gClear = 0x80;
  for (int i = 0; i < n; i++) bsel[i] = (i * 7 + i / 3) & 1;
  for (int i = 0; i < 3; i++) bsel[at[i]] = s3 >> i & 1;
  sel = BN_new();
  for (int i = 0; i < n; i++) {
    pm[i] = pair[i]; got[i] = BN_new(); if (bsel[i]) BN_set_bit(sel, i);
    bool in = i == at[0] || i == at[1] || i == at[2];
    for (int j = 0; j < 2; j++) if (in) pair[i][j] = message(false); else { unsigned char b[16]; for (int k = 0; k < 16; k++) b[k] = (unsigned char)(0x80 | (i * 31 + j * 57 + k * 11)); pair[i][j] = BN_bin2bn(b, bits / 8, 0); }
  }
  sym_merge(1);
  sym_spawn(sendBN, 0); sym_spawn(recvBN, 0); sym_join();
  sym_merge(0);
  sym_assert(rcS == SUCCESS && rcR == SUCCESS, "both sides succeed");
  for (int i = 0; i < n; i++) sym_assert(same(got[i], pair[i][bsel[i]]), "the receiver holds the chosen number");
  sym_cover("done");
}
// what is sent for zero messages is the masks themselves
extern "C" void mask_main() {
  n = 1 + sym_choose(sym_param("n", 2), "transfers"); bits = sym_choose(2, "bits") ? 64 : 128; int z = sym_choose(3, "draws");
  for (int i = 0; i < n; i++) bsel[i] = sym_choose(2, "select");
  sym_shard_point(); begin(z); gInjective = bits / 8; setUp(true); gClear = 0; gSet = 0x80;
  sym_merge(1);
  sym_spawn(sendBN, 0); sym_spawn(recvBN, 0); sym_join();
  sym_merge(0);
  sym_assert(rcS == SUCCESS && rcR == SUCCESS, "both sides succeed");
  BIGNUM* y[2 * kMax]; gPipe[0].head = 0; gPipe[0].closed = true;
  for (int i = 0; i < 2 * n; i++) { y[i] = BN_new(); sym_assert(RecvBN(1001, y[i]) == SUCCESS, "two ciphertexts are sent for every index"); }
  sym_merge(1);
  for (int i = 0; i < 2 * n; i++) for (int j = 0; j < i; j++) sym_assert(!same(y[i], y[j]), "no mask is used twice");
  for (int i = 0; i < n; i++) {
    int in[2] = {0, 0};
    for (int j = 0; j < 2; j++) for (int r = 0; r < gRecs; r++) if (gRec[r]->party == 1) { BIGNUM* h = BN_bin2bn(gRec[r]->out, bits / 8, 0); in[j] |= same(h, y[2 * i + j]); }
    sym_assert(!(in[0] & in[1]), "the receiver does not know the mask of the other message");
  }
  sym_merge(0);
  sym_cover("done");
}
// every bit of an n-bit message is masked, whatever n
extern "C" void width_main() {
  n = 1; bits = kBits[sym_choose(sym_param("widths", 5), "bits")]; bsel[0] = sym_choose(2, "select");
  sym_shard_point(); begin(0); setUp(true); gClear = 0; gAllOnes = true;   // a zero message masked with ones becomes all ones
  sym_merge(1);
  sym_spawn(sendBN, 0); sym_spawn(recvBN, 0); sym_join();
  sym_merge(0);
  sym_assert(rcS == SUCCESS && rcR == SUCCESS, "both sides succeed");
  gPipe[0].head = 0; gPipe[0].closed = true;
  for (int j = 0; j < 2; j++) {
    BIGNUM* y = BN_new(); sym_assert(RecvBN(1001, y) == SUCCESS, "two ciphertexts are sent for every index");
    for (int b = 0; b < bits; b++) sym_assert(BN_is_bit_set(y, b), "every message bit is masked");
  }
  sym_cover("done");
}
// the random choices the extension rests on
static int gLook;
extern "C" void seed_main() {
  n = 1 + sym_choose(2, "transfers"); bits = 128; gLook = 1 + sym_choose(2, "side");
  for (int i = 0; i < n; i++) bsel[i] = sym_choose(2, "select");
  sym_shard_point(); begin(0); gFree = true; setUp(true);
  gPeek = gLook;
  sym_merge(1);
  if (gLook == 1) sendBN(0); else recvBN(0);
  sym_merge(0);
  sym_assert(gPeeked, "the base transfer is used");
  sym_cover("done");
}
static int kDims[][2] = { {1, 1}, {3, 2}, {2, 65}, {65, 2}, {128, 3}, {8, 8}, {64, 5}, {7, 130}, {130, 2}, {0, 3}, {3, 0} };
extern "C" void transpose_main() {
  int d = sym_choose(sym_param("dims", 7), "matrix"), p = sym_choose(2, "pairs"), r = kDims[d][0], c = kDims[d][1];
  sym_shard_point(); chanInit();
  static BIGNUM* v[130][2]; static BIGNUM* one[130]; static BIGNUM** pv[130];
  for (int i = 0; i < r; i++) for (int j = 0; j < 1 + p; j++) { unsigned char b[20]; int nb = (c + 7) / 8; sym_bytes(b, nb, "row"); v[i][j] = BN_bin2bn(b, nb, 0); one[i] = v[i][0]; pv[i] = v[i]; }
  BIGNUM** w = 0; BIGNUM*** wp = 0; int rc;
  sym_merge(1);
  rc = p ? SwitchRowColumnBNPair((const BIGNUM* const* const*)pv, r, c, &wp) : SwitchRowColumnBN((const BIGNUM* const*)one, r, c, &w);
  sym_merge(0);
  sym_assert(rc == SUCCESS, "transposition succeeds");
  for (int j = 0; j < 1 + p; j++) for (int i = 0; i < c; i++) {
    int ok = 1; BIGNUM* col = p ? wp[i][j] : w[i];
    for (int k = 0; k < r; k++) ok &= BN_is_bit_set(col, k) == BN_is_bit_set(v[k][j], i);
    for (int k = r; k < r + 66; k++) ok &= !BN_is_bit_set(col, k);
    sym_assert(ok, "entry (r,c) moves to (c,r) and nothing else is set");
  }
  sym_cover("done");
}
