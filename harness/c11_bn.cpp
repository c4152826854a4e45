// Big-number helpers and their wire format.
#include "crypto/BN.h"
#include "crypto/block.h"
#include "util/common.h"
#include "sym.h"
#include "chan.h"
static const int kBytes = 6;
static BIGNUM* anyBN(const char* n, int bytes) { unsigned char b[32]; sym_bytes(b, bytes, n); return BN_bin2bn(b, bytes, BN_new()); }
static int bit(const BIGNUM* a, int i) { return BN_is_bit_set(a, i) ? 1 : 0; }
extern "C" void xor_main() {
  int nb = sym_param("bytes", 3);
  int bits = sym_choose(8 * nb + 3, "bits"), alias = sym_choose(4, "alias");
  BIGNUM *v = anyBN("v", nb), *w = anyBN("w", nb), *r = alias == 3 ? BN_new() : anyBN("r", nb);
  BIGNUM *v0 = BN_dup(v), *w0 = BN_dup(w), *r0 = BN_dup(alias == 1 ? v : alias == 2 ? w : r);
  BIGNUM* t = alias == 1 ? v : alias == 2 ? w : r;
  sym_merge(1); int rc = BN_xor(t, bits, v, w); sym_merge(0);
  sym_assert(rc == 1, "BN_xor succeeds");
  for (int i = 0; i < 8 * nb + 3; i++) sym_assert(bit(t, i) == (i < bits ? (bit(v0, i) ^ bit(w0, i)) : bit(r0, i)), "BN_xor: bit i is the exclusive or");
  if (alias != 1) sym_assert(BN_cmp(v, v0) == 0, "BN_xor keeps its first operand");
  if (alias != 2) sym_assert(BN_cmp(w, w0) == 0, "BN_xor keeps its second operand");
  sym_cover("done");
}
extern "C" void invert_main() {
  int nb = sym_param("bytes", 3);
  int bits = sym_choose(8 * nb + 3, "bits");
  BIGNUM* v = anyBN("v", nb); BIGNUM* v0 = BN_dup(v);
  sym_merge(1); int rc = BN_invert(v, bits); sym_merge(0);
  sym_assert(rc == 1, "BN_invert succeeds");
  for (int i = 0; i < 8 * nb + 3; i++) sym_assert(bit(v, i) == (i < bits ? !bit(v0, i) : bit(v0, i)), "BN_invert: the low bits are complemented, the others kept");
  sym_assert(!BN_is_negative(v), "BN_invert: not negative");
  sym_cover("done");
}
extern "C" void ones_main() {
  int bits = sym_choose(sym_param("max", 140), "bits");
  BIGNUM* v = BN_new(); if (sym_choose(2, "old")) { BN_set_bit(v, 150); BN_set_bit(v, 3); }
  int rc = BN_full_one(v, bits);
  sym_assert(rc == 1, "BN_full_one succeeds");
  sym_assert(BN_num_bits(v) == bits, "BN_full_one: as many bits as asked for");
  for (int i = 0; i < bits; i++) sym_assert(bit(v, i), "BN_full_one: every bit is 1");
  sym_cover("done");
}
extern "C" void block_main() {
  block b, c; sym_bytes(&b, sizeof b, "block"); sym_bytes(&c, sizeof c, "old");
  BIGNUM* a = BN_new(); BN_set_bit(a, 140);
  BlockToBN(a, b);
  const unsigned char* p = (const unsigned char*)&b;
  for (int i = 0; i < 150; i++) sym_assert(bit(a, i) == (i < 128 ? (p[i / 8] >> (i % 8)) & 1 : 0), "BlockToBN: bit i of the number is bit i of the block");
  BNToBlock(a, &c);
  sym_assert(sym_memeq(&b, &c, sizeof b), "block -> number -> block is the identity");
  sym_cover("done");
}
extern "C" void numblock_main() {
  int nb = sym_choose(19, "bytes");
  BIGNUM* a = anyBN("v", nb); block c; sym_bytes(&c, sizeof c, "old");
  BNToBlock(a, &c);
  const unsigned char* p = (const unsigned char*)&c;
  for (int i = 0; i < 128; i++) sym_assert(((p[i / 8] >> (i % 8)) & 1) == bit(a, i), "BNToBlock: bit i of the block is bit i of the number");
  sym_cover("done");
}
static BIGNUM *gA[2], *gB[2]; static int gRa = 77, gRb = 77; static int gN = 2;
static void sender(void*) { gRa = SUCCESS; for (int i = 0; i < gN; i++) if (SendBN(1000, gA[i]) != SUCCESS) gRa = FAILURE; chanClose(1000); }
static void receiver(void*) { gRb = SUCCESS; for (int i = 0; i < gN; i++) if (RecvBN(1001, gB[i]) != SUCCESS) gRb = FAILURE; chanClose(1001); }
extern "C" void wire_main() {
  chanInit(); gMaxRead = sym_choose(2, "short") ? 3 : 0;
  int n0 = sym_choose(sym_param("bytes", 5), "bytes");
  gA[0] = anyBN("v", n0); gA[1] = anyBN("w", 2);
  gB[0] = BN_new(); gB[1] = BN_new(); BN_set_bit(gB[0], 70); BN_set_bit(gB[1], 3);
  BIGNUM *v0 = BN_dup(gA[0]), *w0 = BN_dup(gA[1]);
  sym_spawn(sender, 0); sym_spawn(receiver, 0); sym_join();
  sym_assert(gRa == SUCCESS && gRb == SUCCESS, "sending and receiving a number succeed");
  sym_assert(BN_cmp(gB[0], v0) == 0 && BN_cmp(gB[1], w0) == 0, "the number received is the number sent");
  sym_assert(BN_cmp(gA[0], v0) == 0, "the number sent is kept");
  sym_assert(gPipe[0].head == gPipe[0].tail, "nothing is left on the connection");
  sym_cover("done");
}
extern "C" void wirefail_main() {
  // the connection closes after k bytes: failure is reported
  chanInit();
  gA[0] = anyBN("v", 3); gB[0] = BN_new(); gN = 1;
  sym_assert(SendBN(1000, nullptr) == FAILURE && RecvBN(1001, nullptr) == FAILURE, "a null number is refused");
  sym_assert(SendBN(1000, gA[0]) == SUCCESS, "sending succeeds");
  size_t t = sym_concretize(gPipe[0].tail); size_t k = sym_choose(t, "cut"); gPipe[0].tail = k; chanClose(1000);
  sym_assert(RecvBN(1001, gB[0]) == FAILURE, "a truncated number is reported as failure");
  sym_cover("done");
}
