// AES-128 as in FIPS 197 against crypto/aes.h.
#include "crypto/aes.h"
#include "crypto/block.h"
#include "sym.h"
static unsigned xt(unsigned x) { return ((x << 1) ^ ((x >> 7) * 0x1b)) & 0xff; }
static void specExpand(const uint8_t* k, uint8_t* w) {
  for (int i = 0; i < 16; i++) w[i] = k[i];
  uint8_t rc = 1;
  for (int i = 16; i < 176; i += 4) {
    uint8_t t[4]; for (int j = 0; j < 4; j++) t[j] = w[i - 4 + j];
    if (i % 16 == 0) { uint8_t x = t[0]; t[0] = (uint8_t)(sym_sbox(t[1]) ^ rc); t[1] = sym_sbox(t[2]); t[2] = sym_sbox(t[3]); t[3] = sym_sbox(x); rc = (uint8_t)xt(rc); }
    for (int j = 0; j < 4; j++) w[i + j] = (uint8_t)(w[i - 16 + j] ^ t[j]);
  }
}
static void specRound(const uint8_t* s, const uint8_t* k, bool last, uint8_t* o) {
  for (int c = 0; c < 4; c++) {
    uint8_t a[4]; for (int r = 0; r < 4; r++) a[r] = sym_sbox(s[4 * ((c + r) % 4) + r]);
    for (int r = 0; r < 4; r++) {
      unsigned v = last ? a[r] : xt(a[r]) ^ xt(a[(r + 1) % 4]) ^ a[(r + 1) % 4] ^ a[(r + 2) % 4] ^ a[(r + 3) % 4];
      o[4 * c + r] = (uint8_t)(v ^ k[4 * c + r]);
    }
  }
}
static void specEnc(const uint8_t* in, const uint8_t* w, uint8_t* out) {
  uint8_t s[16], t[16]; for (int i = 0; i < 16; i++) s[i] = in[i] ^ w[i];
  for (int r = 1; r <= 10; r++) { specRound(s, w + 16 * r, r == 10, t); for (int i = 0; i < 16; i++) s[i] = t[i]; }
  for (int i = 0; i < 16; i++) out[i] = s[i];
}
// the key schedule, for every key
extern "C" void key_main() {
  sym_aes_interp(1);
  uint8_t* k = new uint8_t[16]; sym_bytes(k, 16, "key");
  AES_KEY ctx; AESSetEncryptKey(k, 128, &ctx);
  uint8_t w[176]; specExpand(k, w);
  sym_assert(ctx.rounds == 10, "10 rounds");
  const uint8_t* p = (const uint8_t*)ctx.rd_key;
  for (int i = 0; i < 176; i++) sym_assert(p[i] == w[i], "round key byte");
  __m128i* q = new __m128i[11]; AES128KeyExpansion(k, q);
  for (int i = 0; i < 176; i++) sym_assert(((uint8_t*)q)[i] == w[i], "round key byte (expansion alone)");
  sym_cover("done");
}
// one round of the hardware instructions is one AES round (ties the instruction model to the standard), for every state and key
extern "C" void round_main() {
  sym_aes_interp(1);
  uint8_t s[16], k[16], o[16]; sym_bytes(s, 16, "state"); sym_bytes(k, 16, "key");
  bool last = sym_choose(2, "last");
  __m128i a = _mm_loadu_si128((__m128i*)s), b = _mm_loadu_si128((__m128i*)k);
  __m128i r = last ? _mm_aesenclast_si128(a, b) : _mm_aesenc_si128(a, b);
  specRound(s, k, last, o);
  for (int i = 0; i < 16; i++) sym_assert(((uint8_t*)&r)[i] == o[i], "AES round");
  sym_cover("done");
}
// encryption of a batch is the standard sequence of rounds on each block, whatever the round keys
extern "C" void batch_main() {
  sym_aes_interp(sym_param("interp", 0));
  int n = sym_choose(sym_param("n", 10), "blocks");
  AES_KEY ctx; sym_bytes(ctx.rd_key, 11 * 16, "rk"); ctx.rounds = 10;
  __m128i* b = new __m128i[n ? n : 1]; __m128i in[16];
  sym_bytes(b, 16 * n, "data"); for (int i = 0; i < n; i++) in[i] = b[i];
  AES_KEY old = ctx;
  AESEcbEncryptBlks(b, n, &ctx);
  for (int i = 0; i < n; i++) {
    __m128i s = _mm_xor_si128(in[i], old.rd_key[0]);
    for (int r = 1; r < 10; r++) s = _mm_aesenc_si128(s, old.rd_key[r]);
    s = _mm_aesenclast_si128(s, old.rd_key[10]);
    sym_assert(sym_memeq(&s, &b[i], 16), "batch: every block is encrypted on its own with the standard rounds");
    __m128i o, x = in[i]; AESEncrypt((unsigned char*)&x, (unsigned char*)&o, &ctx);
    sym_assert(sym_memeq(&s, &o, 16), "single block encryption agrees");
  }
  sym_assert(sym_memeq(&old, &ctx, 11 * 16), "the key is not changed");
  sym_cover("done");
}
// whole cipher, for every key and block
extern "C" void cipher_main() {
  sym_aes_interp(1);
  uint8_t* k = new uint8_t[16]; sym_bytes(k, 16, "key");
  __m128i b[2]; sym_bytes(b, 32, "data"); __m128i in[2] = { b[0], b[1] };
  AES_KEY ctx; AESSetEncryptKey(k, 128, &ctx);
  AESEcbEncryptBlks(b, 2, &ctx);
  uint8_t w[176]; specExpand(k, w);
  for (int j = 0; j < 2; j++) { uint8_t o[16]; specEnc((uint8_t*)&in[j], w, o); for (int i = 0; i < 16; i++) sym_assert(((uint8_t*)&b[j])[i] == o[i], "AES-128 encryption"); }
  sym_cover("done");
}
