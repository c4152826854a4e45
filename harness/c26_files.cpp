// Values given as a file or a literal; byte order.
#define main a23_main
#include "a23/lib/a23_main_testing.cpp"
#undef main
#include "sym.h"
void gc_main(const int*, const int*, int*) {}
extern "C" void file_main() {
  int lines = sym_choose(4, "lines"), nl = sym_choose(2, "newline"); sym_shard_point();
  std::string txt, want; int len[4];
  for (int i = 0; i < lines; i++) {
    len[i] = sym_choose(3, "len"); std::string ln;
    for (int j = 0; j < len[i]; j++) { unsigned char c = sym_u8("c"); sym_assume(c != '\n'); sym_assume(c != 0); sym_assume(c < 128); sym_assume(c > 32); ln.push_back((char)c); }
    txt += ln; if (i < lines - 1 || nl) txt += "\n"; want = ln + want;
  }
  sym_fs_put("val.txt", txt.data(), txt.size());
  std::string s = ReadFileOrPassHex("val.txt");
  sym_assert(s.size() == want.size(), "a file is the concatenation of its lines");
  for (size_t i = 0; i < want.size(); i++) sym_assert(s[i] == want[i], "the last line is most significant");
  sym_cover("done");
}
extern "C" void literal_main() {
  int n = sym_choose(6, "len"); std::string v;
  for (int i = 0; i < n; i++) { unsigned char c = sym_u8("c"); sym_assume(((unsigned)(c - '0') < 10) | ((unsigned)((c | 32) - 'a') < 6)); v.push_back((char)c); }
  std::string s = ReadFileOrPassHex(v);
  sym_assert(s.size() == v.size(), "a value that names no file is taken literally");
  for (int i = 0; i < n; i++) sym_assert(s[i] == v[i], "a value that names no file is taken literally");
  sym_cover("done");
}
extern "C" void bytes_main() {
  int nb = sym_choose(sym_param("n", 6), "bytes"), len = sym_choose(sym_param("n", 6) + 2, "len"); sym_shard_point();
  unsigned char b[16], v[20], o[20]; sym_bytes(b, nb, "num"); sym_bytes(v, 20, "old"); for (int i = 0; i < 20; i++) o[i] = v[i];
  BIGNUM* n = BN_bin2bn(b, nb, BN_new());
  BNtoByteLittleEndian(n, v + 1, len);
  for (int i = 0; i < 20; i++) sym_assert(v[i] == (i < 1 || i > len ? o[i] : i - 1 < nb ? b[nb - i] : 0), "byte i is the i-th least significant byte of the number, zero-padded");
  BIGNUM* r = BN_new(); BN_set_bit(r, 77);
  ByteLittleEndiantoBN(v + 1, len, r);
  for (int i = 0; i < 100; i++) { int k = i / 8; sym_assert((BN_is_bit_set(r, i) != 0) == (k < len && k < nb ? (b[nb - 1 - k] >> (i % 8)) & 1 : 0), "the bytes denote the number modulo the array size"); }
  sym_cover("done");
}
