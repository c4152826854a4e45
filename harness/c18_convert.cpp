// Number/string conversions.
#include <vector>
#include "util/util.h"
#include "util/common.h"
#include "sym.h"
static unsigned hexv(unsigned c) { return c - '0' < 10u ? c - '0' : (c | 32) - 'a' + 10; }
static bool isHex(unsigned c) { return ((unsigned)(c - '0') < 10) | ((unsigned)((c | 32) - 'a') < 6); }
// the hexadecimal text denotes the number whose bit i is bit[i]
static void denotes(const std::string& s, const unsigned char* bit, int n, const char* msg) {
  int L = (int)s.size(); sym_assert(4 * L >= n, "enough digits");
  for (int i = 0; i < 4 * L; i++) { unsigned char c = s[L - 1 - i / 4]; sym_assert(isHex(c), "hexadecimal digits only"); sym_assert(((hexv(c) >> (i % 4)) & 1) == (i < n ? bit[i] : 0u), msg); }
}
extern "C" void hex2bin_main() {
  int n = sym_choose(sym_param("n", 6), "digits"); sym_shard_point();
  std::string s((size_t)n, '0'); unsigned d[40];
  for (int i = 0; i < n; i++) { unsigned char c = sym_u8("c"); sym_assume(isHex(c)); s[i] = (char)c; d[i] = hexv(c); }
  sym_merge(1); std::string b = hex2bin(s); sym_merge(0);
  sym_assert(b.size() == (size_t)n * 4, "four bits per digit");
  for (int i = 0; i < 4 * n; i++) sym_assert((unsigned char)b[i] == '0' + ((d[i / 4] >> (3 - i % 4)) & 1), "the bits of every digit, most significant first");
  sym_cover("done");
}
extern "C" void bin2hex_main() {
  int n = sym_choose(sym_param("n", 14), "bits"); sym_shard_point();
  std::string s((size_t)n, '0'); unsigned char bit[80];
  for (int i = 0; i < n; i++) { unsigned v = sym_bool("b"); s[i] = (char)('0' + v); bit[n - 1 - i] = v; }
  sym_merge(1); std::string h = bin2hex(s); sym_merge(0);
  denotes(h, bit, n, "binary to hexadecimal keeps the value");
  sym_cover("done");
}
extern "C" void decbin_main() {
  int n = sym_param("all", 0) ? 1 + (int)sym_choose(64, "bits") : (int[]){ 1, 2, 3, 7, 8, 16, 31, 32, 33, 63, 64 }[sym_choose(11, "bits")]; sym_shard_point();
  uint64_t v = sym_u64("v");
  sym_merge(1); std::string b = dec2bin((int64_t)v, n); sym_merge(0);
  sym_assert(b.size() == (size_t)n, "as many bits as asked for");
  for (int i = 0; i < n; i++) sym_assert((unsigned char)b[i] == '0' + ((v >> (n - 1 - i)) & 1), "decimal to binary: the low bits, most significant first");
  std::string t((size_t)n, '0'); uint64_t w = 0; for (int i = 0; i < n; i++) { unsigned x = sym_bool("b"); t[i] = (char)('0' + x); w = w << 1 | x; }
  sym_merge(1); int64_t u = bin2dec(t, false), s = bin2dec(t, true); sym_merge(0);
  sym_assert((uint64_t)u == w, "binary to decimal, unsigned");
  uint64_t sx = n < 64 ? w | (0 - ((w >> (n - 1)) & 1)) << (n - 1) : w;
  sym_assert((uint64_t)s == sx, "binary to decimal, two's complement");
  sym_merge(1); std::string z = towsComplement(t); sym_merge(0);
  uint64_t neg = 0 - w; sym_assert(z.size() == (size_t)n, "two's complement keeps the length");
  for (int i = 0; i < n; i++) sym_assert((unsigned char)z[i] == '0' + ((neg >> (n - 1 - i)) & 1), "two's complement is the negated number");
  sym_cover("done");
}
static const int kL[4][3] = { { 3, 8, 5 }, { 1, 4, 7 }, { 16, 2, 6 }, { 32, 1, 9 } };
extern "C" void pack_main() {
  int k = 1 + sym_choose(3, "values"), q = sym_choose(4, "lens"); sym_shard_point();
  std::vector<uint64_t> v; std::vector<uint16_t> l; int tot = 0;
  for (int i = 0; i < k; i++) { v.push_back(sym_u64("v")); l.push_back(kL[q][i]); tot += kL[q][i]; }
  sym_merge(1); std::string h = formatGCInputString(v, l); sym_merge(0);
  unsigned char bit[128]; int p = 0; for (int i = k - 1; i >= 0; i--) for (int j = 0; j < l[i]; j++) bit[p++] = (v[i] >> j) & 1;
  denotes(h, bit, tot, "the first value is packed in the most significant bits, each in its own length");
  sym_cover("done");
}
extern "C" void unpack_main() {
  int k = 1 + sym_choose(3, "values"), q = sym_choose(4, "lens"), off = (int[]){ 0, 1, 4, 11 }[sym_choose(4, "offset")]; sym_shard_point();
  std::vector<uint16_t> l; int tot = off; for (int i = 0; i < k; i++) { l.push_back(kL[q][i]); tot += kL[q][i]; }
  int full = (tot + 3) / 4, nd = (int)sym_choose(3, "digits"); nd = nd == 0 ? full : nd == 1 ? (full > 2 ? full - 2 : 1) : full + 1;
  std::string s((size_t)nd, '0'); unsigned char bit[160] = {};
  for (int i = 0; i < nd; i++) { unsigned char c = sym_u8("c"); sym_assume(isHex(c)); s[i] = (char)c; for (int j = 0; j < 4; j++) bit[4 * (nd - 1 - i) + j] = (hexv(c) >> j) & 1; }
  std::vector<int64_t> o; for (int i = 0; i < k; i++) o.push_back((int64_t)sym_u64("old"));
  sym_merge(1); parseGCOutputString(o, s, l, (uint16_t)off); sym_merge(0);
  int p = tot;
  for (int i = 0; i < k; i++) {
    p -= l[i]; uint64_t w = 0; for (int j = 0; j < l[i]; j++) w |= (uint64_t)bit[p + j] << j;
    w |= l[i] < 64 ? (0 - (uint64_t)bit[p + l[i] - 1]) << (l[i] - 1) : 0;
    sym_assert((uint64_t)o[i] == w, "each value is read back from its own bits, sign-extended");
  }
  sym_cover("done");
}
// long lists and long strings
extern "C" void long_main() {
  int k = (int[]){ 255, 256, 300 }[sym_choose(3, "values")];
  std::vector<uint16_t> l((size_t)k, 4); std::string s((size_t)k, '5'); unsigned at = (unsigned[]){ 0, 43, 44, 254 }[sym_choose(4, "at")];
  unsigned char c = sym_u8("c"); sym_assume(isHex(c)); s[at] = (char)c;
  std::vector<int64_t> o((size_t)k, 77);
  sym_merge(1); parseGCOutputString(o, s, l, 0); sym_merge(0);
  for (int i = 0; i < k; i++) sym_assert(o[i] == (i == (int)at ? (int64_t)(hexv(c) ^ 8) - 8 : 5), "every value of a long list is read back");
  sym_cover("done");
}
extern "C" void mask_main() {
  int g = sym_choose(sym_param("n", 10), "garbler"), e = sym_choose(sym_param("n", 10), "evaluator"), left = sym_choose(2, "left");
  std::string h = formatGCOutputMask(g, e, left);
  unsigned char bit[64]; for (int i = 0; i < g + e; i++) bit[i] = left ? i >= e : i < g;
  denotes(h, bit, g + e, "ones for the garbler's share and zeros for the evaluator's, on the requested sides");
  sym_cover("done");
}
