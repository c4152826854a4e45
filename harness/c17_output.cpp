// Printing of outputs.
#include "util/util.h"
#include "util/common.h"
#include "sym.h"
static unsigned hexv(unsigned c) { return c - '0' < 10u ? c - '0' : (c | 32) - 'a' + 10; }
static bool isHex(unsigned c) { return ((unsigned)(c - '0') < 10) | ((unsigned)((c | 32) - 'a') < 6); }
// the text s denotes bits [lo,lo+n) of v
static void denotes(const std::string& s, const BIGNUM* v, int lo, int n, const char* msg) {
  int L = (int)s.size(); sym_assert(L >= 1, "a number has at least one digit");
  for (int i = 0; i < L; i++) sym_assert(isHex((unsigned char)s[i]), "hexadecimal digits only");
  for (int i = 0; i < n || i < 4 * L; i++) {
    unsigned have = i < 4 * L ? (hexv((unsigned char)s[L - 1 - i / 4]) >> (i % 4)) & 1 : 0, want = i < n ? (BN_is_bit_set(v, lo + i) ? 1 : 0) : 0;
    sym_assert(have == want, msg);
  }
}
static void split(const std::string& s, std::string* out, int* n) { *n = 0; std::string cur; for (size_t i = 0; i < s.size(); i++) if (s[i] == '\n') { if (*n < 8) out[(*n)++] = cur; cur.clear(); } else cur.push_back(s[i]); out[(*n)++] = cur; }
extern "C" void print_main() {
  static const int ws[10] = { 1, 2, 3, 4, 5, 7, 8, 9, 12, 17 };
  int w = ws[sym_choose(sym_param("widths", 8), "width")], cc = 1 + sym_choose(sym_param("cc", 3), "cc"), low = sym_choose(2, "low"), mode = sym_choose(3, "mode");
  sym_shard_point();
  GarbledCircuit c; c.output_size = w;
  bool last = low && mode == 2;
  int bits = last ? w : w * cc, nb = (bits + 7) / 8;
  unsigned char b[32]; sym_bytes(b, nb, "out"); if (bits % 8) sym_assume(b[0] < (1 << (bits % 8)));
  BIGNUM *v = BN_bin2bn(b, nb, BN_new()), *v0 = BN_dup(v);
  std::string s = "old"; OutputMode m = mode == 0 ? OutputMode::consecutive : mode == 1 ? OutputMode::separated_clock : OutputMode::last_clock;
  int rc = low ? OutputBN2StrLowMem(c, v, cc, m, &s) : OutputBN2StrHighMem(c, v, cc, m, &s);
  sym_assert(rc == SUCCESS, "printing succeeds");
  sym_assert(BN_cmp(v, v0) == 0, "the output number is kept");
  if (mode == 0) denotes(s, v0, 0, w * cc, "consecutive: all cycles as one number");
  else if (mode == 1) { std::string ln[9]; int n; split(s, ln, &n); sym_assert(n == cc, "one line per clock cycle"); for (int i = 0; i < cc; i++) denotes(ln[i], v0, i * w, w, "separated: line i is clock cycle i"); }
  else denotes(s, v0, last ? 0 : (cc - 1) * w, w, "last clock: the last cycle's outputs");
  sym_cover("done");
}
