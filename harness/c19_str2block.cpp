#include "util/util.h"
#include "util/common.h"
#include "sym.h"
static unsigned hexv(unsigned c) { return c - '0' < 10u ? c - '0' : (c | 32) - 'a' + 10; }
static bool isHex(unsigned char c) { return ((unsigned)(c - '0') < 10) | ((unsigned)((c | 32) - 'a') < 6); }
// digits only, either case: every length
extern "C" void digits_main() {
  int lens[12] = { 0, 1, 2, 7, 15, 16, 17, 18, 24, 30, 31, 32 };
  int n = sym_param("all", 0) ? (int)sym_choose(33, "len") : lens[sym_choose(12, "len")];
  std::string s((size_t)n, '0'); unsigned char d[40];
  for (int i = 0; i < n; i++) { d[i] = sym_u8("c"); sym_assume(isHex(d[i])); s[i] = (char)d[i]; }
  // separators at up to two places
  int seps = sym_choose(3, "seps"); std::string t = s; static const char sep[3] = { ' ', '\t', '_' };
  for (int k = 0; k < seps; k++) { int at = k == 0 ? (int)sym_choose(4, "at") : 0; size_t pos = at == 0 ? 0 : at == 1 ? t.size() : at == 2 ? t.size() / 2 : (t.size() > 16 ? t.size() - 16 : t.size()); t.insert(pos, 1, sep[sym_choose(3, "sep")]); }
  block b; sym_bytes(&b, 16, "old");
  int rc = Str2Block(t, &b);
  sym_assert(rc == SUCCESS, "hexadecimal text of at most 32 digits is accepted");
  const unsigned char* p = (const unsigned char*)&b;
  for (int i = 0; i < 16; i++) { unsigned lo = 2 * i < n ? hexv(d[n - 1 - 2 * i]) : 0, hi = 2 * i + 1 < n ? hexv(d[n - 2 - 2 * i]) : 0; sym_assert(p[i] == (lo | hi << 4), "the block is the value the digits denote"); }
  sym_cover("done");
}
// one or two arbitrary characters anywhere among digits
extern "C" void bad_main() {
  int lens[6] = { 1, 2, 3, 16, 17, 32 };
  int n = lens[sym_choose(6, "len")];
  std::string s((size_t)n, '0');
  for (int i = 0; i < n; i++) s[i] = "5a0F"[i & 3];
  int p0 = sym_choose(n, "pos"), two = sym_choose(2, "two"); int p1 = two ? (p0 + 1) % n : p0;
  unsigned char c0 = sym_u8("c"), c1 = sym_u8("c");
  s[p1] = (char)c1; s[p0] = (char)c0;
  auto sepc = [](unsigned char c) { return (c == ' ') | (c == '\t') | (c == '_'); };
  bool ok = isHex(c0) | sepc(c0); if (p1 != p0) ok = ok & (isHex(c1) | sepc(c1));
  block b, old; sym_bytes(&b, 16, "old"); old = b;
  int rc = Str2Block(s, &b);
  sym_assert((rc == SUCCESS) == ok, "text with any other character is rejected");
  if (rc != SUCCESS) sym_assert(sym_memeq(&b, &old, 16), "a rejected text leaves the destination untouched");
  sym_cover_if(ok, "accepted"); sym_cover_if(!ok, "rejected");
}
// too long, null destination
extern "C" void long_main() {
  int n = 33 + sym_choose(4, "len"); bool sep = sym_choose(2, "sep");
  std::string s((size_t)n, '0'); for (int i = 0; i < n; i++) { unsigned char d = sym_u8("c"); sym_assume(isHex(d)); s[i] = (char)d; }
  if (sep) s.insert(5, "_");
  block b, old; sym_bytes(&b, 16, "old"); old = b;
  sym_assert(Str2Block(s, &b) == FAILURE, "more than 32 digits are rejected");
  sym_assert(sym_memeq(&b, &old, 16), "a rejected text leaves the destination untouched");
  sym_assert(Str2Block("12", nullptr) == FAILURE, "a null destination is rejected");
  sym_cover("done");
}
