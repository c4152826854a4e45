// Run-time library for symbolic execution: the few libc / libstdc++ pieces the
// code under test calls out of line, in-memory files and log stubs.
#include <stddef.h>
#include <stdint.h>
#include "sym.h"
#include <string>
template class std::basic_string<char>;
#include <string.h>
#include <stdlib.h>
// ---------------------------------------------------------------- streams
#include <ostream>
#include <istream>
#include <iostream>
#include <fstream>
#include <sstream>
namespace std {
ostream cout, cerr, clog; istream cin;
extern "C" {
void __sbuf_put(__sbuf* b, const char* s, size_t n) {
  if (b->n + n > b->cap) {
    size_t c = (b->n + n) * 2 + 64; unsigned char* d = (unsigned char*)malloc(c);
    if (b->n) memcpy(d, b->d, b->n);
    if (b->d) free(b->d);
    b->d = d; b->cap = c;
  }
  if (n) memcpy(b->d + b->n, s, n);
  b->n += n;
}
void __sbuf_num(__sbuf* b, unsigned long v, int neg, unsigned fl, int width, int fill) {
  if (!(fl & 1) && width == 0 && sym_is_sym(v)) {
    char t[10]; t[0] = 1; t[1] = (char)(neg ? 1 : 0); for (int i = 0; i < 8; i++) t[2 + i] = (char)(v >> (8 * i));
    __sbuf_put(b, t, 10); return;
  }
  char t[32]; int n = 0; bool minus = neg && (long)v < 0; if (minus) v = -v;
  unsigned base = (fl & 1) ? 16 : 10;
  if (fl & 1) {
    int k = 1; unsigned long x = v >> 4; while (x) { k++; x >>= 4; }
    for (int i = 0; i < k; i++) { unsigned d = (v >> (4 * i)) & 15; t[n++] = (char)(d < 10 ? '0' + d : ((fl & 4) ? 'A' : 'a') + d - 10); }
  } else do { t[n++] = (char)('0' + v % base); v /= base; } while (v);
  if (minus) t[n++] = '-';
  char f = (char)fill;
  if (!(fl & 8)) for (int i = n; i < width; i++) __sbuf_put(b, &f, 1);
  while (n) { n--; __sbuf_put(b, &t[n], 1); }
}
int __sbuf_peek(__sbuf* b, size_t pos) {
  if (!b || pos >= b->n) return -1;
  if (!sym_is_sym(b->d[pos]) && b->d[pos] == 1) sym_inconclusive("text of a symbolic number read as characters");
  return b->d[pos];
}
int __sbuf_getnum(__sbuf* b, size_t* pos, unsigned long* v, int* neg) {
  if (!b) return 4;
  while (*pos < b->n && __shim_space(b->d[*pos])) ++*pos;
  if (*pos >= b->n) return 6;
  if (b->d[*pos] == 1) {
    unsigned long x = 0; for (int i = 0; i < 8; i++) x |= (unsigned long)b->d[*pos + 2 + i] << (8 * i);
    int sg = b->d[*pos + 1];
    *pos += 10; *v = x; *neg = sg && (long)x < 0;
    if (*pos < b->n) { unsigned char c = b->d[*pos]; if (c == 1 || (c >= '0' && c <= '9')) sym_inconclusive("two numbers written without a separator"); }
    return *pos >= b->n ? 2 : 0;
  }
  bool m = false; size_t p = *pos;
  if (b->d[p] == '-') { m = true; p++; } else if (b->d[p] == '+') p++;
  unsigned long x = 0; int any = 0, ov = 0;
  while (p < b->n && b->d[p] >= '0' && b->d[p] <= '9') { unsigned __int128 t = (unsigned __int128)x * 10 + (b->d[p] - '0'); if (t >> 64) ov = 1; x = (unsigned long)t; any = 1; p++; }
  if (p < b->n && b->d[p] == 1) sym_inconclusive("two numbers written without a separator");
  *pos = p;
  int r = p >= b->n ? 2 : 0;
  if (!any) return r | 4;
  if (ov) { *v = ~0UL; *neg = 0; return r | 4; }
  *neg = m; *v = m ? -x : x;
  return r;
}
static __sbuf* gFiles[32]; static int gNFiles;
__sbuf* __shim_newbuf() { __sbuf* b = (__sbuf*)malloc(sizeof(__sbuf)); b->d = 0; b->n = b->cap = 0; b->name[0] = 0; return b; }
void __shim_freebuf(__sbuf* b) { if (b) { if (b->d) free(b->d); free(b); } }
__sbuf* __shim_open(const char* name, int create, int trunc) {
  for (int i = 0; i < gNFiles; i++) if (gFiles[i] && !strcmp(gFiles[i]->name, name)) { if (trunc) gFiles[i]->n = 0; return gFiles[i]; }
  if (!create || !name[0]) return 0;
  __sbuf* b = __shim_newbuf(); strncpy(b->name, name, 95); b->name[95] = 0;
  gFiles[gNFiles++] = b; return b;
}
void sym_fs_put(const char* name, const void* data, size_t n) { __sbuf* b = __shim_open(name, 1, 1); __sbuf_put(b, (const char*)data, n); }
size_t sym_fs_get(const char* name, void* data, size_t cap) { __sbuf* b = __shim_open(name, 0, 0); if (!b) return 0; size_t n = b->n < cap ? b->n : cap; memcpy(data, b->d, n); return n; }
int sym_fs_exists(const char* name) { return __shim_open(name, 0, 0) != 0; }
void sym_fs_remove(const char* name) { for (int i = 0; i < gNFiles; i++) if (gFiles[i] && !strcmp(gFiles[i]->name, name)) gFiles[i] = 0; }
}
// ---------------------------------------------------------------- trees, lists, hashing
}
#include <map>
#include <list>
#include <unordered_map>
namespace std {
typedef _Rb_tree_node_base* NP;
static NP rbinc(NP x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static NP rbdec(NP x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { NP y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { NP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
NP _Rb_tree_increment(NP x) throw() { return rbinc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rbinc((NP)x); }
NP _Rb_tree_decrement(NP x) throw() { return rbdec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rbdec((NP)x); }
static void rotl(NP x, NP& root) { NP y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(NP x, NP& root) { NP y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, NP x, NP p, _Rb_tree_node_base& h) throw() {
  NP& root = h._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    NP const g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) {
      NP const y = g->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); }
    } else {
      NP const y = g->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); }
    }
  }
  root->_M_color = _S_black;
}
NP _Rb_tree_rebalance_for_erase(NP const z, _Rb_tree_node_base& h) throw() {
  // no rebalancing: a plain unlink keeps the search-tree order
  NP& root = h._M_parent; NP& lm = h._M_left; NP& rm = h._M_right;
  NP y = z, x;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; y->_M_color = z->_M_color;
  } else {
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { NP t = x; while (t->_M_left) t = t->_M_left; lm = t; } }
    if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { NP t = x; while (t->_M_right) t = t->_M_right; rm = t; } }
  }
  if (root) root->_M_color = _S_black;
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = n < 11 ? 11 : n | 1; _M_next_resize = b; return b; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > nb) { size_t b = (ne + ni) * 2 | 1; if (b < 11) b = 11; _M_next_resize = b; return {true, b}; } return {false, 0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 131 + ((const unsigned char*)p)[i]; return h; }
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
}
// ---------------------------------------------------------------- util/log.h without log files
static std::ostream gNull;
namespace { struct NL { }; }
std::ostream& LogStream(int) { return gNull; }
std::ostream& Dump(const std::string&) { return gNull; }
void LogInitial(int, char**) {}
void LogFinish() {}
bool __dummy_expr__;
