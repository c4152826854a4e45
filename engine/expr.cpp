#include <unordered_map>
#include <map>
#include "expr.h"
#include <llvm/ADT/SmallString.h>
#include <algorithm>
#include <unordered_set>
#include <deque>
#include <set>
#include <cassert>
#include <cstdio>
#include <cstdlib>

std::vector<VarInfo> gVars;
std::vector<UFInfo> gUFs;
static std::map<std::string, uint32_t> gVarIds;

struct EHash { size_t operator()(E e) const { return e->hash; } };
struct EEq {
  bool operator()(E a, E b) const {
    if (a->hash != b->hash || a->op != b->op || a->width != b->width || a->aux != b->aux) return false;
    if (a->op == CONST) return a->c == b->c;
    return a->k == b->k;
  }
};
static std::unordered_set<E, EHash, EEq> gTable;
static std::deque<Expr> gPool;

uint64_t exprCount() { return gPool.size(); }

static uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 12) + (h >> 4);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 33);
}
static E intern(Expr& t) {
  uint64_t h = mix(t.op, t.width);
  h = mix(h, t.aux);
  if (t.op == CONST) {
    const uint64_t* w = t.c.getRawData();
    for (unsigned i = 0; i < t.c.getNumWords(); i++) h = mix(h, w[i]);
  }
  for (E x : t.k) h = mix(h, x->id * 0x9E3779B97F4A7C15ULL);
  t.hash = h;
  auto it = gTable.find(&t);
  if (it != gTable.end()) return *it;
  gPool.push_back(t);
  Expr& n = gPool.back();
  n.id = (uint32_t)gPool.size();
  gTable.insert(&n);
  return &n;
}
static E gByte[256], gB0, gB1;
static std::unordered_map<uint64_t, E> gC64, gC32;
E mkConst(const APInt& v) {
  Expr t; t.op = CONST; t.width = v.getBitWidth(); t.aux = 0; t.c = v;
  return intern(t);
}
E mkConst(uint32_t w, uint64_t v) {
  if (w == 8) { E& e = gByte[v & 255]; if (!e) e = mkConst(APInt(8, v & 255)); return e; }
  if (w == 1) { E& e = (v & 1) ? gB1 : gB0; if (!e) e = mkConst(APInt(1, v & 1)); return e; }
  if (w == 64) { E& e = gC64[v]; if (!e) e = mkConst(APInt(64, v)); return e; }
  if (w == 32) { E& e = gC32[v & 0xffffffffu]; if (!e) e = mkConst(APInt(32, v & 0xffffffffu)); return e; }
  if (w < 64) v &= (1ULL << w) - 1;
  return mkConst(APInt(w, v));
}
E mkBool(bool b) { return mkConst(1, b); }
E mkVar(const std::string& base, uint32_t w) {
  std::string name = base;
  { auto i0 = gVarIds.find(name); if (i0 != gVarIds.end() && gVars[i0->second].width != w) name += "/" + std::to_string(w); }
  auto it = gVarIds.find(name);
  uint32_t vid;
  if (it == gVarIds.end()) { vid = gVars.size(); gVars.push_back({name, w}); gVarIds[name] = vid; }
  else vid = it->second;
  if (gVars[vid].width != w) { fprintf(stderr, "variable %s width clash\n", name.c_str()); abort(); }
  Expr t; t.op = VAR; t.width = w; t.aux = vid;
  return intern(t);
}
uint32_t getUF(const std::string& name, const std::vector<uint32_t>& args, uint32_t ret) {
  for (uint32_t i = 0; i < gUFs.size(); i++) if (gUFs[i].name == name && gUFs[i].args == args && gUFs[i].ret == ret) return i;
  gUFs.push_back({name, args, ret});
  return gUFs.size() - 1;
}
E mkUF(uint32_t f, const std::vector<E>& a) {
  // case-split an if-then-else argument: f(ite(c,x,y)) = ite(c,f(x),f(y))
  for (size_t i = 0; i < a.size(); i++)
    if (a[i]->op == ITE) {
      std::vector<E> x = a, y = a;
      x[i] = a[i]->k[1]; y[i] = a[i]->k[2];
      // arguments with the same condition are split together
      for (size_t j = i + 1; j < a.size(); j++)
        if (a[j]->op == ITE && a[j]->k[0] == a[i]->k[0]) { x[j] = a[j]->k[1]; y[j] = a[j]->k[2]; }
      return mkIte(a[i]->k[0], mkUF(f, x), mkUF(f, y));
    }
  Expr t; t.op = UF; t.width = gUFs[f].ret; t.aux = f; t.k = a;
  return intern(t);
}
static E mk2(Op op, uint32_t w, E a, E b) { Expr t; t.op = op; t.width = w; t.aux = 0; t.k = {a, b}; return intern(t); }
APInt foldBin(Op op, const APInt& a, const APInt& b) {
  unsigned w = a.getBitWidth();
  switch (op) {
    case ADD: return a + b; case SUB: return a - b; case MUL: return a * b;
    case UDIV: return b == 0 ? APInt::getAllOnes(w) : a.udiv(b);
    case SDIV: return b == 0 ? (a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a.sdiv(b);
    case UREM: return b == 0 ? a : a.urem(b);
    case SREM: return b == 0 ? a : a.srem(b);
    case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
    case SHL: return b.uge(w) ? APInt(w, 0) : a.shl(b.getZExtValue());
    case LSHR: return b.uge(w) ? APInt(w, 0) : a.lshr(b.getZExtValue());
    case ASHR: return b.uge(w) ? (a.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : a.ashr(b.getZExtValue());
    case EQ: return APInt(1, a == b); case ULT: return APInt(1, a.ult(b)); case ULE: return APInt(1, a.ule(b));
    case SLT: return APInt(1, a.slt(b)); case SLE: return APInt(1, a.sle(b));
    default: abort();
  }
}
static void xorLeaves(E e, std::vector<E>& out) {
  if (e->op == XOR) { xorLeaves(e->k[0], out); xorLeaves(e->k[1], out); }
  else out.push_back(e);
}
static unsigned xorCount(E e, unsigned lim) {
  if (e->op != XOR) return 1;
  unsigned a = xorCount(e->k[0], lim);
  if (a >= lim) return a;
  return a + xorCount(e->k[1], lim);
}
static E mkXor(E a, E b) {
  uint32_t w = a->width;
  std::vector<E> l;
  if (xorCount(a, 200) + xorCount(b, 200) > 256) { if (a->id > b->id) std::swap(a, b); return mk2(XOR, w, a, b); }
  xorLeaves(a, l); xorLeaves(b, l);
  APInt c(w, 0);
  std::vector<E> r;
  for (E x : l) if (x->op == CONST) c ^= x->c; else r.push_back(x);
  std::sort(r.begin(), r.end(), [](E x, E y) { return x->id < y->id; });
  std::vector<E> s;
  for (E x : r) { if (!s.empty() && s.back() == x) s.pop_back(); else s.push_back(x); }
  // combine two if-then-elses with the same condition
  E acc = nullptr;
  for (E x : s) acc = acc ? mk2(XOR, w, acc, x) : x;
  if (!acc) return mkConst(c);
  if (c == 0) return acc;
  return mk2(XOR, w, acc, mkConst(c));
}
static bool isZero(E e) { return e->op == CONST && e->c == 0; }
static bool isOnes(E e) { return e->op == CONST && e->c.isAllOnes(); }
E mkNot(E a) { return mkXor(a, mkConst(APInt::getAllOnes(a->width))); }
static bool isNotOf(E a, E b) { return mkNot(a) == b; }

unsigned trailingZeros(E e) {
  switch (e->op) {
    case CONST: return e->c == 0 ? e->width : e->c.countTrailingZeros();
    case SHL: if (e->k[1]->isConst()) { uint64_t s = e->k[1]->c.getLimitedValue(e->width); return std::min<uint64_t>(e->width, s + trailingZeros(e->k[0])); } return trailingZeros(e->k[0]);
    case MUL: return std::min<unsigned>(e->width, trailingZeros(e->k[0]) + trailingZeros(e->k[1]));
    case ADD: case SUB: case OR: case XOR: return std::min(trailingZeros(e->k[0]), trailingZeros(e->k[1]));
    case AND: return std::max(trailingZeros(e->k[0]), trailingZeros(e->k[1]));
    case ITE: return std::min(trailingZeros(e->k[1]), trailingZeros(e->k[2]));
    case ZEXT: case SEXT: { unsigned t = trailingZeros(e->k[0]); return t == e->k[0]->width ? e->width : t; }
    case CONCAT: { unsigned t = trailingZeros(e->k[1]); return t == e->k[1]->width ? t + trailingZeros(e->k[0]) : t; }
    default: return 0;
  }
}

// bits that are one whatever the inputs
static std::unordered_map<E, APInt> gOnes;
static APInt knownOnes(E e, int depth = 0) {
  if (e->op == CONST) return e->c;
  if (depth > 300) return APInt(e->width, 0);
  switch (e->op) { case OR: case AND: case ITE: case ZEXT: case CONCAT: case EXTRACT: break; default: return APInt(e->width, 0); }
  auto it = gOnes.find(e); if (it != gOnes.end()) return it->second;
  auto K = [&](int i) { return knownOnes(e->k[i], depth + 1); };
  APInt r(e->width, 0);
  switch (e->op) {
    case OR: r = K(0) | K(1); break;
    case AND: r = K(0) & K(1); break;
    case ITE: r = K(1) & K(2); break;
    case ZEXT: r = K(0).zext(e->width); break;
    case CONCAT: r = K(0).concat(K(1)); break;
    case EXTRACT: r = K(0).extractBits(e->width, e->aux); break;
    default: break;
  }
  return gOnes.emplace(e, r).first->second;
}

bool gGeneric = false, gUfOpaque = false;
static uint32_t randBits(E e) {
  switch (e->op) {
    case VAR: { const std::string& n = gVars[e->aux].name; return n.compare(0, 4, "rand") == 0 || n.compare(0, 3, "lbl") == 0 ? e->width : 0; }
    case UF: return e->width;
    case EXTRACT: return randBits(e->k[0]) ? e->width : 0;
    case CONCAT: return randBits(e->k[0]) + randBits(e->k[1]);
    default: return 0;
  }
}
// a term whose random parts cannot cancel against another such term
static bool genSimple(E e) {
  switch (e->op) {
    case CONST: case VAR: case UF: return true;
    case EXTRACT: return genSimple(e->k[0]);
    case CONCAT: return genSimple(e->k[0]) && genSimple(e->k[1]);
    case ZEXT: return genSimple(e->k[0]);
    default: return false;
  }
}
// structure of a label term: random/opaque leaves under xor, concat, extract and
// if-then-else; finds a condition to split on
static bool genScan(E e, bool& rnd, E& cond, int depth = 0) {
  if (depth > 60) return false;
  switch (e->op) {
    case CONST: return true;
    case VAR: case UF: if (randBits(e) >= 32) rnd = true; return true;
    case EXTRACT: case ZEXT: if (randBits(e) >= 32) rnd = true; return genScan(e->k[0], rnd, cond, depth + 1);
    case CONCAT: case XOR: for (E k : e->k) if (!genScan(k, rnd, cond, depth + 1)) return false; return true;
    case ITE: if (!cond) cond = e->k[0]; return genScan(e->k[1], rnd, cond, depth + 1) && genScan(e->k[2], rnd, cond, depth + 1);
    default: return false;
  }
}
// e with the boolean term c fixed to v; untouched below ciphers and arithmetic
typedef std::unordered_map<E, E> SubMap;
static E genSubst(E e, E c, bool v, SubMap& memo) {
  if (e == c) return mkBool(v);
  switch (e->op) { case CONST: case VAR: case UF: return e; default: break; }
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  E r = e;
  auto S = [&](E k) { return genSubst(k, c, v, memo); };
  switch (e->op) {
    case EXTRACT: { E k = S(e->k[0]); if (k != e->k[0]) r = mkExtract(k, e->aux, e->width); break; }
    case ZEXT: { E k = S(e->k[0]); if (k != e->k[0]) r = mkZext(k, e->width); break; }
    case SEXT: { E k = S(e->k[0]); if (k != e->k[0]) r = mkSext(k, e->width); break; }
    case CONCAT: { E x = S(e->k[0]), y = S(e->k[1]); if (x != e->k[0] || y != e->k[1]) r = mkConcat(x, y); break; }
    case ITE: { E q = S(e->k[0]); if (q->isConst()) { r = S(q->c == 1 ? e->k[1] : e->k[2]); break; } E x = S(e->k[1]), y = S(e->k[2]); if (q != e->k[0] || x != e->k[1] || y != e->k[2]) r = mkIte(q, x, y); break; }
    case XOR: case AND: case OR: case EQ: case ADD: case SUB: case ULT: case ULE: case SLT: case SLE: {
      E x = S(e->k[0]), y = S(e->k[1]); if (x != e->k[0] || y != e->k[1]) r = mkBin(e->op, x, y); break; }
    default: break;
  }
  return memo[e] = r;
}
// a plain boolean variable inside a condition, or null
static E boolAtom(E e, int depth = 0) {
  if (depth > 12) return nullptr;
  if (e->op == VAR) return e->width == 1 ? e : nullptr;
  if (e->op == AND || e->op == OR || e->op == XOR || e->op == ITE) for (E k : e->k) if (E r = boolAtom(k, depth + 1)) return r;
  return nullptr;
}
// how often each random piece occurs, modulo 2: 0/1 whatever the conditions, 2 depends
typedef std::map<E, int> Par;
static bool parity(E e, Par& out, int& budget) {
  if (--budget < 0) return false;
  switch (e->op) {
    case CONST: return true;
    case XOR: {
      if (!parity(e->k[0], out, budget)) return false;
      Par q; if (!parity(e->k[1], q, budget)) return false;
      for (auto& p : q) { int& x = out[p.first]; x = (x == 2 || p.second == 2) ? 2 : x ^ p.second; }
      return true;
    }
    case ITE: {
      Par p, q; if (!parity(e->k[1], p, budget) || !parity(e->k[2], q, budget)) return false;
      for (auto& x : p) { auto it = q.find(x.first); int o = it == q.end() ? 0 : it->second; out[x.first] = x.second == o ? o : 2; }
      for (auto& x : q) if (!p.count(x.first)) out[x.first] = x.second == 0 ? 0 : 2;
      return true;
    }
    default: if (!genSimple(e)) return false; out[e] = 1; return true;
  }
}
static void genCuts(E e, uint32_t base, std::set<uint32_t>& out) {
  switch (e->op) {
    case CONCAT: out.insert(base + e->k[1]->width); genCuts(e->k[1], base, out); genCuts(e->k[0], base + e->k[1]->width, out); break;
    case XOR: for (E k : e->k) genCuts(k, base, out); break;
    case ITE: genCuts(e->k[1], base, out); genCuts(e->k[2], base, out); break;
    case ZEXT: out.insert(base + e->k[0]->width); genCuts(e->k[0], base, out); break;
    default: break;
  }
}
// "x == 0" under the assumption that independent random or cipher values never
// cancel; null when x is not of the known shape or too large
static E genZero(E x, int& budget) {
  if (x->isConst()) return mkBool(x->c == 0);
  if (--budget < 0) return nullptr;
  bool rnd = false; E c = nullptr;
  if (!genScan(x, rnd, c)) return nullptr;
  if (c) {
    // some random piece occurs an odd number of times under every condition: never zero
    std::set<uint32_t> cut{0u, x->width};
    genCuts(x, 0, cut);
    uint32_t lo = 0, best = 0;
    for (uint32_t hi : cut) {
      if (hi <= lo) continue;
      E y = mkExtract(x, lo, hi - lo); lo = hi;
      Par m; int b = 400; uint32_t sure = 0;
      if (parity(y, m, b)) for (auto& p : m) if (p.second == 1) sure = std::max(sure, randBits(p.first));
      best += sure;
      if (best >= 32) return mkBool(false);
    }
    if (E at = boolAtom(c)) c = at;
    SubMap m1, m0;
    E p = genZero(genSubst(x, c, true, m1), budget); if (!p) return nullptr;
    E q = genZero(genSubst(x, c, false, m0), budget); if (!q) return nullptr;
    return mkIte(c, p, q);
  }
  // no condition left: cut at every concat boundary, so that each slice is an xor
  // of plain pieces; one slice that does not cancel decides it
  std::set<uint32_t> cut{0u, x->width};
  genCuts(x, 0, cut);
  bool allZero = true;
  uint32_t lo = 0, free = 0;
  for (uint32_t hi : cut) {
    if (hi <= lo) continue;
    E y = mkExtract(x, lo, hi - lo); lo = hi;
    if (isZero(y)) continue;
    allZero = false;
    if (y->isConst()) return mkBool(false);
    std::vector<E> l; xorLeaves(y, l);
    bool ok = true; uint32_t rb = 0;
    for (E z : l) { if (!genSimple(z)) ok = false; else rb = std::max(rb, randBits(z)); }
    if (ok) free += rb;
    if (free >= 32) return mkBool(false);
  }
  return allZero ? mkBool(true) : nullptr;
}
// if-then-else tree whose leaves are all constants
static bool constTree(E e, int& n) {
  if (e->isConst()) return --n >= 0;
  return e->op == ITE && constTree(e->k[1], n) && constTree(e->k[2], n);
}
static E mapTree(Op op, E t, E c, bool left) {
  if (t->isConst()) return left ? mkBin(op, t, c) : mkBin(op, c, t);
  return mkIte(t->k[0], mapTree(op, t->k[1], c, left), mapTree(op, t->k[2], c, left));
}
static void andLeaves(E e, std::vector<E>& out) { if (e->op == AND) { andLeaves(e->k[0], out); andLeaves(e->k[1], out); } else out.push_back(e); }
static unsigned andCount(E e, unsigned lim) { if (e->op != AND) return 1; unsigned a = andCount(e->k[0], lim); return a >= lim ? a : a + andCount(e->k[1], lim); }
// (X & p) | (X & q) = X & (p | q), useful when p | q is a tautology
static E orFactor(E a, E b) {
  if (a->op != AND && b->op != AND) return nullptr;
  if (andCount(a, 24) >= 24 || andCount(b, 24) >= 24) return nullptr;
  std::vector<E> x, y; andLeaves(a, x); andLeaves(b, y);
  E common = mkBool(true), ra = mkBool(true), rb = mkBool(true); bool any = false;
  for (E p : x) { bool hit = false; for (size_t i = 0; i < y.size(); i++) if (y[i] == p) { y.erase(y.begin() + i); hit = true; break; }
    if (hit) { common = mkAnd(common, p); any = true; } else ra = mkAnd(ra, p); }
  for (E p : y) rb = mkAnd(rb, p);
  if (!any) {   // p | (!p & q) = p | q
    return nullptr;
  }
  return mkAnd(common, mkOr(ra, rb));
}
E mkBin(Op op, E a, E b) {
  uint32_t w = a->width;
  if (a->width != b->width) { fprintf(stderr, "mkBin width mismatch op %d: %u %u\n", op, a->width, b->width); abort(); }
  if (a->isConst() && b->isConst()) return mkConst(foldBin(op, a->c, b->c));
  if (a->isConst() != b->isConst() && op != XOR && w > 1 && !(w >= 64 && (op == OR || op == AND))) {
    E t = a->isConst() ? b : a; int n = 12;
    if (t->op == ITE && constTree(t, n)) return mapTree(op, t, a->isConst() ? a : b, t == a);
  }
  switch (op) {
    case XOR: return mkXor(a, b);
    case ADD:
      if (w == 1) return mkXor(a, b);
      if (a->isConst()) std::swap(a, b);
      if (isZero(b)) return a;
      if (b->isConst() && a->op == ADD && a->k[1]->isConst()) return mkBin(ADD, a->k[0], mkConst(a->k[1]->c + b->c));
      if (b->isConst() && a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkBin(ADD, a->k[1], b), mkBin(ADD, a->k[2], b));
      if (a->op == ADD && a->k[1]->isConst()) return mkBin(ADD, mkBin(ADD, a->k[0], b), a->k[1]);
      if (b->op == ADD && b->k[1]->isConst()) return mkBin(ADD, mkBin(ADD, a, b->k[0]), b->k[1]);
      if (!b->isConst() && a->id > b->id) std::swap(a, b);
      return mk2(ADD, w, a, b);
    case SUB:
      if (w == 1) return mkXor(a, b);
      if (isZero(b)) return a;
      if (isZero(a) && b->op == ZEXT && b->k[0]->width == 1) return mkSext(b->k[0], w);
      if (a == b) return mkConst(APInt(w, 0));
      if (b->isConst()) return mkBin(ADD, a, mkConst(-b->c));
      if (a->op == ADD && a->k[1]->isConst()) {
        if (a->k[0] == b) return a->k[1];
        if (b->op == ADD && b->k[1]->isConst()) return mkBin(ADD, mkBin(SUB, a->k[0], b->k[0]), mkConst(a->k[1]->c - b->k[1]->c));
      }
      if (b->op == ADD && b->k[1]->isConst() && b->k[0] == a) return mkConst(-b->k[1]->c);
      return mk2(SUB, w, a, b);
    case MUL:
      if (a->isConst()) std::swap(a, b);
      if (isZero(b)) return b;
      if (b->isConst() && b->c == 1) return a;
      if (b->isConst() && b->c.isPowerOf2()) return mkBin(SHL, a, mkConst(w, b->c.logBase2()));
      if (b->isConst() && a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkBin(MUL, a->k[1], b), mkBin(MUL, a->k[2], b));
      if (!b->isConst() && a->id > b->id) std::swap(a, b);
      return mk2(MUL, w, a, b);
    case UDIV:
      if (b->isConst() && b->c == 1) return a;
      if (b->isConst() && b->c.isPowerOf2()) return mkBin(LSHR, a, mkConst(w, b->c.logBase2()));
      return mk2(op, w, a, b);
    case UREM:
      if (b->isConst() && b->c.isPowerOf2()) return mkBin(AND, a, mkConst(b->c - 1));
      return mk2(op, w, a, b);
    case SDIV: case SREM: return mk2(op, w, a, b);
    case AND:
      if (a->isConst()) std::swap(a, b);
      if (isZero(b)) return b;
      if (isOnes(b) || a == b) return a;
      if (w == 1 && isNotOf(a, b)) return mkBool(false);
      if (w == 1) for (int sw = 0; sw < 2; sw++) {   // x & (.. | x | ..)
        E x = sw ? b : a, o = sw ? a : b;
        for (int i = 0; o->op == OR && i < 400; i++) { if (o->k[0] == x || o->k[1] == x) return x; o = o->k[1]->op == OR ? o->k[1] : o->k[0]; }
      }
      if (w > 1) for (int sw = 0; sw < 2; sw++) {   // x & sext(bit)
        if (a->op == SEXT && a->k[0]->width == 1) return mkIte(a->k[0], b, mkConst(APInt(w, 0)));
        std::swap(a, b);
      }
      if (b->isConst()) {
        // contiguous low mask: zext(extract)
        unsigned lz = b->c.countLeadingZeros(), tz = b->c.countTrailingZeros();
        if (tz == 0 && (b->c + 1).isPowerOf2()) return mkZext(mkExtract(a, 0, w - lz), w);
        // single-run mask in the middle
        if (b->c.popcount() == w - lz - tz && tz > 0)
          return mkConcat(mkZext(mkExtract(a, tz, w - lz - tz), w - tz), mkConst(APInt(tz, 0)));
        if (a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkBin(AND, a->k[1], b), mkBin(AND, a->k[2], b));
        if (a->op == AND && a->k[1]->isConst()) return mkBin(AND, a->k[0], mkConst(a->k[1]->c & b->c));
      }
      if (a->op == ZEXT && b->op == ZEXT && a->k[0]->width == b->k[0]->width) return mkZext(mkBin(AND, a->k[0], b->k[0]), w);
      if (!b->isConst() && a->id > b->id) std::swap(a, b);
      if (w == 1 && b->op == AND && (b->k[0] == a || b->k[1] == a)) return b;
      if (w == 1 && a->op == AND && (a->k[0] == b || a->k[1] == b)) return a;
      return mk2(AND, w, a, b);
    case OR:
      if (a->isConst()) std::swap(a, b);
      if (isZero(b) || a == b) return a;
      if (isOnes(b)) return b;
      if (w == 1 && isNotOf(a, b)) return mkBool(true);
      if (w == 1) if (E f = orFactor(a, b)) return f;
      if (w < 64 && b->isConst() && a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkBin(OR, a->k[1], b), mkBin(OR, a->k[2], b));
      if (a->op == ZEXT && b->op == ZEXT && a->k[0]->width == b->k[0]->width) return mkZext(mkBin(OR, a->k[0], b->k[0]), w);
      // or of disjoint pieces: zext(x) | (y << n)
      for (int sw = 0; sw < 2; sw++) {
        if (a->op == ZEXT && b->op == CONCAT && b->k[1]->isConst() && isZero(b->k[1]) && a->k[0]->width <= b->k[1]->width)
          return mkConcat(b->k[0], mkZext(a->k[0], b->k[1]->width));
        std::swap(a, b);
      }
      if (b->isConst() && !a->isConst() && b->c.isPowerOf2() && false) {}
      if (!b->isConst() && a->id > b->id) std::swap(a, b);
      if (w > 1 && b->isConst() && b->c == 1) return mkConcat(mkExtract(a, 1, w - 1), mkConst(1, 1));
      return mk2(OR, w, a, b);
    case SHL:
      if (isZero(b)) return a;
      if (isZero(a)) return a;
      if (b->isConst()) {
        if (b->c.uge(w)) return mkConst(APInt(w, 0));
        unsigned s = b->c.getZExtValue();
        return mkConcat(mkExtract(a, 0, w - s), mkConst(APInt(s, 0)));
      }
      return mk2(op, w, a, b);
    case LSHR:
      if (isZero(b)) return a;
      if (isZero(a)) return a;
      if (b->isConst()) {
        if (b->c.uge(w)) return mkConst(APInt(w, 0));
        unsigned s = b->c.getZExtValue();
        return mkZext(mkExtract(a, s, w - s), w);
      }
      return mk2(op, w, a, b);
    case ASHR:
      if (isZero(b)) return a;
      if (isZero(a)) return a;
      if (b->isConst()) {
        unsigned s = b->c.uge(w) ? w - 1 : b->c.getZExtValue();
        return mkSext(mkExtract(a, s, w - s), w);
      }
      return mk2(op, w, a, b);
    case EQ: {
      if (a == b) return mkBool(true);
      if (gGeneric && w >= 32) {
        E x = mkXor(a, b);
        if (x->isConst()) return mkBool(x->c == 0);
        bool rnd = false; E c = nullptr;
        if (genScan(x, rnd, c) && rnd) {
          int budget = 128;
          if (E r = genZero(x, budget)) return r;
        }
      }
      if (a->isConst()) std::swap(a, b);
      if (w == 1) { if (b->isConst()) return b->c == 1 ? a : mkNot(a); }
      if (b->isConst()) {
        if ((a->op == ITE || a->op == OR || a->op == AND) && knownOnes(a).intersects(~b->c)) return mkBool(false);
        if (a->op == ITE) {
          E x = a->k[1], y = a->k[2];
          if (x->isConst() && y->isConst()) {
            bool xe = x->c == b->c, ye = y->c == b->c;
            if (xe && ye) return mkBool(true);
            if (xe) return a->k[0];
            if (ye) return mkNot(a->k[0]);
            return mkBool(false);
          }
          if (x->isConst() || y->isConst() || x->op == ITE || y->op == ITE)
            return mkIte(a->k[0], mkEq(x, b), mkEq(y, b));
        }
        if (a->op == ZEXT) {
          uint32_t iw = a->k[0]->width;
          if (b->c.getActiveBits() > iw) return mkBool(false);
          return mkEq(a->k[0], mkConst(b->c.trunc(iw)));
        }
        if (a->op == SEXT) {
          uint32_t iw = a->k[0]->width;
          APInt t = b->c.trunc(iw);
          if (t.sext(w) != b->c) return mkBool(false);
          return mkEq(a->k[0], mkConst(t));
        }
        if (a->op == CONCAT) {
          uint32_t lw = a->k[1]->width;
          return mkAnd(mkEq(a->k[0], mkConst(b->c.extractBits(w - lw, lw))), mkEq(a->k[1], mkConst(b->c.trunc(lw))));
        }
        if (a->op == ADD && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->c - a->k[1]->c));
        if (a->op == XOR && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->c ^ a->k[1]->c));
      } else {
        if (a->op == ADD && b->op == ADD && a->k[1]->isConst() && a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
        if (a->op == ADD && a->k[1]->isConst() && a->k[0] == b) return mkBool(false);  // constant is non-zero
        if (b->op == ADD && b->k[1]->isConst() && b->k[0] == a) return mkBool(false);
        if (a->op == ZEXT && b->op == ZEXT && a->k[0]->width == b->k[0]->width) return mkEq(a->k[0], b->k[0]);
        if (a->op == XOR || b->op == XOR) {
          // cancel common XOR leaves
          E x = mkXor(a, b);
          if (x->isConst()) return mkBool(x->c == 0);
        }
        if (w == 1) return mkNot(mkXor(a, b));
      }
      if (!b->isConst() && a->id > b->id) std::swap(a, b);
      return mk2(EQ, 1, a, b);
    }
    case ULT:
      if (a == b) return mkBool(false);
      if (isZero(b)) return mkBool(false);
      if (isZero(a)) return mkNot(mkEq(b, a));
      if (b->isConst() && b->c == 1) return mkEq(a, mkConst(APInt(w, 0)));
      if (a->op == ZEXT && b->isConst()) {
        uint32_t iw = a->k[0]->width;
        if (b->c.getActiveBits() > iw) return mkBool(true);
        return mkBin(ULT, a->k[0], mkConst(b->c.trunc(iw)));
      }
      if (b->op == ZEXT && a->isConst()) {
        uint32_t iw = b->k[0]->width;
        if (a->c.getActiveBits() > iw) return mkBool(false);
        return mkBin(ULT, mkConst(a->c.trunc(iw)), b->k[0]);
      }
      if (a->op == ZEXT && b->op == ZEXT && a->k[0]->width == b->k[0]->width) return mkBin(ULT, a->k[0], b->k[0]);
      if (a->op == ITE && b->isConst() && (a->k[1]->isConst() || a->k[2]->isConst())) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
      if (b->op == ITE && a->isConst() && (b->k[1]->isConst() || b->k[2]->isConst())) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
      return mk2(ULT, 1, a, b);
    case ULE: return mkNot(mkBin(ULT, b, a));
    case SLT:
      if (a == b) return mkBool(false);
      if (a->op == ZEXT && b->isConst() && w > a->k[0]->width) { if (b->c.isNegative()) return mkBool(false); return mkBin(ULT, a, b); }
      if (b->op == ZEXT && a->isConst() && w > b->k[0]->width) { if (a->c.isNegative()) return mkBool(true); return mkBin(ULT, a, b); }
      if (a->op == ZEXT && b->op == ZEXT && w > a->k[0]->width && w > b->k[0]->width) return mkBin(ULT, a, b);
      if (isZero(b)) return mkExtract(a, w - 1, 1);
      if (isOnes(a)) return mkNot(mkExtract(b, w - 1, 1));
      if (a->op == ITE && b->isConst() && (a->k[1]->isConst() || a->k[2]->isConst())) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
      if (b->op == ITE && a->isConst() && (b->k[1]->isConst() || b->k[2]->isConst())) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
      return mk2(SLT, 1, a, b);
    case SLE: return mkNot(mkBin(SLT, b, a));
    default: abort();
  }
}
E mkIte(E c, E a, E b) {
  if (c->isConst()) return c->c == 1 ? a : b;
  if (a == b) return a;
  if (a->op == TUPLE) {
    std::vector<E> v;
    for (size_t i = 0; i < a->k.size(); i++) v.push_back(mkIte(c, a->k[i], b->k[i]));
    return mkTuple(v);
  }
  // canonical polarity: condition is not a negation
  if (c->op == XOR && c->k[1]->isConst()) return mkIte(mkNot(c), b, a);
  if (a->op == ITE && a->k[0] == c) a = a->k[1];
  if (b->op == ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  if (a->width == 1) {
    if (a->isConst() && b->isConst()) return a->c == 1 ? c : mkNot(c);
    if (a->isConst()) return a->c == 1 ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isConst()) return b->c == 1 ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
    if (mkNot(a) == b) return mkNot(mkXor(c, a));
  }
  for (int pol = 0; pol < 2; pol++) {   // both sides narrower than the result
    E x = pol ? b : a, y = pol ? a : b;
    if (x->op != ZEXT) continue;
    uint32_t iw = x->k[0]->width; E z = y->op == ZEXT && y->k[0]->width == iw ? y->k[0] : y->isConst() && y->c.getActiveBits() <= iw ? mkConst(y->c.trunc(iw)) : nullptr;
    if (!z) continue;
    return mkZext(pol ? mkIte(c, z, x->k[0]) : mkIte(c, x->k[0], z), a->width);
  }
  // conditional bit updates: keep the base value shared
  if (a->width >= 64) for (int pol = 0; pol < 2; pol++) {
    E x = pol ? b : a, y = pol ? a : b;
    if (x->op != OR && x->op != AND) continue;
    E o = x->k[0] == y ? x->k[1] : x->k[1] == y ? x->k[0] : nullptr;
    if (!o || !o->isConst()) continue;
    E u = mkConst(x->op == OR ? APInt(a->width, 0) : APInt::getAllOnes(a->width));
    return mkBin(x->op, y, pol ? mkIte(c, u, o) : mkIte(c, o, u));
  }
  // a single bit set on one side and clear on the other
  if (a->width > 1) for (int pol = 0; pol < 2; pol++) {
    E x = pol ? b : a, y = pol ? a : b; uint32_t w = a->width;
    if (x->op == CONST && y->op == CONST) {
      if (!(x->c ^ y->c).isPowerOf2() || !x->c.intersects(x->c ^ y->c)) continue;
    } else if (x->op != OR || !x->k[1]->isConst() || !x->k[1]->c.isPowerOf2()) continue;
    uint32_t p = x->op == CONST ? (x->c ^ y->c).logBase2() : x->k[1]->c.logBase2();
    E bit = mkExtract(y, p, 1);
    if (!isZero(bit)) continue;
    if (p > 0 && mkExtract(x, 0, p) != mkExtract(y, 0, p)) continue;
    if (p + 1 < w && mkExtract(x, p + 1, w - p - 1) != mkExtract(y, p + 1, w - p - 1)) continue;
    E r = pol ? mkNot(c) : c;
    if (p > 0) r = mkConcat(r, mkExtract(y, 0, p));
    if (p + 1 < w) r = mkConcat(mkExtract(y, p + 1, w - p - 1), r);
    return r;
  }
  Expr t; t.op = ITE; t.width = a->width; t.aux = 0; t.k = {c, a, b};
  if (a->width != b->width) { fprintf(stderr, "ite width mismatch\n"); abort(); }
  return intern(t);
}
static E mkExtract1(E a, uint32_t lo, uint32_t w);
struct XKey { E e; uint32_t lo, w; bool operator==(const XKey& o) const { return e == o.e && lo == o.lo && w == o.w; } };
struct XHash { size_t operator()(const XKey& k) const { return (size_t)k.e * 0x9E3779B97F4A7C15ULL ^ ((size_t)k.lo << 20) * 0x85EBCA6B ^ k.w * 0xC2B2AE35u; } };
static std::unordered_map<XKey, E, XHash> gXMemo;
E mkExtract(E a, uint32_t lo, uint32_t w) {
  if (lo == 0 && w == a->width) return a;
  switch (a->op) {
    case ITE: case XOR: case AND: case OR: case ADD: case SUB: case MUL: case CONCAT: {
      auto it = gXMemo.find({a, lo, w});
      if (it != gXMemo.end()) return it->second;
      E r = mkExtract1(a, lo, w);
      gXMemo[{a, lo, w}] = r;
      return r;
    }
    default: return mkExtract1(a, lo, w);
  }
}
static E mkExtract1(E a, uint32_t lo, uint32_t w) {
  if (lo == 0 && w == a->width) return a;
  if (w == 0 || lo + w > a->width) { fprintf(stderr, "bad extract %u+%u of %u\n", lo, w, a->width); abort(); }
  switch (a->op) {
    case CONST: return mkConst(a->c.extractBits(w, lo));
    case EXTRACT: return mkExtract(a->k[0], a->aux + lo, w);
    case CONCAT: {
      uint32_t lw = a->k[1]->width;
      if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case ZEXT: {
      uint32_t iw = a->k[0]->width;
      if (lo >= iw) return mkConst(APInt(w, 0));
      if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
      return mkZext(mkExtract(a->k[0], lo, iw - lo), w);
    }
    case SEXT: {
      uint32_t iw = a->k[0]->width;
      if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
      if (lo >= iw) return mkSext(mkExtract(a->k[0], iw - 1, 1), w);
      return mkSext(mkExtract(a->k[0], lo, iw - lo), w);
    }
    case XOR: case AND: case OR: return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case ITE: return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
    case ADD: case SUB: case MUL:
      if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
      break;
    default: break;
  }
  Expr t; t.op = EXTRACT; t.width = w; t.aux = lo; t.k = {a};
  return intern(t);
}
E mkTrunc(E a, uint32_t w) { return mkExtract(a, 0, w); }
// hi:lo as one term when they are neighbouring pieces of the same value (possibly
// under xor or a common if-then-else); null otherwise
static E fuse(E h, E l, int depth = 0) {
  if (depth > 40) return nullptr;
  if (h->isConst() && l->isConst()) return mkConst(h->c.zext(h->width + l->width).shl(l->width) | l->c.zext(h->width + l->width));
  if (h->op == EXTRACT && l->op == EXTRACT) return h->k[0] == l->k[0] && h->aux == l->aux + l->width ? mkExtract(h->k[0], l->aux, h->width + l->width) : nullptr;
  if (l->op == CONCAT) { E f = fuse(h, l->k[0], depth + 1); return f ? mkConcat(f, l->k[1]) : nullptr; }
  if (h->op == CONCAT) { E f = fuse(h->k[1], l, depth + 1); return f ? mkConcat(h->k[0], f) : nullptr; }
  if (h->op == ITE && l->op == ITE && h->k[0] == l->k[0]) {
    E x = fuse(h->k[1], l->k[1], depth + 1); if (!x) return nullptr;
    E y = fuse(h->k[2], l->k[2], depth + 1); if (!y) return nullptr;
    return mkIte(h->k[0], x, y);
  }
  if (h->op == XOR || l->op == XOR) {
    if (xorCount(h, 64) >= 64 || xorCount(l, 64) >= 64) return nullptr;
    std::vector<E> a, b; xorLeaves(h, a); xorLeaves(l, b);
    E ca = mkConst(APInt(h->width, 0)), cb = mkConst(APInt(l->width, 0));
    auto split = [](std::vector<E>& v, E& c) { std::vector<E> r; for (E x : v) if (x->isConst()) c = mkConst(c->c ^ x->c); else r.push_back(x); v = r; };
    split(a, ca); split(b, cb);
    if (a.size() != b.size() || a.empty()) return nullptr;
    E r = fuse(ca, cb);
    for (E x : a) {
      E f = nullptr;
      for (size_t i = 0; i < b.size(); i++) if ((f = fuse(x, b[i], depth + 1))) { b.erase(b.begin() + i); break; }
      if (!f) return nullptr;
      r = mkXor(r, f);
    }
    return r;
  }
  return nullptr;
}
E mkConcat(E hi, E lo) {
  if (hi->isConst() && lo->isConst()) {
    APInt r = hi->c.zext(hi->width + lo->width).shl(lo->width) | lo->c.zext(hi->width + lo->width);
    return mkConst(r);
  }
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->width)
    return mkExtract(hi->k[0], lo->aux, hi->width + lo->width);
  if (isZero(hi)) return mkZext(lo, hi->width + lo->width);
  if (hi->op == XOR || (hi->op == ITE && lo->op == ITE)) if (E f = fuse(hi, lo)) return f;
  if (hi->op == EXTRACT && lo->op == XOR) if (E f = fuse(hi, lo)) return f;
  // right-nested normal form with merging of neighbours
  if (hi->op == CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  if (lo->op == CONCAT) {
    E m = lo->k[0];
    if (hi->op == XOR || hi->op == ITE || (hi->op == EXTRACT && m->op == XOR)) { if (E f = fuse(hi, m)) return mkConcat(f, lo->k[1]); }
    if ((hi->isConst() && m->isConst()) || (hi->op == EXTRACT && m->op == EXTRACT && hi->k[0] == m->k[0] && hi->aux == m->aux + m->width))
      return mkConcat(mkConcat(hi, m), lo->k[1]);
  }
  if (hi->op == ITE && lo->op == ITE && hi->k[0] == lo->k[0])
    return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  Expr t; t.op = CONCAT; t.width = hi->width + lo->width; t.aux = 0; t.k = {hi, lo};
  return intern(t);
}
E mkZext(E a, uint32_t w) {
  if (w == a->width) return a;
  if (w < a->width) { fprintf(stderr, "bad zext\n"); abort(); }
  if (a->isConst()) return mkConst(a->c.zext(w));
  if (a->op == ZEXT) return mkZext(a->k[0], w);
  if (a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
  Expr t; t.op = ZEXT; t.width = w; t.aux = 0; t.k = {a};
  return intern(t);
}
E mkSext(E a, uint32_t w) {
  if (w == a->width) return a;
  if (a->isConst()) return mkConst(a->c.sext(w));
  if (a->op == SEXT) return mkSext(a->k[0], w);
  if (a->op == ZEXT) return mkZext(a->k[0], w);
  if (a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  Expr t; t.op = SEXT; t.width = w; t.aux = 0; t.k = {a};
  return intern(t);
}
E mkTuple(const std::vector<E>& v) { Expr t; t.op = TUPLE; t.width = 0; t.aux = 0; t.k = v; return intern(t); }

static Z3_ast toZ3r(Z3_context c, E e) {
  if (e->ast) return e->ast;
  // iterative post-order to avoid deep recursion
  std::vector<std::pair<E, size_t>> st;
  st.push_back({e, 0});
  while (!st.empty()) {
    E x = st.back().first;
    if (x->ast) { st.pop_back(); continue; }
    if (!(gUfOpaque && x->op == UF) && st.back().second < x->k.size()) { E ch = x->k[st.back().second++]; if (!ch->ast) st.push_back({ch, 0}); continue; }
    Z3_ast r = nullptr;
    auto k = [&](int i) { return x->k[i]->ast; };
    auto b2v = [&](Z3_ast b) {  // Bool -> BV1
      Z3_sort s = Z3_mk_bv_sort(c, 1);
      return Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s));
    };
    switch (x->op) {
      case CONST: {
        llvm::SmallString<64> s; x->c.toString(s, 10, false);
        r = Z3_mk_numeral(c, s.c_str(), Z3_mk_bv_sort(c, x->width)); break;
      }
      case VAR: r = Z3_mk_const(c, Z3_mk_string_symbol(c, gVars[x->aux].name.c_str()), Z3_mk_bv_sort(c, x->width)); break;
      case UF: if (gUfOpaque) { r = Z3_mk_const(c, Z3_mk_string_symbol(c, ("uf!" + std::to_string(x->id)).c_str()), Z3_mk_bv_sort(c, x->width)); break; } else {
        UFInfo& u = gUFs[x->aux];
        if (!u.decl) {
          std::vector<Z3_sort> d; for (uint32_t w : u.args) d.push_back(Z3_mk_bv_sort(c, w));
          u.decl = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, u.name.c_str()), d.size(), d.data(), Z3_mk_bv_sort(c, u.ret));
          Z3_inc_ref(c, Z3_func_decl_to_ast(c, u.decl));
        }
        std::vector<Z3_ast> a; for (E y : x->k) a.push_back(y->ast);
        r = Z3_mk_app(c, u.decl, a.size(), a.data()); break;
      }
      case ADD: r = Z3_mk_bvadd(c, k(0), k(1)); break;
      case SUB: r = Z3_mk_bvsub(c, k(0), k(1)); break;
      case MUL: r = Z3_mk_bvmul(c, k(0), k(1)); break;
      case UDIV: r = Z3_mk_bvudiv(c, k(0), k(1)); break;
      case SDIV: r = Z3_mk_bvsdiv(c, k(0), k(1)); break;
      case UREM: r = Z3_mk_bvurem(c, k(0), k(1)); break;
      case SREM: r = Z3_mk_bvsrem(c, k(0), k(1)); break;
      case AND: r = Z3_mk_bvand(c, k(0), k(1)); break;
      case OR: r = Z3_mk_bvor(c, k(0), k(1)); break;
      case XOR: r = Z3_mk_bvxor(c, k(0), k(1)); break;
      case SHL: r = Z3_mk_bvshl(c, k(0), k(1)); break;
      case LSHR: r = Z3_mk_bvlshr(c, k(0), k(1)); break;
      case ASHR: r = Z3_mk_bvashr(c, k(0), k(1)); break;
      case EQ: r = b2v(Z3_mk_eq(c, k(0), k(1))); break;
      case ULT: r = b2v(Z3_mk_bvult(c, k(0), k(1))); break;
      case ULE: r = b2v(Z3_mk_bvule(c, k(0), k(1))); break;
      case SLT: r = b2v(Z3_mk_bvslt(c, k(0), k(1))); break;
      case SLE: r = b2v(Z3_mk_bvsle(c, k(0), k(1))); break;
      case ITE: {
        Z3_ast cond = Z3_mk_eq(c, k(0), Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)));
        r = Z3_mk_ite(c, cond, k(1), k(2)); break;
      }
      case CONCAT: r = Z3_mk_concat(c, k(0), k(1)); break;
      case EXTRACT: r = Z3_mk_extract(c, x->aux + x->width - 1, x->aux, k(0)); break;
      case ZEXT: r = Z3_mk_zero_ext(c, x->width - x->k[0]->width, k(0)); break;
      case SEXT: r = Z3_mk_sign_ext(c, x->width - x->k[0]->width, k(0)); break;
      case TUPLE: fprintf(stderr, "tuple to z3\n"); abort();
    }
    Z3_inc_ref(c, r);
    x->ast = r;
    st.pop_back();
  }
  return e->ast;
}
Z3_ast toZ3(Z3_context c, E e) { return toZ3r(c, e); }

static std::unordered_map<E, std::vector<uint32_t>*> gLeaf;
// leaf ids: variables 2*id; UF symbols 2*id+1
static const std::vector<uint32_t>& leavesOf(E e) {
  auto it = gLeaf.find(e);
  if (it != gLeaf.end()) return *it->second;
  std::vector<std::pair<E, size_t>> st;
  st.push_back({e, 0});
  while (!st.empty()) {
    E x = st.back().first;
    if (gLeaf.count(x)) { st.pop_back(); continue; }
    if (!(gUfOpaque && x->op == UF) && st.back().second < x->k.size()) { E ch = x->k[st.back().second++]; if (!gLeaf.count(ch)) st.push_back({ch, 0}); continue; }
    auto* v = new std::vector<uint32_t>();
    if (x->op == VAR) v->push_back(2 * x->aux);
    else if (x->op == UF) v->push_back(gUfOpaque ? (0x80000000u | 2 * x->id) : 2 * x->aux + 1);
    if (!(gUfOpaque && x->op == UF)) for (E ch : x->k) {
      std::vector<uint32_t> t;
      auto& o = *gLeaf[ch];
      std::set_union(v->begin(), v->end(), o.begin(), o.end(), std::back_inserter(t));
      v->swap(t);
    }
    gLeaf[x] = v;
    st.pop_back();
  }
  return *gLeaf[e];
}
void collectLeaves(E e, std::vector<uint32_t>& out) { out = leavesOf(e); }

std::string exprStr(E e, int d) {
  static const char* n[] = {"const","var","uf","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","tuple"};
  if (e->isConst()) { llvm::SmallString<64> s; e->c.toString(s, 16, false); return std::string("0x") + s.c_str(); }
  if (e->op == VAR) return gVars[e->aux].name;
  if (d == 0) return "...";
  std::string r = "(";
  r += e->op == UF ? gUFs[e->aux].name : n[e->op];
  if (e->op == EXTRACT) r += ":" + std::to_string(e->aux) + "+" + std::to_string(e->width);
  for (E x : e->k) r += " " + exprStr(x, d - 1);
  return r + ")";
}
