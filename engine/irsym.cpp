// irsym: symbolic executor for LLVM IR.  Executes the IR of the real sources
// (plus a harness) with bit-vector terms for inputs, forks or merges at
// symbolic branches and asks Z3 to decide every branch and every assertion.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <functional>
#include <memory>
#include <set>
#include <unordered_set>
#include <list>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <pthread.h>
#include <unistd.h>
#include <algorithm>

using namespace llvm;
using std::vector; using std::string; using std::map; using std::shared_ptr; using std::unique_ptr;

// ---------------------------------------------------------------- options
static struct Opt {
  string module, entry = "harness_main", out = "result.json";
  unsigned shard = 0, shards = 1;
  uint64_t maxInstrPath = 20000000, maxPaths = 1000000;
  double timeBudget = 600;
  unsigned queryTimeout = 60000;
  unsigned maxViol = 1;
  uint64_t maxForkDepth = 100000;
  string seed = "1";
  vector<std::pair<string,int64_t>> params, pins;
  bool trace = false;
  uint32_t forkSelect = 0;   // fork (do not build an if-then-else) for selects at least this wide
  string force;
} opt;

static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}
static double tStart;

// ---------------------------------------------------------------- statistics
static struct Stats {
  uint64_t instr = 0, paths = 0, killed = 0, forks = 0, merges = 0, mergeFail = 0;
  uint64_t queries = 0, qsat = 0, qunsat = 0, qunknown = 0, cacheHits = 0, modelHits = 0;
  double solverTime = 0, maxQuery = 0;
  uint64_t asserts = 0, assertsSolved = 0, assertsTrivial = 0, assertsUnknown = 0;
  uint64_t fpHavoc = 0;

} st;
static std::map<string, uint64_t> gCovers;
static std::set<string> gFuncs;
static std::map<string, uint64_t> gInconclusive;
static std::map<string, uint64_t> gNotes;

// ---------------------------------------------------------------- solver
static Z3_context Z;
static Z3_solver gSolver;
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
enum Res { SAT, UNSAT, UNKNOWN };
struct Model { Z3_model m = nullptr; ~Model() { if (m) Z3_model_dec_ref(Z, m); } };
typedef shared_ptr<Model> ModelP;

static void initSolver() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  Z = Z3_mk_context(cfg);
  Z3_set_error_handler(Z, z3err);
}
static Res runSolver(const vector<E>& cs, ModelP* out) {
  double t0 = now();
  st.queries++;
  bool uf = false;
  {
    vector<uint32_t> l;
    for (E e : cs) { collectLeaves(e, l); for (uint32_t x : l) if (x & 1) uf = true; }
  }
  Z3_solver s = uf ? Z3_mk_simple_solver(Z) : Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
  Z3_solver_inc_ref(Z, s);
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), opt.queryTimeout);
  Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p);
  Z3_ast one = Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1));
  for (E e : cs) Z3_solver_assert(Z, s, Z3_mk_eq(Z, toZ3(Z, e), one));
  Z3_lbool r = Z3_solver_check(Z, s);
  if (r == Z3_L_TRUE && out) {
    auto m = std::make_shared<Model>();
    m->m = Z3_solver_get_model(Z, s);
    Z3_model_inc_ref(Z, m->m);
    *out = m;
  }
  Z3_solver_dec_ref(Z, s);
  double dt = now() - t0;
  st.solverTime += dt; if (dt > st.maxQuery) st.maxQuery = dt;
  if (getenv("IRSYM_SLOW") && dt > atof(getenv("IRSYM_SLOW"))) {
    fprintf(stderr, "slow query %.1fs (%zu constraints)\n", dt, cs.size());
    for (E e : cs) fprintf(stderr, "   %s\n", exprStr(e, 7).c_str());
  }
  if (r == Z3_L_TRUE) { st.qsat++; return SAT; }
  if (r == Z3_L_FALSE) { st.qunsat++; return UNSAT; }
  st.qunknown++;
  return UNKNOWN;
}
static std::map<vector<uint32_t>, Res> gQCache;
static vector<E> slicePC(const vector<E>& pc, E cond) {
  vector<uint32_t> have; collectLeaves(cond, have);
  std::set<uint32_t> S(have.begin(), have.end());
  vector<char> in(pc.size(), 0);
  bool ch = true;
  vector<uint32_t> l;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!in[i]) {
      collectLeaves(pc[i], l);
      bool hit = false;
      for (uint32_t x : l) if (S.count(x)) { hit = true; break; }
      if (hit) { in[i] = 1; ch = true; S.insert(l.begin(), l.end()); }
    }
  }
  vector<E> r;
  for (size_t i = 0; i < pc.size(); i++) if (in[i]) r.push_back(pc[i]);
  return r;
}
// Recent satisfying assignments: a query one of them satisfies needs no solver call.
static APInt evalModel(const ModelP& m, E e);
struct Asg { std::unordered_map<E, APInt> v; };   // leaves and memoised nodes
static std::list<unique_ptr<Asg>> gAsg;
static const APInt& evalAsg(Asg& a, E e0) {
  vector<E> st{e0};
  while (!st.empty()) {
    E e = st.back();
    if (a.v.count(e)) { st.pop_back(); continue; }
    bool leaf = e->op == VAR || e->op == CONST || e->op == UF;
    if (!leaf) { bool rdy = true; for (E k : e->k) if (!a.v.count(k)) { st.push_back(k); rdy = false; } if (!rdy) continue; }
    st.pop_back();
    auto K = [&](int i) -> const APInt& { return a.v.find(e->k[i])->second; };
    APInt r(e->width ? e->width : 1, 0);
    switch (e->op) {
      case CONST: r = e->c; break;
      case VAR: case UF: break;
      case ITE: r = K(0) == 1 ? K(1) : K(2); break;
      case EXTRACT: r = K(0).extractBits(e->width, e->aux); break;
      case CONCAT: r = K(0).zext(e->width).shl(e->k[1]->width) | K(1).zext(e->width); break;
      case ZEXT: r = K(0).zext(e->width); break;
      case SEXT: r = K(0).sext(e->width); break;
      case TUPLE: break;
      default: r = foldBin(e->op, K(0), K(1));
    }
    a.v.emplace(e, r);
  }
  return a.v.find(e0)->second;
}
static bool usesUF(const vector<E>& cs) {
  vector<uint32_t> l;
  for (E e : cs) { collectLeaves(e, l); for (uint32_t x : l) if (x & 1) return true; }
  return false;
}
static Asg* asgFind(const vector<E>& cs) {
  for (auto it = gAsg.begin(); it != gAsg.end(); ++it) {
    bool ok = true;
    for (size_t i = cs.size(); i-- > 0;) if (evalAsg(**it, cs[i]) != 1) { ok = false; break; }
    if (ok) { if (it != gAsg.begin()) gAsg.splice(gAsg.begin(), gAsg, it); return gAsg.front().get(); }
  }
  return nullptr;
}
static void asgKeep(const vector<E>& cs, const ModelP& m) {
  unique_ptr<Asg> a(new Asg);
  vector<E> st(cs.begin(), cs.end()); std::unordered_set<E> seen;
  while (!st.empty()) {
    E e = st.back(); st.pop_back();
    if (!seen.insert(e).second) continue;
    if (e->op == VAR || e->op == UF) { a->v.emplace(e, evalModel(m, e)); continue; }
    for (E k : e->k) st.push_back(k);
  }
  if (gAsg.size() >= 24) gAsg.pop_back();
  for (auto& x : gAsg) if (x->v.size() > 20000) { std::unordered_map<E, APInt> k; for (auto& p : x->v) if (p.first->op == VAR || p.first->op == UF) k.insert(p); x->v.swap(k); }
  gAsg.push_front(std::move(a));
}
static Res check(const vector<E>& pc, E cond, ModelP* m = nullptr, bool full = false) {
  if (cond->isConst() && cond->c == 0) return UNSAT;
  if (cond->isConst() && !m) return SAT;
  vector<E> cs = full ? pc : slicePC(pc, cond);
  if (!cond->isConst()) cs.push_back(cond);
  vector<uint32_t> key;
  if (!m) {
    for (E e : cs) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    auto it = gQCache.find(key);
    if (it != gQCache.end()) { st.cacheHits++; return it->second; }
  }
  bool asg = gUfOpaque || !usesUF(cs);
  if (!m && asg && asgFind(cs)) { st.modelHits++; gQCache[key] = SAT; return SAT; }
  ModelP own; ModelP* mp = m ? m : &own;
  Res r = runSolver(cs, mp);
  if (r == SAT && asg && *mp) asgKeep(cs, *mp);
  if (!m && r != UNKNOWN) gQCache[key] = r;
  return r;
}
static APInt evalModel(const ModelP& m, E e) {
  if (e->isConst()) return e->c;
  Z3_ast r;
  if (!Z3_model_eval(Z, m->m, toZ3(Z, e), true, &r)) return APInt(e->width, 0);
  Z3_inc_ref(Z, r);
  APInt v(e->width, 0);
  if (Z3_get_ast_kind(Z, r) == Z3_NUMERAL_AST) {
    string s = Z3_get_numeral_string(Z, r);
    v = APInt(e->width + 4 > 64 ? e->width + 4 : 64, StringRef(s), 10).trunc(e->width);
  } else {
    string s = Z3_ast_to_string(Z, r);
    fprintf(stderr, "model value not a numeral: %s\n", s.c_str());
  }
  Z3_dec_ref(Z, r);
  return v;
}

// ---------------------------------------------------------------- state
struct Cell { E e; uint32_t idx; };   // byte idx of e (little endian); e==nullptr: uninitialised
struct Obj {
  uint64_t base, size;
  vector<Cell> cells;
  uint8_t kind;     // 0 global 1 stack 2 heap
  bool ro = false;
  string name;
};
typedef shared_ptr<Obj> ObjP;

struct FInfo;
struct Frame {
  FInfo* f; BasicBlock* bb; uint32_t pc; // instruction index within block
  vector<E> regs;
  vector<uint64_t> allocas;
  vector<E> varargs;
};
struct Thread { vector<Frame> fr; bool blocked = false, done = false; uint64_t exnObj = 0; string exnType; };
struct Ev { string kind, name; E e; };  // inputs created, in order (per-path)

struct State {
  vector<Thread> th; unsigned cur = 0;
  map<uint64_t, ObjP> mem;
  vector<E> pc;
  uint64_t next = 0x100000000ULL;
  uint64_t instr = 0;
  vector<Ev> inputs;
  map<string, unsigned> nameCnt;
  vector<std::pair<string, uint64_t>> choices;
  map<string, uint64_t> kv;
  bool merge = false;
  bool shardSeen = false;
  vector<string> curExn;
  map<uint64_t, string> exn;    // live exception objects -> type
  uint64_t uid = 0;
};
typedef unique_ptr<State> StateP;
static std::list<StateP> work;

struct FInfo {
  Function* F;
  std::unordered_map<const Value*, uint32_t> slot;
  uint32_t nslots = 0;
  std::unordered_map<BasicBlock*, vector<Instruction*>> code;
  bool pdtDone = false; std::unordered_map<BasicBlock*, BasicBlock*> ipdom, loopJoin;
  int builtin = -1;
  bool counted = false;
};
static Module* M;
static const DataLayout* DL;
static std::unordered_map<Function*, unique_ptr<FInfo>> gFI;
static std::unordered_map<const GlobalValue*, uint64_t> gAddr;
static map<uint64_t, Function*> gFnAt;
static map<uint64_t, ObjP> gConstMem;      // read-only globals, shared
static std::unordered_map<const Constant*, E> gConstCache;

struct PathEnd { };         // thrown to end the current path
struct Violation { string kind, msg; string where; vector<std::pair<string, string>> vars; vector<std::pair<string,uint64_t>> choices; bool confirmed; };
static vector<Violation> gViol, gWit;
static unsigned gMaxWit = 2;

static string whereStr(State& s) {
  string r;
  auto& fr = s.th[s.cur].fr;
  for (int i = (int)fr.size() - 1; i >= 0 && r.size() < 900; i--) {
    if (!r.empty()) r += " < ";
    r += fr[i].f->F->getName().str();
  }
  return r;
}
static void inconclusive(const string& why) { gInconclusive[why]++; }
static string hexOf(const APInt& v) {
  unsigned n = (v.getBitWidth() + 7) / 8;
  APInt x = v.zext(n * 8);
  string r; char b[4];
  for (unsigned i = 0; i < n; i++) { snprintf(b, 4, "%02x", (unsigned)x.extractBitsAsZExtValue(8, i * 8)); r += b; }
  return r;  // little-endian byte order
}
static void report(State& s, const string& kind, const string& msg, E cond) {
  // cond: additional constraint under which the violation happens
  ModelP m;
  vector<E> cs = s.pc;
  if (cond && !cond->isConst()) cs.push_back(cond);
  Res r = cs.empty() ? SAT : runSolver(cs, &m);
  if (r == UNSAT) { inconclusive("violation condition unsatisfiable: " + msg); return; }
  if (r == UNKNOWN) { inconclusive("solver gave no model for: " + msg); st.assertsUnknown++; return; }
  Violation v; v.kind = kind; v.msg = msg; v.where = whereStr(s); v.choices = s.choices; v.confirmed = true;
  for (auto& i : s.inputs) {
    APInt val(i.e->width, 0);
    if (m) val = evalModel(m, i.e); else if (i.e->isConst()) val = i.e->c;
    v.vars.push_back({i.name, hexOf(val)});
  }
  gViol.push_back(v);
}

// a path ran to its end: keep a concrete input for it (replayed natively as a
// check of the encoding)
static void pathDone(State& s) {
  st.paths++;
  if (gWit.size() >= gMaxWit) return;
  ModelP m; Res r = s.pc.empty() ? SAT : runSolver(s.pc, &m);
  if (r == UNSAT) { gNotes["path ended with unsatisfiable condition"]++; return; }
  if (r == UNKNOWN) return;
  Violation v; v.kind = "witness"; v.choices = s.choices; v.confirmed = true;
  for (auto& i : s.inputs) {
    APInt val(i.e->width, 0);
    if (m) val = evalModel(m, i.e); else if (i.e->isConst()) val = i.e->c;
    v.vars.push_back({i.name, hexOf(val)});
  }
  gWit.push_back(v);
}

// ---------------------------------------------------------------- memory
static ObjP findObj(State& s, uint64_t a, uint64_t n) {
  auto it = s.mem.upper_bound(a);
  if (it != s.mem.begin()) { --it; auto& o = it->second; if (a >= o->base && a + n <= o->base + o->size && a + n >= a) return o; }
  auto ic = gConstMem.upper_bound(a);
  if (ic != gConstMem.begin()) { --ic; auto& o = ic->second; if (a >= o->base && a + n <= o->base + o->size) return o; }
  return nullptr;
}
static uint64_t allocObj(State& s, uint64_t size, uint8_t kind, uint64_t align, const string& name) {
  if (align < 16) align = 16;
  uint64_t a = (s.next + align - 1) / align * align;
  s.next = a + size + 64;
  auto o = std::make_shared<Obj>();
  o->base = a; o->size = size; o->kind = kind; o->name = name;
  o->cells.assign(size, Cell{nullptr, 0});
  s.mem[a] = o;
  return a;
}
static Obj* writable(State& s, ObjP o) {
  auto& r = s.mem[o->base];
  if (r.use_count() > 2 || r != o) { r = std::make_shared<Obj>(*o); return r.get(); }
  // references: map + caller's o  => 2
  return r.get();
}
static string whereStr(State& s);
static bool gFailDump = getenv("IRSYM_FAIL") != nullptr;
static uint64_t gUndefCnt = 0;
static string freshName(State& s, const string& base) {
  unsigned n = s.nameCnt[base]++;
  return base + "#" + std::to_string(n);
}
static E cellByte(State& s, ObjP& o, uint64_t off) {
  Cell& c = o->cells[off];
  if (!c.e) {
    // uninitialised memory: an arbitrary value, fixed from now on
    string nm = freshName(s, "uninit");
    if (gFailDump) fprintf(stderr, "NEW %s in %s+%lu kind %d at %s\n", nm.c_str(), o->name.c_str(), (unsigned long)off, o->kind, whereStr(s).substr(0, 100).c_str());
    E v = mkVar(nm, 8);
    s.inputs.push_back({"var", nm, v});
    Obj* w = writable(s, o);
    w->cells[off] = Cell{v, 0};
    if (w != o.get()) o = s.mem[o->base];
    return v;
  }
  if (c.e->width == 8) return c.e;
  return mkExtract(c.e, c.idx * 8, 8);
}
static E readObj(State& s, ObjP o, uint64_t off, uint32_t nbytes) {
  Cell& c0 = o->cells[off];
  if (c0.e && c0.idx == 0 && c0.e->width == nbytes * 8) {
    bool ok = true;
    for (uint32_t i = 1; i < nbytes; i++) { Cell& c = o->cells[off + i]; if (c.e != c0.e || c.idx != i) { ok = false; break; } }
    if (ok) return c0.e;
  }
  if (nbytes <= 8) {
    bool allc = true; uint64_t v = 0;
    for (uint32_t i = 0; i < nbytes; i++) {
      Cell& c = o->cells[off + i];
      if (!c.e || !c.e->isConst()) { allc = false; break; }
      v |= (uint64_t)(c.e->width == 8 ? c.e->u64() : c.e->c.extractBitsAsZExtValue(8, c.idx * 8)) << (8 * i);
    }
    if (allc) return mkConst(nbytes * 8, v);
  }
  // runs of the same expression become one extract
  E r = nullptr; uint32_t i = 0;
  vector<E> parts;
  while (i < nbytes) {
    Cell c = o->cells[off + i];
    if (!c.e) { parts.push_back(cellByte(s, o, off + i)); i++; continue; }
    uint32_t j = i + 1;
    while (j < nbytes && o->cells[off + j].e == c.e && o->cells[off + j].idx == c.idx + (j - i)) j++;
    parts.push_back(mkExtract(c.e, c.idx * 8, (j - i) * 8));
    i = j;
  }
  for (E p : parts) r = r ? mkConcat(p, r) : p;
  return r;
}
static void writeObj(State& s, ObjP o, uint64_t off, E v, uint32_t nbytes) {
  Obj* w = writable(s, o);
  if (v->width != nbytes * 8) v = mkZext(v, nbytes * 8);
  if (v->isConst()) for (uint32_t i = 0; i < nbytes; i++) w->cells[off + i] = Cell{mkConst(8, v->c.extractBitsAsZExtValue(8, i * 8)), 0};
  else for (uint32_t i = 0; i < nbytes; i++) w->cells[off + i] = Cell{v, i};
}

static void addPC(State& s, E c) {
  if (c->isConst()) return;
  if (c->op == AND && c->width == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
  for (E e : s.pc) if (e == c) return;
  s.pc.push_back(c);
}
static int gFailDepth = getenv("IRSYM_FAIL") ? std::max(6, atoi(getenv("IRSYM_FAIL"))) : 6;
static bool gForkProf = getenv("IRSYM_FORKS") != nullptr;
static std::map<string, uint64_t> gForkAt;
static StateP clone(State& s) { st.forks++; if (gForkProf) gForkAt[whereStr(s).substr(0, 160)]++; return StateP(new State(s)); }
[[noreturn]] static void endPath() { throw PathEnd(); }

// fork: makes the current state continue with cond; the rest is queued with !cond
// (re-executing the current instruction).
static void assumeOrFork(State& s, E cond) {
  if (cond->isConst()) { if (cond->c == 1) return; endPath(); }
  Res a = check(s.pc, cond);
  Res b = check(s.pc, mkNot(cond));
  if (b != UNSAT) {
    StateP o = clone(s);
    addPC(*o, mkNot(cond));
    o->th[o->cur].fr.back().pc--;  // pc was already advanced: redo this instruction
    work.push_back(std::move(o));
  }
  if (a == UNSAT) endPath();
  addPC(s, cond);
}
// A concrete value for e; forks if several are possible.
static APInt concretize(State& s, E e) {
  if (e->isConst()) return e->c;
  ModelP m;
  if (gUfOpaque || !usesUF(s.pc)) if (Asg* a = asgFind(slicePC(s.pc, e))) { APInt v = evalAsg(*a, e); assumeOrFork(s, mkEq(e, mkConst(v))); return v; }
  Res r = check(s.pc, mkBool(true), &m, true);
  if (r != SAT) { if (r == UNKNOWN) inconclusive("solver unknown while concretising"); endPath(); }
  APInt v = evalModel(m, e);
  assumeOrFork(s, mkEq(e, mkConst(v)));
  return v;
}
static void memError(State& s, const string& what, E cond) {
  report(s, "memory", what, cond);
}
struct Access { E guard; ObjP o; uint64_t off; };
// resolve an address to guarded concrete (object, offset) pairs
static void flattenAddr(E a, E guard, vector<std::pair<E, E>>& out) {
  if (a->op == ITE && out.size() < 64) {
    flattenAddr(a->k[1], mkAnd(guard, a->k[0]), out);
    flattenAddr(a->k[2], mkAnd(guard, mkNot(a->k[0])), out);
  } else if (a->op == ADD && a->k[1]->isConst() && a->k[0]->op == ITE) {
    vector<std::pair<E, E>> t; flattenAddr(a->k[0], guard, t);
    for (auto& x : t) out.push_back({x.first, mkBin(ADD, x.second, a->k[1])});
  } else out.push_back({guard, a});
}
// Lazy case splitting: an if-then-else inside the argument of an uninterpreted
// function is decided (forking if need be) before the function is applied.
static E firstIte(E e) {
  vector<E> st{e}; std::set<E> seen;
  while (!st.empty()) {
    E x = st.back(); st.pop_back();
    if (!seen.insert(x).second) continue;
    if (x->op == ITE && x->width > 1) return x;
    if (x->op == UF || x->op == VAR || x->op == CONST) continue;
    for (E k : x->k) st.push_back(k);
  }
  return nullptr;
}
static E substIte(E e, E c, bool v, std::map<E, E>& memo) {
  if (e->op == UF || e->op == VAR || e->op == CONST) return e;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  E r;
  if (e->op == ITE && e->k[0] == c) r = substIte(v ? e->k[1] : e->k[2], c, v, memo);
  else {
    vector<E> k; bool ch = false;
    for (E x : e->k) { E y = substIte(x, c, v, memo); ch |= y != x; k.push_back(y); }
    if (!ch) r = e;
    else switch (e->op) {
      case EXTRACT: r = mkExtract(k[0], e->aux, e->width); break;
      case CONCAT: r = mkConcat(k[0], k[1]); break;
      case ZEXT: r = mkZext(k[0], e->width); break;
      case SEXT: r = mkSext(k[0], e->width); break;
      case ITE: r = mkIte(k[0], k[1], k[2]); break;
      case TUPLE: r = mkTuple(k); break;
      default: r = mkBin(e->op, k[0], k[1]);
    }
  }
  memo[e] = r; return r;
}
static E decideItes(State& s, E e) {
  if (!opt.forkSelect) return e;
  while (E x = firstIte(e)) {
    E c = x->k[0]; int known = -1; E nc = mkNot(c);
    for (E p : s.pc) { if (p == c) known = 1; else if (p == nc) known = 0; }
    if (known < 0) {
      if (check(s.pc, c) == UNSAT) known = 0;
      else { assumeOrFork(s, c); known = 1; }
    }
    std::map<E, E> memo; e = substIte(e, c, known == 1, memo);
    // a nested condition may mention c as well; the loop continues until none is left
  }
  return e;
}
static void resolve(State& s, E addr, uint32_t n, bool wr, vector<Access>& out) {
  auto fail = [&](E g, uint64_t a) {
    char b[160]; snprintf(b, sizeof b, "%s of %u bytes at invalid address 0x%lx", wr ? "write" : "read", n, a);
    memError(s, b, g);
    E ng = mkNot(g);
    if (check(s.pc, ng) == UNSAT) endPath();
    addPC(s, ng);
  };
  if (addr->isConst()) {
    uint64_t a = addr->u64();
    ObjP o = findObj(s, a, n);
    if (!o || (wr && o->ro)) { fail(mkBool(true), a); endPath(); }
    out.push_back({mkBool(true), o, a - o->base});
    return;
  }
  vector<std::pair<E, E>> cand;
  flattenAddr(addr, mkBool(true), cand);
  for (auto& gc : cand) {
    E g = gc.first, a = gc.second;
    if (a->isConst()) {
      uint64_t v = a->u64();
      ObjP o = findObj(s, v, n);
      if (!o || (wr && o->ro)) { if (check(s.pc, g) != UNSAT) fail(g, v); continue; }
      out.push_back({g, o, v - o->base});
      continue;
    }
    // symbolic: find the object through a model
    vector<E> pc2 = s.pc; if (!g->isConst()) pc2.push_back(g);
    Asg* as = nullptr; uint64_t v;
    if (!g->isConst() && check(s.pc, g) == UNSAT) continue;
    vector<E> cs = slicePC(pc2, a);
    if ((gUfOpaque || !usesUF(cs)) && (as = asgFind(cs))) v = evalAsg(*as, a).getZExtValue();
    else {
      ModelP m;
      Res r = runSolver(cs, &m);
      if (r == UNSAT) continue;
      if (r == UNKNOWN) { inconclusive("solver unknown at symbolic address"); endPath(); }
      if (gUfOpaque || !usesUF(cs)) asgKeep(cs, m);
      v = evalModel(m, a).getZExtValue();
    }
    ObjP o = findObj(s, v, n);
    if (!o || (wr && o->ro)) {
      // is the access always invalid or only sometimes? report this one
      E bad = mkAnd(g, mkEq(a, mkConst(64, v)));
      // prefer a valid object if the base constant points to one
      fail(bad, v);
      // continue with the remaining addresses by redoing the instruction
      s.th[s.cur].fr.back().pc--;
      StateP o2 = clone(s); work.push_back(std::move(o2));
      endPath();
    }
    uint64_t lim = o->size - n;  // last valid offset
    E off = mkBin(SUB, a, mkConst(64, o->base));
    E inr = mkBin(ULE, off, mkConst(64, lim));
    if (check(pc2, mkNot(inr)) != UNSAT) {
      E c = mkOr(mkNot(g), inr);
      // out of this object on some values: split
      assumeOrFork(s, c);
    }
    unsigned tz = trailingZeros(off);
    uint64_t step = tz >= 20 ? 1 : (1ULL << tz);
    if (step > 4096) step = 4096;
    uint64_t cnt = lim / step + 1;
    // narrow the range of offsets with the solver when the object is large
    uint64_t lo = 0, hi = lim;
    if (cnt > 16) {
      uint64_t a0 = 0, b0 = lim;  // max
      while (a0 < b0) { uint64_t mid = a0 + (b0 - a0 + 1) / 2; if (check(pc2, mkBin(ULE, mkConst(64, mid), off)) == UNSAT) b0 = mid - 1; else a0 = mid; }
      hi = a0; a0 = 0; b0 = hi;
      while (a0 < b0) { uint64_t mid = a0 + (b0 - a0) / 2; if (check(pc2, mkBin(ULE, off, mkConst(64, mid))) == UNSAT) a0 = mid + 1; else b0 = mid; }
      lo = a0 / step * step;
    }
    if ((hi - lo) / step > 70000) { inconclusive("symbolic index into a huge object in " + whereStr(s)); endPath(); }
    for (uint64_t k = lo; k <= hi; k += step) out.push_back({mkAnd(g, mkEq(off, mkConst(64, k))), o, k});
  }
  if (out.empty()) endPath();
}
static E iteTree(vector<std::pair<E, E>>& gv, size_t lo, size_t hi) {
  E r = gv[hi - 1].second;
  for (size_t i = hi - 1; i-- > lo;) r = mkIte(gv[i].first, gv[i].second, r);
  return r;
}
static E loadBytes(State& s, E addr, uint32_t n) {
  vector<Access> ac; resolve(s, addr, n, false, ac);
  if (ac.size() == 1) return readObj(s, findObj(s, ac[0].o->base + ac[0].off, n), ac[0].off, n);
  vector<std::pair<E, E>> gv;
  for (auto& a : ac) {
    ObjP o = findObj(s, a.o->base + a.off, n);
    E v = readObj(s, o, a.off, n);
    gv.push_back({a.guard, v});
  }
  return iteTree(gv, 0, gv.size());
}
static void storeBytes(State& s, E addr, E v, uint32_t n) {
  vector<Access> ac; resolve(s, addr, n, true, ac);
  if (ac.size() == 1) { ObjP o = ac[0].o; uint64_t off = ac[0].off; ac.clear(); writeObj(s, o, off, v, n); return; }
  if (v->width != n * 8) v = mkZext(v, n * 8);
  vector<std::pair<uint64_t, std::pair<E, uint64_t>>> todo;
  for (auto& a : ac) todo.push_back({a.o->base, {a.guard, a.off}});
  ac.clear();
  for (auto& t : todo) {
    ObjP o = findObj(s, t.first + t.second.second, n);
    E old = readObj(s, o, t.second.second, n);
    o = findObj(s, t.first + t.second.second, n);
    E nv = mkIte(t.second.first, v, old);
    if (nv != old) writeObj(s, o, t.second.second, nv, n);
  }
}

// ---------------------------------------------------------------- types and constants
static uint32_t bitsOf(Type* t) {
  if (t->isPointerTy()) return 64;
  if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * bitsOf(v->getElementType());
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatingPointTy()) return t->getPrimitiveSizeInBits();
  return 0;
}
static bool isAgg(Type* t) { return t->isStructTy() || t->isArrayTy(); }
static E zeroOf(Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { vector<E> v; for (Type* e : st->elements()) v.push_back(zeroOf(e)); return mkTuple(v); }
  if (auto* at = dyn_cast<ArrayType>(t)) { vector<E> v(at->getNumElements(), zeroOf(at->getElementType())); return mkTuple(v); }
  return mkConst(APInt(bitsOf(t), 0));
}
static E undefOf(Type* t) {
  if (isAgg(t)) {
    vector<E> v;
    if (auto* st = dyn_cast<StructType>(t)) for (Type* e : st->elements()) v.push_back(undefOf(e));
    else v.assign(cast<ArrayType>(t)->getNumElements(), undefOf(cast<ArrayType>(t)->getElementType()));
    return mkTuple(v);
  }
  return mkVar("undef" + std::to_string(bitsOf(t)) + "_" + std::to_string(gUndefCnt++), bitsOf(t));
}
static E constE(const Constant* c);
static uint64_t globalAddr(const GlobalValue* g) {
  auto it = gAddr.find(g);
  if (it != gAddr.end()) return it->second;
  if (auto* a = dyn_cast<GlobalAlias>(g)) return constE(a->getAliasee())->u64();
  fprintf(stderr, "no address for global %s\n", g->getName().str().c_str()); abort();
}
static E gepOff(const GEPOperator* g, std::function<E(const Value*)> val) {
  E base = val(g->getPointerOperand());
  uint64_t coff = 0; E dyn = nullptr;
  for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
    const Value* idx = ti.getOperand();
    if (StructType* sty = ti.getStructTypeOrNull()) {
      coff += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
    } else {
      uint64_t sz = DL->getTypeAllocSize(ti.getIndexedType());
      E i = val(idx);
      if (i->width < 64) i = mkSext(i, 64); else if (i->width > 64) i = mkTrunc(i, 64);
      if (i->isConst()) coff += i->u64() * sz;
      else { E t = mkBin(MUL, i, mkConst(64, sz)); dyn = dyn ? mkBin(ADD, dyn, t) : t; }
    }
  }
  E r = mkBin(ADD, base, mkConst(64, coff));
  if (dyn) r = mkBin(ADD, r, dyn);
  return r;
}
static E castE(unsigned opc, E v, Type* from, Type* to);
static E binE(unsigned opc, E a, E b, Type* ty);
static E cmpE(CmpInst::Predicate p, E a, E b, Type* ty);
static E constE(const Constant* c) {
  auto it = gConstCache.find(c);
  if (it != gConstCache.end()) return it->second;
  E r = nullptr;
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) r = mkConst(ci->getValue());
  else if (isa<ConstantPointerNull>(c)) r = mkConst(64, 0);
  else if (auto* cf = dyn_cast<ConstantFP>(c)) r = mkConst(cf->getValueAPF().bitcastToAPInt());
  else if (auto* g = dyn_cast<GlobalValue>(c)) r = mkConst(64, globalAddr(g));
  else if (isa<ConstantAggregateZero>(c)) r = zeroOf(t);
  else if (isa<UndefValue>(c)) r = zeroOf(t);   // a fixed value; see DESIGN (undef)
  else if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    if (t->isVectorTy()) {
      for (unsigned i = 0; i < cd->getNumElements(); i++) { E x = constE(cd->getElementAsConstant(i)); r = r ? mkConcat(x, r) : x; }
    } else { vector<E> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constE(cd->getElementAsConstant(i))); r = mkTuple(v); }
  } else if (auto* cv = dyn_cast<ConstantVector>(c)) {
    for (unsigned i = 0; i < cv->getNumOperands(); i++) { E x = constE(cv->getOperand(i)); r = r ? mkConcat(x, r) : x; }
  } else if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
    vector<E> v; for (auto& o : c->operands()) v.push_back(constE(cast<Constant>(o))); r = mkTuple(v);
  } else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    unsigned opc = ce->getOpcode();
    auto ov = [&](int i) { return constE(ce->getOperand(i)); };
    if (opc == Instruction::GetElementPtr) r = gepOff(cast<GEPOperator>(ce), [](const Value* v) { return constE(cast<Constant>(v)); });
    else if (Instruction::isCast(opc)) r = castE(opc, ov(0), ce->getOperand(0)->getType(), t);
    else if (opc == Instruction::ICmp) r = cmpE((CmpInst::Predicate)ce->getPredicate(), ov(0), ov(1), ce->getOperand(0)->getType());
    else if (Instruction::isBinaryOp(opc)) r = binE(opc, ov(0), ov(1), t);
  }
  if (!r) { string s; raw_string_ostream o(s); c->print(o); fprintf(stderr, "unsupported constant %s\n", s.c_str()); abort(); }
  gConstCache[c] = r;
  return r;
}

static E vget(E v, unsigned i, uint32_t ew) { return mkExtract(v, i * ew, ew); }
static E vbuild(const vector<E>& l) { E r = nullptr; for (E x : l) r = r ? mkConcat(x, r) : x; return r; }

static E fpBin(unsigned opc, E a, E b) {
  if (!a->isConst() || !b->isConst()) { st.fpHavoc++; return mkVar("fp" + std::to_string(gUndefCnt++), a->width); }
  bool d = a->width == 64;
  double x, y, r = 0;
  if (a->width != 64 && a->width != 32) { st.fpHavoc++; return mkVar("fp" + std::to_string(gUndefCnt++), a->width); }
  if (d) { x = a->c.bitsToDouble(); y = b->c.bitsToDouble(); } else { x = a->c.bitsToFloat(); y = b->c.bitsToFloat(); }
  switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; }
  return d ? mkConst(APInt::doubleToBits(r)) : mkConst(APInt::floatToBits((float)r));
}
static E binE(unsigned opc, E a, E b, Type* ty) {
  if (auto* vt = dyn_cast<FixedVectorType>(ty)) {
    uint32_t ew = bitsOf(vt->getElementType());
    switch (opc) { case Instruction::And: return mkBin(AND, a, b); case Instruction::Or: return mkBin(OR, a, b); case Instruction::Xor: return mkBin(XOR, a, b); }
    vector<E> l;
    for (unsigned i = 0; i < vt->getNumElements(); i++) l.push_back(binE(opc, vget(a, i, ew), vget(b, i, ew), vt->getElementType()));
    return vbuild(l);
  }
  switch (opc) {
    case Instruction::Add: return mkBin(ADD, a, b); case Instruction::Sub: return mkBin(SUB, a, b);
    case Instruction::Mul: return mkBin(MUL, a, b); case Instruction::UDiv: return mkBin(UDIV, a, b);
    case Instruction::SDiv: return mkBin(SDIV, a, b); case Instruction::URem: return mkBin(UREM, a, b);
    case Instruction::SRem: return mkBin(SREM, a, b); case Instruction::And: return mkBin(AND, a, b);
    case Instruction::Or: return mkBin(OR, a, b); case Instruction::Xor: return mkBin(XOR, a, b);
    case Instruction::Shl: return mkBin(SHL, a, b); case Instruction::LShr: return mkBin(LSHR, a, b);
    case Instruction::AShr: return mkBin(ASHR, a, b);
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: return fpBin(opc, a, b);
  }
  fprintf(stderr, "binop %u\n", opc); abort();
}
static E cmpE(CmpInst::Predicate p, E a, E b, Type* ty) {
  if (auto* vt = dyn_cast<FixedVectorType>(ty)) {
    uint32_t ew = bitsOf(vt->getElementType());
    vector<E> l;
    for (unsigned i = 0; i < vt->getNumElements(); i++) l.push_back(cmpE(p, vget(a, i, ew), vget(b, i, ew), vt->getElementType()));
    return vbuild(l);
  }
  if (CmpInst::isFPPredicate(p)) {
    if (!a->isConst() || !b->isConst() || a->width != 64) { st.fpHavoc++; return mkVar("fp" + std::to_string(gUndefCnt++), 1); }
    double x = a->c.bitsToDouble(), y = b->c.bitsToDouble();
    bool un = std::isnan(x) || std::isnan(y), r = false;
    switch (p) {
      case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break;
      case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break;
      case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
      case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
      case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UNE: r = un || x != y; break;
      case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break;
      case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break;
      default: break;
    }
    return mkBool(r);
  }
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkBin(ULT, a, b); case CmpInst::ICMP_ULE: return mkBin(ULE, a, b);
    case CmpInst::ICMP_UGT: return mkBin(ULT, b, a); case CmpInst::ICMP_UGE: return mkBin(ULE, b, a);
    case CmpInst::ICMP_SLT: return mkBin(SLT, a, b); case CmpInst::ICMP_SLE: return mkBin(SLE, a, b);
    case CmpInst::ICMP_SGT: return mkBin(SLT, b, a); case CmpInst::ICMP_SGE: return mkBin(SLE, b, a);
    default: abort();
  }
}
static E castE(unsigned opc, E v, Type* from, Type* to) {
  if (opc == Instruction::BitCast) return v;
  if (auto* vt = dyn_cast<FixedVectorType>(to)) {
    auto* vf = cast<FixedVectorType>(from);
    vector<E> l; uint32_t ew = bitsOf(vf->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) l.push_back(castE(opc, vget(v, i, ew), vf->getElementType(), vt->getElementType()));
    return vbuild(l);
  }
  uint32_t w = bitsOf(to);
  switch (opc) {
    case Instruction::Trunc: return mkTrunc(v, w);
    case Instruction::ZExt: return mkZext(v, w);
    case Instruction::SExt: return mkSext(v, w);
    case Instruction::PtrToInt: case Instruction::IntToPtr: return v->width > w ? mkTrunc(v, w) : mkZext(v, w);
    case Instruction::UIToFP: case Instruction::SIToFP:
      if (v->isConst() && (w == 64 || w == 32)) { double d = v->c.roundToDouble(opc == Instruction::SIToFP); return w == 64 ? mkConst(APInt::doubleToBits(d)) : mkConst(APInt::floatToBits((float)d)); }
      break;
    case Instruction::FPToSI: case Instruction::FPToUI:
      if (v->isConst() && v->width == 64) return mkConst(APIntOps::RoundDoubleToAPInt(v->c.bitsToDouble(), w));
      break;
    case Instruction::FPExt: if (v->isConst() && v->width == 32 && w == 64) return mkConst(APInt::doubleToBits(v->c.bitsToFloat())); break;
    case Instruction::FPTrunc: if (v->isConst() && v->width == 64 && w == 32) return mkConst(APInt::floatToBits((float)v->c.bitsToDouble())); break;
  }
  st.fpHavoc++;
  return mkVar("fp" + std::to_string(gUndefCnt++), w);
}
static E loadTy(State& s, Type* t, E addr) {
  if (isAgg(t)) {
    vector<E> v;
    if (auto* stt = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(stt);
      for (unsigned i = 0; i < stt->getNumElements(); i++) v.push_back(loadTy(s, stt->getElementType(i), mkBin(ADD, addr, mkConst(64, sl->getElementOffset(i)))));
    } else {
      auto* at = cast<ArrayType>(t); uint64_t sz = DL->getTypeAllocSize(at->getElementType());
      for (uint64_t i = 0; i < at->getNumElements(); i++) v.push_back(loadTy(s, at->getElementType(), mkBin(ADD, addr, mkConst(64, i * sz))));
    }
    return mkTuple(v);
  }
  uint32_t w = bitsOf(t); uint32_t n = DL->getTypeStoreSize(t);
  E v = loadBytes(s, addr, n);
  return v->width > w ? mkTrunc(v, w) : v;
}
static void storeTy(State& s, Type* t, E addr, E v) {
  if (isAgg(t)) {
    if (auto* stt = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(stt);
      for (unsigned i = 0; i < stt->getNumElements(); i++) storeTy(s, stt->getElementType(i), mkBin(ADD, addr, mkConst(64, sl->getElementOffset(i))), v->k[i]);
    } else {
      auto* at = cast<ArrayType>(t); uint64_t sz = DL->getTypeAllocSize(at->getElementType());
      for (uint64_t i = 0; i < at->getNumElements(); i++) storeTy(s, at->getElementType(), mkBin(ADD, addr, mkConst(64, i * sz)), v->k[i]);
    }
    return;
  }
  storeBytes(s, addr, v, DL->getTypeStoreSize(t));
}

// ---------------------------------------------------------------- functions
static FInfo* fi(Function* F) {
  auto& p = gFI[F];
  if (p) return p.get();
  p.reset(new FInfo()); p->F = F;
  for (auto& a : F->args()) p->slot[&a] = p->nslots++;
  for (auto& bb : *F) {
    auto& v = p->code[&bb];
    for (auto& i : bb) {
      if (isa<DbgInfoIntrinsic>(i)) continue;
      v.push_back(&i);
      if (!i.getType()->isVoidTy()) p->slot[&i] = p->nslots++;
    }
  }
  return p.get();
}
static bool isRepoFn(const string& n) { return !n.empty(); }

static E val(Frame& f, const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return constE(c);
  auto it = f.f->slot.find(v);
  if (it == f.f->slot.end()) { fprintf(stderr, "value without slot\n"); abort(); }
  E e = f.regs[it->second];
  if (!e) { string s; raw_string_ostream o(s); v->print(o); fprintf(stderr, "unset value %s in %s\n", s.c_str(), f.f->F->getName().str().c_str()); abort(); }
  return e;
}
static void setv(Frame& f, const Instruction* i, E e) {
  f.regs[f.f->slot[i]] = e;
}
static void enter(Frame& f, BasicBlock* to) {
  BasicBlock* from = f.bb;
  auto& code = f.f->code[to];
  vector<std::pair<Instruction*, E>> ph;
  uint32_t pc = 0;
  for (auto* i : code) {
    auto* p = dyn_cast<PHINode>(i);
    if (!p) break;
    ph.push_back({p, val(f, p->getIncomingValueForBlock(from))});
    pc++;
  }
  for (auto& x : ph) setv(f, x.first, x.second);
  f.bb = to; f.pc = pc;
}
static void pushCall(State& s, Function* F, const vector<E>& args) {
  FInfo* p = fi(F);
  if (!p->counted) { p->counted = true; gFuncs.insert(F->getName().str()); }
  if (s.th[s.cur].fr.size() > 3000) { report(s, "stack", "unbounded recursion in " + F->getName().str(), nullptr); endPath(); }
  Frame f; f.f = p; f.bb = &F->getEntryBlock(); f.pc = 0;
  f.regs.assign(p->nslots, nullptr);
  unsigned i = 0;
  for (auto& a : F->args()) { f.regs[p->slot[&a]] = args[i]; i++; }
  for (; i < args.size(); i++) f.varargs.push_back(args[i]);
  s.th[s.cur].fr.push_back(std::move(f));
}
static void popFrame(State& s) {
  Thread& t = s.th[s.cur];
  for (uint64_t a : t.fr.back().allocas) s.mem.erase(a);
  t.fr.pop_back();
}
static void schedule(State& s);
static void endThread(State& s) {
  s.th[s.cur].done = true;
  for (auto& t : s.th) t.blocked = false;   // a finished peer may unblock (its connection is closed)
  schedule(s);
}
// finish the call instruction of the caller with a return value
static void finishCall(State& s, E rv) {
  Thread& t = s.th[s.cur];
  if (t.fr.empty()) { endThread(s); return; }
  Frame& f = t.fr.back();
  Instruction* ci = f.f->code[f.bb][f.pc - 1];
  if (!ci->getType()->isVoidTy()) {
    if (!rv) rv = zeroOf(ci->getType());
    setv(f, ci, rv);
  }
  if (auto* inv = dyn_cast<InvokeInst>(ci)) enter(f, inv->getNormalDest());
}
static void schedule(State& s) {
  unsigned n = s.th.size();
  if (!s.th[s.cur].done && !s.th[s.cur].blocked) return;
  for (unsigned k = 1; k <= n; k++) {
    unsigned i = (s.cur + k) % n;
    if (!s.th[i].done && !s.th[i].blocked) { s.cur = i; return; }
  }
  bool all = true;
  for (auto& t : s.th) if (!t.done) all = false;
  if (all) { pathDone(s); endPath(); }
  // someone is blocked for ever
  for (unsigned i = 0; i < n; i++) if (!s.th[i].done) { s.cur = i; break; }
  if (s.kv.count("expect_block")) { gCovers["blocked"]++; pathDone(s); endPath(); }
  report(s, "deadlock", "every party is blocked waiting for data", nullptr);
  endPath();
}

// ---------------------------------------------------------------- exceptions
static bool exnMatches(State& s, const string& thrown, const string& want) {
  if (want.empty()) return true;  // catch-all
  if (thrown == want) return true;
  static const map<string, string> base = {
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
    {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
    {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
  auto it = base.find(thrown);
  if (it != base.end()) return exnMatches(s, it->second, want);
  // user types: look at the type_info initialiser (single inheritance)
  if (auto* g = M->getGlobalVariable(thrown, true)) if (g->hasInitializer())
    if (auto* cs = dyn_cast<ConstantStruct>(g->getInitializer())) if (cs->getNumOperands() >= 3)
      if (auto* b = dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts())) return exnMatches(s, b->getName().str(), want);
  return false;
}
static uint32_t typeId(const string& t) {
  static map<string, uint32_t> ids;
  auto it = ids.find(t);
  if (it != ids.end()) return it->second;
  uint32_t n = ids.size() + 1; ids[t] = n; return n;
}
static void unwind(State& s, uint64_t exnAddr, const string& type) {
  Thread& t = s.th[s.cur];
  bool first = true;
  while (true) {
    if (!first || true) {
      if (t.fr.empty()) { report(s, "exception", "uncaught exception of type " + type, nullptr); endPath(); }
      Frame& f = t.fr.back();
      Instruction* ci = f.f->code[f.bb][f.pc - 1];
      if (auto* inv = dyn_cast<InvokeInst>(ci)) {
        BasicBlock* lpbb = inv->getUnwindDest();
        LandingPadInst* lp = lpbb->getLandingPadInst();
        uint32_t sel = 0; bool stop = lp->isCleanup();
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
          if (lp->isCatch(i)) {
            string want;
            Constant* cl = lp->getClause(i);
            if (auto* g = dyn_cast<GlobalVariable>(cl->stripPointerCasts())) want = g->getName().str();
            if (exnMatches(s, type, want)) { sel = typeId(want.empty() ? "<any>" : want); stop = true; break; }
          } else { /* filter */ }
        }
        if (stop) {
          enter(f, lpbb);
          // the landingpad is the first non-phi instruction: set its value here
          vector<E> v = {mkConst(64, exnAddr), mkConst(32, sel)};
          setv(f, lp, mkTuple(v));
          f.pc++;
          return;
        }
      }
    }
    first = false;
    popFrame(s);
  }
}
static void throwStd(State& s, const string& type) {
  uint64_t a = allocObj(s, 64, 2, 16, "exception");
  s.exn[a] = type;
  unwind(s, a, type);
}

// ---------------------------------------------------------------- builtins
static string cstr(State& s, E p) {
  if (!p->isConst()) return "?";
  string r; uint64_t a = p->u64();
  for (int i = 0; i < 4096; i++) {
    ObjP o = findObj(s, a + i, 1); if (!o) break;
    E b = readObj(s, o, a + i - o->base, 1);
    if (!b->isConst()) { r += '?'; continue; }
    if (b->c == 0) break;
    r += (char)b->u64();
  }
  return r;
}
static void copyMem(State& s, E dst, E src, uint64_t n) {
  if (n == 0) return;
  if (!dst->isConst() || !src->isConst()) {
    // symbolic addresses: chunked
    vector<E> tmp;
    for (uint64_t i = 0; i < n; i++) tmp.push_back(loadBytes(s, mkBin(ADD, src, mkConst(64, i)), 1));
    for (uint64_t i = 0; i < n; i++) storeBytes(s, mkBin(ADD, dst, mkConst(64, i)), tmp[i], 1);
    return;
  }
  vector<Access> a, b; resolve(s, src, n, false, a); resolve(s, dst, n, true, b);
  vector<Cell> cells(a[0].o->cells.begin() + a[0].off, a[0].o->cells.begin() + a[0].off + n);
  uint64_t off = b[0].off; ObjP o = b[0].o; a.clear(); b.clear();
  Obj* w = writable(s, o);
  std::copy(cells.begin(), cells.end(), w->cells.begin() + off);
}
static void setMem(State& s, E dst, E v, uint64_t n) {
  if (n == 0) return;
  if (!dst->isConst()) { for (uint64_t i = 0; i < n; i++) storeBytes(s, mkBin(ADD, dst, mkConst(64, i)), v, 1); return; }
  vector<Access> b; resolve(s, dst, n, true, b);
  uint64_t off = b[0].off; ObjP o = b[0].o; b.clear();
  Obj* w = writable(s, o);
  for (uint64_t i = 0; i < n; i++) w->cells[off + i] = Cell{v, 0};
}
static uint64_t concLen(State& s, E e) { return concretize(s, e).getZExtValue(); }

// returns true if handled; result in rv
typedef std::function<bool(State&, CallBase*, vector<E>&, E&)> Builtin;
static std::unordered_map<string, Builtin> gBuiltins;

static void doAssert(State& s, E cond, const string& msg) {
  st.asserts++;
  if (cond->width != 1) cond = mkNot(mkEq(cond, mkConst(APInt(cond->width, 0))));
  gCovers["assert:" + msg]++;
  if (cond->isConst()) {
    if (cond->c == 1) { st.assertsTrivial++; return; }
    if (gFailDump) { fprintf(stderr, "FAIL %s\n %s\n", msg.c_str(), exprStr(cond, 9).c_str()); for (E p : s.pc) fprintf(stderr, "   pc %s\n", exprStr(p, gFailDepth).c_str()); for (auto& c : s.choices) fprintf(stderr, "  ch %s %lu\n", c.first.c_str(), (unsigned long)c.second); }
    report(s, "assert", msg, nullptr);
    endPath();
  }
  E bad = mkNot(cond);
  Res r = check(s.pc, bad);
  if (r == UNSAT) { st.assertsSolved++; return; }
  if (r == UNKNOWN) { st.assertsUnknown++; inconclusive("assertion undecided: " + msg); addPC(s, cond); return; }
  if (gFailDump) { fprintf(stderr, "FAIL %s\n %s\n", msg.c_str(), exprStr(cond, 9).c_str()); for (E p : s.pc) fprintf(stderr, "   pc %s\n", exprStr(p, gFailDepth).c_str()); for (auto& c : s.choices) fprintf(stderr, "  ch %s %lu\n", c.first.c_str(), (unsigned long)c.second); }
  report(s, "assert", msg, bad);
  if (check(s.pc, cond) == UNSAT) endPath();
  addPC(s, cond);
}
static void freeObj(State& s, E p, const char* what) {
  if (!p->isConst()) p = mkConst(concretize(s, p));
  uint64_t a = p->u64();
  if (a == 0) return;
  auto it = s.mem.find(a);
  if (it == s.mem.end() || it->second->kind != 2) { memError(s, string(what) + " of a pointer that is not an allocated block", nullptr); endPath(); }
  s.mem.erase(it);
}
#include "builtins.inc"

// ---------------------------------------------------------------- execution
static bool intrinsicCall(State& s, CallBase* ci, Function* F, vector<E>& a, E& rv);

static void doCall(State& s, CallBase* ci) {
  Frame& f = s.th[s.cur].fr.back();
  vector<E> args;
  for (auto& o : ci->args()) {
    if (isa<MetadataAsValue>(o)) { args.push_back(nullptr); continue; }
    args.push_back(val(f, o));
  }
  Function* F = nullptr;
  const Value* cv = ci->getCalledOperand()->stripPointerCasts();
  if (auto* ia = dyn_cast<InlineAsm>(cv)) {
    if (ia->getAsmString().empty()) { finishCall(s, ci->getType()->isVoidTy() ? nullptr : (args.size() == 1 && args[0]->width == bitsOf(ci->getType()) ? args[0] : zeroOf(ci->getType()))); return; }
    gNotes["inline asm ignored: " + ia->getAsmString()]++;
    finishCall(s, ci->getType()->isVoidTy() ? nullptr : zeroOf(ci->getType()));
    return;
  }
  if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
  if ((F = (Function*)dyn_cast<Function>(cv))) {
  } else {
    E t = val(f, ci->getCalledOperand());
    if (!t->isConst()) t = mkConst(concretize(s, t));
    auto it = gFnAt.find(t->u64());
    if (it == gFnAt.end()) { memError(s, "indirect call to a non-function address", nullptr); endPath(); }
    F = it->second;
  }
  E rv = nullptr;
  if (F->isIntrinsic()) {
    if (intrinsicCall(s, ci, F, args, rv)) finishCall(s, rv);
    return;
  }
  auto bi = gBuiltins.find(F->getName().str());
  if (bi != gBuiltins.end() && (F->isDeclaration() || F->getName().startswith("sym_"))) {
    if (bi->second(s, ci, args, rv)) finishCall(s, rv);
    return;
  }
  if (F->isDeclaration()) { inconclusive("unsupported external function " + F->getName().str()); st.killed++; endPath(); }
  // byval arguments: the callee gets its own copy
  for (unsigned i = 0; i < args.size(); i++) if (ci->isByValArgument(i)) {
    Type* bt = ci->getParamByValType(i);
    uint64_t sz = DL->getTypeAllocSize(bt);
    uint64_t a = allocObj(s, sz, 1, 16, "byval");
    copyMem(s, mkConst(64, a), args[i], sz);
    s.th[s.cur].fr.back().allocas.push_back(a);
    args[i] = mkConst(64, a);
  }
  if (F->arg_size() > args.size()) { inconclusive("call with too few arguments: " + F->getName().str()); endPath(); }
  pushCall(s, F, args);
}

static bool gRegionMode = false;
struct Region { unsigned tid; size_t depth; BasicBlock* join; };  // join==nullptr: return to depth
static void branchOn(State& s, vector<std::pair<E, BasicBlock*>> targets);

// one instruction; may throw PathEnd
static void step(State& s) {
  Thread& t = s.th[s.cur];
  Frame& f = t.fr.back();
  Instruction* I = f.f->code[f.bb][f.pc++];
  s.instr++; st.instr++;
  switch (I->getOpcode()) {
    case Instruction::Alloca: {
      auto* ai = cast<AllocaInst>(I);
      uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType());
      if (ai->isArrayAllocation()) n *= concLen(s, val(f, ai->getArraySize()));
      uint64_t a = allocObj(s, n, 1, ai->getAlign().value(), ai->getName().str());
      f.allocas.push_back(a);
      setv(f, I, mkConst(64, a)); break;
    }
    case Instruction::Load: {
      auto* l = cast<LoadInst>(I);
      E v = loadTy(s, l->getType(), val(f, l->getPointerOperand()));
      setv(s.th[s.cur].fr.back(), I, v); break;
    }
    case Instruction::Store: {
      auto* l = cast<StoreInst>(I);
      storeTy(s, l->getValueOperand()->getType(), val(f, l->getPointerOperand()), val(f, l->getValueOperand())); break;
    }
    case Instruction::GetElementPtr: {
      if (I->getType()->isVectorTy()) { inconclusive("vector GEP"); endPath(); }
      setv(f, I, gepOff(cast<GEPOperator>(I), [&](const Value* v) { return val(f, v); })); break;
    }
    case Instruction::ICmp: case Instruction::FCmp: {
      auto* c = cast<CmpInst>(I);
      setv(f, I, cmpE(c->getPredicate(), val(f, c->getOperand(0)), val(f, c->getOperand(1)), c->getOperand(0)->getType())); break;
    }
    case Instruction::Select: {
      auto* si = cast<SelectInst>(I);
      E c = val(f, si->getCondition()), a = val(f, si->getTrueValue()), b = val(f, si->getFalseValue());
      if (si->getCondition()->getType()->isVectorTy()) {
        auto* vt = cast<FixedVectorType>(I->getType()); uint32_t ew = bitsOf(vt->getElementType());
        vector<E> l; for (unsigned i = 0; i < vt->getNumElements(); i++) l.push_back(mkIte(vget(c, i, 1), vget(a, i, ew), vget(b, i, ew)));
        setv(f, I, vbuild(l));
      } else if (opt.forkSelect && !c->isConst() && a != b && a->width >= opt.forkSelect) {
        Res rc = check(s.pc, c), rn = check(s.pc, mkNot(c));
        if (rc != UNSAT && rn != UNSAT) {
          StateP o = clone(s);
          addPC(*o, mkNot(c));
          o->th[o->cur].fr.back().pc--;
          work.push_back(std::move(o));
          addPC(s, c);
        }
        setv(f, I, rc != UNSAT ? a : b);
      } else setv(f, I, mkIte(c, a, b));
      break;
    }
    case Instruction::Freeze: setv(f, I, val(f, I->getOperand(0))); break;
    case Instruction::FNeg: {
      E v = val(f, I->getOperand(0));
      setv(f, I, mkBin(XOR, v, mkConst(APInt::getSignMask(v->width)))); break;
    }
    case Instruction::ExtractValue: {
      auto* x = cast<ExtractValueInst>(I); E v = val(f, x->getAggregateOperand());
      for (unsigned i : x->indices()) v = v->k[i];
      setv(f, I, v); break;
    }
    case Instruction::InsertValue: {
      auto* x = cast<InsertValueInst>(I);
      E agg = val(f, x->getAggregateOperand()), nv = val(f, x->getInsertedValueOperand());
      auto idx = x->getIndices();
      std::function<E(E, unsigned)> rec = [&](E a, unsigned d) -> E {
        if (d == idx.size()) return nv;
        vector<E> k = a->k; k[idx[d]] = rec(k[idx[d]], d + 1); return mkTuple(k);
      };
      setv(f, I, rec(agg, 0)); break;
    }
    case Instruction::ExtractElement: {
      E v = val(f, I->getOperand(0)), i = val(f, I->getOperand(1));
      auto* vt = cast<FixedVectorType>(I->getOperand(0)->getType()); uint32_t ew = bitsOf(vt->getElementType());
      if (i->isConst()) { uint64_t n = i->c.getLimitedValue(); if (n >= vt->getNumElements()) n = 0; setv(f, I, vget(v, n, ew)); }
      else { E r = vget(v, 0, ew); for (unsigned k = 1; k < vt->getNumElements(); k++) r = mkIte(mkEq(i, mkConst(i->width, k)), vget(v, k, ew), r); setv(f, I, r); }
      break;
    }
    case Instruction::InsertElement: {
      E v = val(f, I->getOperand(0)), x = val(f, I->getOperand(1)), i = val(f, I->getOperand(2));
      auto* vt = cast<FixedVectorType>(I->getType()); uint32_t ew = bitsOf(vt->getElementType());
      vector<E> l;
      for (unsigned k = 0; k < vt->getNumElements(); k++) l.push_back(mkIte(mkEq(i, mkConst(i->width, k)), x, vget(v, k, ew)));
      setv(f, I, vbuild(l)); break;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(I);
      E a = val(f, sv->getOperand(0)), b = val(f, sv->getOperand(1));
      auto* vt = cast<FixedVectorType>(sv->getOperand(0)->getType()); uint32_t ew = bitsOf(vt->getElementType()); unsigned n = vt->getNumElements();
      vector<E> l;
      for (int m : sv->getShuffleMask()) {
        if (m < 0) l.push_back(mkConst(APInt(ew, 0)));
        else if ((unsigned)m < n) l.push_back(vget(a, m, ew)); else l.push_back(vget(b, m - n, ew));
      }
      setv(f, I, vbuild(l)); break;
    }
    case Instruction::Br: {
      auto* b = cast<BranchInst>(I);
      if (b->isUnconditional()) { enter(f, b->getSuccessor(0)); break; }
      E c = val(f, b->getCondition());
      if (c->isConst()) { enter(f, b->getSuccessor(c->c == 1 ? 0 : 1)); break; }
      branchOn(s, {{c, b->getSuccessor(0)}, {mkNot(c), b->getSuccessor(1)}});
      break;
    }
    case Instruction::Switch: {
      auto* w = cast<SwitchInst>(I);
      E c = val(f, w->getCondition());
      if (c->isConst()) { enter(f, w->findCaseValue(ConstantInt::get(M->getContext(), c->c))->getCaseSuccessor()); break; }
      vector<std::pair<E, BasicBlock*>> tg;
      E def = mkBool(true);
      std::map<BasicBlock*, E> byT; vector<BasicBlock*> order;
      for (auto& cs : w->cases()) {
        E e = mkEq(c, mkConst(cs.getCaseValue()->getValue()));
        def = mkAnd(def, mkNot(e));
        auto* b = cs.getCaseSuccessor();
        if (!byT.count(b)) { byT[b] = e; order.push_back(b); } else byT[b] = mkOr(byT[b], e);
      }
      { auto* b = w->getDefaultDest(); if (!byT.count(b)) { byT[b] = def; order.push_back(b); } else byT[b] = mkOr(byT[b], def); }
      for (auto* b : order) tg.push_back({byT[b], b});
      branchOn(s, tg);
      break;
    }
    case Instruction::Ret: {
      E rv = I->getNumOperands() ? val(f, I->getOperand(0)) : nullptr;
      popFrame(s);
      finishCall(s, rv);
      break;
    }
    case Instruction::Call: case Instruction::Invoke: doCall(s, cast<CallBase>(I)); break;
    case Instruction::Unreachable: {
      report(s, "unreachable", "undefined behaviour: unreachable code reached in " + f.f->F->getName().str(), nullptr); endPath();
    }
    case Instruction::LandingPad: break;
    case Instruction::Resume: {
      E v = val(f, I->getOperand(0)); uint64_t a = v->k[0]->u64();
      string ty = s.exn[a];
      popFrame(s);
      unwind(s, a, ty); break;
    }
    case Instruction::AtomicRMW: {
      auto* r = cast<AtomicRMWInst>(I);
      E p = val(f, r->getPointerOperand()), v = val(f, r->getValOperand());
      E old = loadTy(s, v->width ? r->getType() : r->getType(), p), nv = v;
      switch (r->getOperation()) { case AtomicRMWInst::Add: nv = mkBin(ADD, old, v); break; case AtomicRMWInst::Sub: nv = mkBin(SUB, old, v); break; case AtomicRMWInst::Or: nv = mkBin(OR, old, v); break; case AtomicRMWInst::And: nv = mkBin(AND, old, v); break; case AtomicRMWInst::Xchg: break; default: inconclusive("atomicrmw"); endPath(); }
      storeTy(s, r->getType(), p, nv);
      setv(f, I, old); break;
    }
    case Instruction::AtomicCmpXchg: {
      auto* r = cast<AtomicCmpXchgInst>(I);
      E p = val(f, r->getPointerOperand()), c = val(f, r->getCompareOperand()), n = val(f, r->getNewValOperand());
      E old = loadTy(s, r->getCompareOperand()->getType(), p), eq = mkEq(old, c);
      storeTy(s, r->getCompareOperand()->getType(), p, mkIte(eq, n, old));
      setv(f, I, mkTuple({old, eq})); break;
    }
    case Instruction::Fence: break;
    default:
      if (auto* bo = dyn_cast<BinaryOperator>(I)) {
        E a = val(f, bo->getOperand(0)), b = val(f, bo->getOperand(1));
        unsigned oc = bo->getOpcode();
        if ((oc == Instruction::UDiv || oc == Instruction::SDiv || oc == Instruction::URem || oc == Instruction::SRem) && !bo->getType()->isVectorTy()) {
          E z = mkEq(b, mkConst(APInt(b->width, 0)));
          if (!z->isConst() ? check(s.pc, z) != UNSAT : z->c == 1) { report(s, "divzero", "division by zero", z); if (z->isConst() || check(s.pc, mkNot(z)) == UNSAT) endPath(); addPC(s, mkNot(z)); }
        }
        setv(f, I, binE(oc, a, b, bo->getType())); break;
      }
      if (auto* c = dyn_cast<CastInst>(I)) { setv(f, I, castE(c->getOpcode(), val(f, c->getOperand(0)), c->getOperand(0)->getType(), c->getType())); break; }
      { string str; raw_string_ostream o(str); I->print(o); inconclusive("unsupported instruction " + str); endPath(); }
  }
}

// Run until the region's join point.  Returns states that reached it.
static void runUntil(StateP s, const Region& r, vector<StateP>& out);
static void leaveRegion(StateP s);
static bool atJoin(State& s, const Region& r) {
  if (s.cur != r.tid) return false;
  auto& fr = s.th[s.cur].fr;
  if (r.join) {
    if (fr.size() != r.depth) return false;
    auto& f = fr.back();
    if (f.bb != r.join) return false;
    auto& code = f.f->code[f.bb];
    // first non-phi
    uint32_t k = 0; while (k < code.size() && isa<PHINode>(code[k])) k++;
    return f.pc == k;
  }
  return fr.size() < r.depth;
}
static StateP mergeStates(StateP a, StateP b, size_t basePc, bool& ok);

// Immediate post-dominators over the normal control flow: edges to landing pads
// and blocks that never reach a return are left out (those paths are not merged).
static BasicBlock* ipdomOf(FInfo& fi, BasicBlock* b) {
  if (!fi.pdtDone) {
    fi.pdtDone = true;
    std::unordered_map<BasicBlock*, vector<BasicBlock*>> succ, pred;
    vector<BasicBlock*> exits;
    for (auto& B : *fi.F) {
      auto* t = B.getTerminator();
      if (isa<ReturnInst>(t)) exits.push_back(&B);
      auto add = [&](BasicBlock* x) { succ[&B].push_back(x); pred[x].push_back(&B); };
      if (auto* iv = dyn_cast<InvokeInst>(t)) add(iv->getNormalDest());
      else for (unsigned i = 0; i < t->getNumSuccessors(); i++) if (!t->getSuccessor(i)->isEHPad()) add(t->getSuccessor(i));
    }
    // post-order of the reverse graph from a virtual exit
    vector<BasicBlock*> order; std::set<BasicBlock*> seen;
    for (auto* e : exits) {
      if (!seen.insert(e).second) continue;
      vector<std::pair<BasicBlock*, size_t>> stk{{e, 0}};
      while (!stk.empty()) {
        auto& [x, k] = stk.back();
        if (k < pred[x].size()) { auto* y = pred[x][k++]; if (seen.insert(y).second) stk.push_back({y, 0}); }
        else { order.push_back(x); stk.pop_back(); }
      }
    }
    std::unordered_map<BasicBlock*, int> num;   // larger = nearer the exit
    for (size_t i = 0; i < order.size(); i++) num[order[i]] = (int)i;
    int root = (int)order.size(); vector<int> idom(order.size() + 1, -1); idom[root] = root;
    bool ch = true;
    while (ch) {
      ch = false;
      for (int i = (int)order.size() - 1; i >= 0; i--) {
        int nw = isa<ReturnInst>(order[i]->getTerminator()) ? root : -1;
        for (auto* y : succ[order[i]]) {
          auto it = num.find(y); if (it == num.end() || idom[it->second] < 0) continue;
          int q = it->second;
          if (nw < 0) nw = q;
          else { int p = nw; while (p != q) { while (p < q) p = idom[p]; while (q < p) q = idom[q]; } nw = p; }
        }
        if (nw != idom[i]) { idom[i] = nw; ch = true; }
      }
    }
    for (size_t i = 0; i < order.size(); i++) if (idom[i] >= 0 && idom[i] != root) fi.ipdom[order[i]] = order[idom[i]];
  }
  auto it = fi.ipdom.find(b);
  return it == fi.ipdom.end() ? nullptr : it->second;
}
// Where the paths of a branch inside a loop come together again when the paths
// that leave the loop are not considered; null where the ordinary join will do.
static BasicBlock* loopJoinOf(FInfo& fi, BasicBlock* b, BasicBlock* ipdom) {
  auto it = fi.loopJoin.find(b);
  if (it != fi.loopJoin.end()) return it->second;
  BasicBlock*& res = fi.loopJoin[b]; res = nullptr;
  DominatorTree DT(*fi.F); LoopInfo LI(DT);
  Loop* L = LI.getLoopFor(b);
  if (!L || (ipdom && L->contains(ipdom)) || L->isLoopExiting(b)) return nullptr;
  BasicBlock* h = L->getHeader();
  auto succs = [&](BasicBlock* x) { vector<BasicBlock*> r; auto* t = x->getTerminator();
    if (auto* iv = dyn_cast<InvokeInst>(t)) r.push_back(iv->getNormalDest()); else for (unsigned i = 0; i < t->getNumSuccessors(); i++) r.push_back(t->getSuccessor(i));
    vector<BasicBlock*> q; for (auto* y : r) if (L->contains(y) && !y->isEHPad()) q.push_back(y); return q; };
  // a path from b to the next time round, and which of its blocks no other path avoids
  auto reach = [&](BasicBlock* without, vector<BasicBlock*>* path) {
    std::map<BasicBlock*, BasicBlock*> par; vector<BasicBlock*> st;
    for (auto* y : succs(b)) if (y != without && !par.count(y)) { par[y] = nullptr; st.push_back(y); }
    for (size_t i = 0; i < st.size(); i++) {
      auto* x = st[i];
      if (x == h) { if (path) for (auto* q = x; q; q = par[q]) path->insert(path->begin(), q); return true; }
      for (auto* y : succs(x)) if (y != without && !par.count(y)) { par[y] = x; st.push_back(y); }
    }
    return false;
  };
  vector<BasicBlock*> path;
  if (!reach(nullptr, &path)) return nullptr;
  for (auto* c : path) if (c == h || !reach(c, nullptr)) { res = c; break; }
  return res;
}
struct Outer { Region r; vector<StateP>* out; bool loop; };   // loop: the join can be passed by
static vector<Outer> gOuter;   // merging regions being run, outermost first
static void branchOn(State& s, vector<std::pair<E, BasicBlock*>> targets) {
  // s is positioned just after the branch instruction
  Frame& f = s.th[s.cur].fr.back();
  vector<std::pair<E, BasicBlock*>> feas;
  for (size_t i = 0; i < targets.size(); i++) {
    if (i + 1 == targets.size() && feas.empty()) { feas.push_back(targets[i]); break; }
    Res r = check(s.pc, targets[i].first);
    if (r == UNKNOWN) gNotes["branch undecided (both sides explored)"]++;
    if (r != UNSAT) feas.push_back(targets[i]);
  }
  if (feas.size() == 1) { addPC(s, feas[0].first); enter(f, feas[0].second); return; }
  if (!s.merge) {
    for (size_t i = 1; i < feas.size(); i++) {
      StateP o = clone(s);
      addPC(*o, feas[i].first);
      enter(o->th[o->cur].fr.back(), feas[i].second);
      work.push_back(std::move(o));
    }
    addPC(s, feas[0].first);
    enter(f, feas[0].second);
    return;
  }
  // merging: run every side to the immediate post-dominator
  BasicBlock* join = ipdomOf(*f.f, f.bb);
  bool outer = false, loop = false;
  if (BasicBlock* lj = loopJoinOf(*f.f, f.bb, join)) {
    // the loop may be left from inside: come together in the loop, and again at the join outside it
    bool have = false;
    for (auto& o : gOuter) if (o.r.tid == s.cur && o.r.depth == s.th[s.cur].fr.size() && o.r.join == join) have = true;
    if (have) { join = lj; loop = true; } else outer = true;
  }
  Region r{s.cur, s.th[s.cur].fr.size(), join};
  size_t basePc = s.pc.size();
  vector<StateP> done;
  gOuter.push_back({r, &done, loop});
  struct Pop { ~Pop() { gOuter.pop_back(); } };
  if (outer) { Pop pop; StateP o = clone(s); o->th[o->cur].fr.back().pc--; runUntil(std::move(o), r, done); }
  else { Pop pop; for (size_t i = 0; i < feas.size(); i++) {
    StateP o = clone(s);
    addPC(*o, feas[i].first);
    enter(o->th[o->cur].fr.back(), feas[i].second);
    runUntil(std::move(o), r, done);
  } }
  // pairwise merging
  for (size_t i = 0; i < done.size(); i++) {
    for (size_t j = i + 1; j < done.size();) {
      bool ok = false;
      StateP m = mergeStates(std::move(done[i]), std::move(done[j]), basePc, ok);
      if (ok) { done[i] = std::move(m); done.erase(done.begin() + j); st.merges++; }
      else {
        // not merged: m holds nothing; states were given back through gBack
        extern StateP gBackA, gBackB;
        done[i] = std::move(gBackA); done[j] = std::move(gBackB); st.mergeFail++;
        j++;
      }
    }
  }
  if (done.empty()) endPath();
  StateP first = std::move(done[0]);
  for (size_t i = 1; i < done.size(); i++) leaveRegion(std::move(done[i]));
  s = std::move(*first);
}
StateP gBackA, gBackB;

static E conj(const vector<E>& v, size_t from) { E r = mkBool(true); for (size_t i = from; i < v.size(); i++) r = mkAnd(r, v[i]); return r; }
static StateP mergeStates(StateP a, StateP b, size_t basePc, bool& ok) {
  auto fail = [&](int line = __builtin_LINE()) { static bool dbg = getenv("IRSYM_MF"); if (dbg) { static map<string, unsigned long> c; string k = std::to_string(line) + " " + whereStr(*a).substr(0, 120) + " bb=" + a->th[a->cur].fr.back().bb->getName().str(); unsigned long n = ++c[k]; if ((n & (n - 1)) == 0) fprintf(stderr, "mergefail %lu %s\n", n, k.c_str()); } gBackA = std::move(a); gBackB = std::move(b); ok = false; return StateP(); };
  if (a->th.size() != b->th.size() || a->cur != b->cur) return fail();
  if (a->choices.size() != b->choices.size() || a->choices != b->choices) return fail();
  if (a->kv != b->kv) return fail();
  // inputs: names must be a consistent set (same prefix); allow one to extend the other
  for (size_t i = 0; i < a->th.size(); i++) {
    auto &x = a->th[i], &y = b->th[i];
    if (x.fr.size() != y.fr.size() || x.blocked != y.blocked || x.done != y.done) return fail();
    for (size_t k = 0; k < x.fr.size(); k++) {
      auto &p = x.fr[k], &q = y.fr[k];
      if (p.f != q.f || p.bb != q.bb || p.pc != q.pc || p.allocas != q.allocas) return fail();
    }
  }
  // common prefix of path conditions
  size_t pre = 0;
  while (pre < a->pc.size() && pre < b->pc.size() && a->pc[pre] == b->pc[pre]) pre++;
  if (pre < basePc) pre = pre;
  E ca = conj(a->pc, pre), cb = conj(b->pc, pre);
  E sel = ca;
  // memory
  auto ia = a->mem.begin(), ib = b->mem.begin();
  vector<ObjP> add;
  vector<std::pair<ObjP, ObjP>> diff;
  while (ia != a->mem.end() || ib != b->mem.end()) {
    if (ib == b->mem.end() || (ia != a->mem.end() && ia->first < ib->first)) { ++ia; continue; }   // only in a: keep
    if (ia == a->mem.end() || ib->first < ia->first) { add.push_back(ib->second); ++ib; continue; }
    if (ia->second != ib->second) { if (ia->second->size != ib->second->size) return fail(); diff.push_back({ia->second, ib->second}); }
    ++ia; ++ib;
  }
  for (auto& o : add) { // overlap with something in a?
    auto it = a->mem.upper_bound(o->base);
    if (it != a->mem.end() && it->first < o->base + o->size) return fail();
    if (it != a->mem.begin()) { --it; if (it->second->base + it->second->size > o->base) return fail(); }
  }
  auto widthOk = [](E x, E y) { return (!x && !y) || (x && y && x->width == y->width && (x->op == TUPLE) == (y->op == TUPLE)); };
  for (size_t i = 0; i < a->th.size(); i++) for (size_t k = 0; k < a->th[i].fr.size(); k++) {
    auto &p = a->th[i].fr[k].regs, &q = b->th[i].fr[k].regs;
    for (size_t r = 0; r < p.size(); r++) if (p[r] != q[r] && p[r] && q[r] && !widthOk(p[r], q[r])) return fail();
  }
  for (auto& d : diff) {
    // merge cells
    auto n = std::make_shared<Obj>(*d.first);
    auto &x = d.first->cells, &y = d.second->cells;
    for (size_t i = 0; i < x.size();) {
      if (x[i].e == y[i].e && x[i].idx == y[i].idx) { i++; continue; }
      if (!x[i].e && y[i].e) { n->cells[i] = y[i]; i++; continue; }   // uninitialised on one side: any value
      if (x[i].e && !y[i].e) { i++; continue; }
      // maximal run
      size_t j = i + 1;
      auto run = [&](vector<Cell>& c, size_t from) -> size_t {
        size_t t = 1;
        while (from + t < c.size() && c[from + t].e == c[from].e && c[from + t].idx == c[from].idx + t) t++;
        return t;
      };
      size_t lx = run(x, i), ly = run(y, i);
      size_t L = std::max(lx, ly);
      bool okL = L > 1;
      for (size_t t = 0; t < L; t++) if (!x[i + t].e || !y[i + t].e) { L = t; break; }
      okL = L > 1;
      if (okL) {
        auto get = [&](vector<Cell>& c) { E r = nullptr;
          for (size_t t = 0; t < L;) {   // runs of bytes of one term stay together
            size_t u = t + 1; while (u < L && c[i + u].e == c[i + t].e && c[i + u].idx == c[i + t].idx + (u - t)) u++;
            E p = mkExtract(c[i + t].e, c[i + t].idx * 8, (u - t) * 8); r = r ? mkConcat(p, r) : p; t = u;
          }
          return r; };
        E v = mkIte(sel, get(x), get(y));
        for (size_t t = 0; t < L; t++) n->cells[i + t] = Cell{v, (uint32_t)t};
        j = i + L;
      } else {
        E bx = x[i].e->width == 8 ? x[i].e : mkExtract(x[i].e, x[i].idx * 8, 8);
        E by = y[i].e->width == 8 ? y[i].e : mkExtract(y[i].e, y[i].idx * 8, 8);
        n->cells[i] = Cell{mkIte(sel, bx, by), 0};
      }
      i = j;
    }
    a->mem[n->base] = n;
  }
  for (auto& o : add) a->mem[o->base] = o;
  for (size_t i = 0; i < a->th.size(); i++) for (size_t k = 0; k < a->th[i].fr.size(); k++) {
    auto &p = a->th[i].fr[k].regs, &q = b->th[i].fr[k].regs;
    for (size_t r = 0; r < p.size(); r++) {
      if (p[r] == q[r]) continue;
      if (!p[r]) { p[r] = q[r]; continue; }   // defined on one side only: dead at the join
      if (!q[r]) continue;
      p[r] = mkIte(sel, p[r], q[r]);
    }
  }
  a->pc.resize(pre);
  E dj = mkOr(ca, cb);
  addPC(*a, dj);
  a->next = std::max(a->next, b->next);
  a->instr = std::max(a->instr, b->instr);
  { std::set<string> have; for (auto& i : a->inputs) have.insert(i.name); for (auto& i : b->inputs) if (!have.count(i.name)) a->inputs.push_back(i); }
  for (auto& kvp : b->nameCnt) a->nameCnt[kvp.first] = std::max(a->nameCnt[kvp.first], kvp.second);
  for (auto& e : b->exn) a->exn.insert(e);
  ok = true;
  return a;
}
static bool budget() {
  if (now() - tStart > opt.timeBudget) { gInconclusive["time budget exhausted"]++; return false; }
  if (gViol.size() >= opt.maxViol) return false;
  return true;
}
struct StopAll {};
// continue in the innermost region still being run, or as a path of its own
static void leaveRegion(StateP s) {
  if (gOuter.empty() || s->cur != gOuter.back().r.tid) { work.push_back(std::move(s)); return; }
  Outer o = gOuter.back();
  runUntil(std::move(s), o.r, *o.out);
}
static void runUntil(StateP s, const Region& r, vector<StateP>& out) {
  try {
    while (true) {
      if (atJoin(*s, r)) { out.push_back(std::move(s)); return; }
      if (s->cur != r.tid) { work.push_back(std::move(s)); return; }   // blocked
      for (size_t i = gOuter.size(); i-- > 1 && gOuter[i].loop;) if (atJoin(*s, gOuter[i - 1].r)) { gOuter[i - 1].out->push_back(std::move(s)); return; }
      if (r.join && s->th[s->cur].fr.size() < r.depth) {   // left by a return or an exception: go on in the region around this one
        Outer me = gOuter.back(); gOuter.pop_back();
        struct Push { Outer& o; ~Push() { gOuter.push_back(o); } } push{me};
        leaveRegion(std::move(s)); return;
      }
      if ((s->instr & 1023) == 0) { if (!budget()) throw StopAll(); }
      if (s->instr > opt.maxInstrPath) { inconclusive("path instruction limit"); endPath(); }
      step(*s);
    }
  } catch (PathEnd&) { }
}
static void runPath(StateP s) {
  try {
    while (true) {
      if ((s->instr & 1023) == 0 && !budget()) throw StopAll();
      if (s->instr > opt.maxInstrPath) { inconclusive("path instruction limit"); endPath(); }
      step(*s);
    }
  } catch (PathEnd&) { }
}

#include "intrinsics.inc"

// ---------------------------------------------------------------- start-up
static void initGlobals(State& s) {
  uint64_t fa = 0x10000;
  for (auto& F : *M) { gAddr[&F] = fa; gFnAt[fa] = &F; fa += 16; }
  uint64_t ga = 0x10000000;
  vector<GlobalVariable*> gv;
  for (auto& g : M->globals()) {
    uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8;
    uint64_t al = std::max<uint64_t>(16, g.getAlign() ? g.getAlign()->value() : 16);
    ga = (ga + al - 1) / al * al;
    gAddr[&g] = ga;
    auto o = std::make_shared<Obj>();
    o->base = ga; o->size = sz; o->kind = 0; o->name = g.getName().str();
    o->cells.assign(sz, Cell{mkConst(8, 0), 0});
    if (!g.hasInitializer()) {
      // external data object: keep it zero (type_info, vtables of the library, stdin...)
      if (sz < 64) { o->size = 64; o->cells.assign(64, Cell{mkConst(8, 0), 0}); sz = 64; }
    }
    ga += sz + 64;
    if (g.isConstant() && g.hasInitializer()) { gConstMem[o->base] = o; }
    else s.mem[o->base] = o;
    gv.push_back(&g);
  }
  std::function<void(Obj*, uint64_t, const Constant*)> put = [&](Obj* o, uint64_t off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
      if (!t->isVectorTy()) {
        uint64_t es = DL->getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); i++) put(o, off + i * es, cd->getElementAsConstant(i));
        return;
      }
    }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
      auto* sl = DL->getStructLayout(cs->getType());
      for (unsigned i = 0; i < cs->getNumOperands(); i++) put(o, off + sl->getElementOffset(i), cs->getOperand(i));
      return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(c)) {
      uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
      for (unsigned i = 0; i < ca->getNumOperands(); i++) put(o, off + i * es, ca->getOperand(i));
      return;
    }
    E e = constE(c);
    uint32_t n = DL->getTypeStoreSize(t);
    if (e->width != n * 8) e = mkZext(e, n * 8);
    for (uint32_t i = 0; i < n; i++) o->cells[off + i] = Cell{mkConst(8, e->c.extractBitsAsZExtValue(8, 8 * i)), 0};
  };
  for (auto* g : gv) if (g->hasInitializer()) {
    uint64_t a = gAddr[g];
    Obj* o = gConstMem.count(a) ? gConstMem[a].get() : s.mem[a].get();
    put(o, 0, g->getInitializer());
    if (g->isConstant()) o->ro = true;
  }
  // __ImageBase etc. are not needed
}
static string jstr(const string& s) {
  string r = "\"";
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
static void writeResult(bool complete) {
  std::ofstream o(opt.out);
  o << "{\n\"complete\": " << (complete && gInconclusive.empty() ? "true" : "false") << ",\n";
  o << "\"paths\": " << st.paths << ", \"instructions\": " << st.instr << ", \"forks\": " << st.forks << ", \"merges\": " << st.merges << ", \"merge_failures\": " << st.mergeFail << ",\n";
  o << "\"queries\": " << st.queries << ", \"sat\": " << st.qsat << ", \"unsat\": " << st.qunsat << ", \"unknown\": " << st.qunknown << ", \"cache_hits\": " << st.cacheHits << ", \"model_hits\": " << st.modelHits << ",\n";
  o << "\"solver_s\": " << st.solverTime << ", \"max_query_s\": " << st.maxQuery << ", \"wall_s\": " << (now() - tStart) << ", \"exprs\": " << exprCount() << ",\n";
  o << "\"asserts\": " << st.asserts << ", \"asserts_by_solver\": " << st.assertsSolved << ", \"asserts_by_rewriting\": " << st.assertsTrivial << ", \"asserts_unknown\": " << st.assertsUnknown << ", \"fp_havoc\": " << st.fpHavoc << ",\n";
  auto dump = [&](const char* n, std::map<string, uint64_t>& m) { o << jstr(n) << ": {"; bool f = true; for (auto& x : m) { o << (f ? "" : ", ") << jstr(x.first) << ": " << x.second; f = false; } o << "},\n"; };
  if (gForkProf) for (auto& f : gForkAt) fprintf(stderr, "%8lu %s\n", (unsigned long)f.second, f.first.c_str());
  dump("covers", gCovers); dump("inconclusive", gInconclusive); dump("notes", gNotes);
  o << "\"functions\": ["; { bool f = true; for (auto& x : gFuncs) { o << (f ? "" : ", ") << jstr(x); f = false; } } o << "],\n";
  auto dumpV = [&](const char* nm, vector<Violation>& L) {
    o << jstr(nm) << ": ["; bool f = true;
    for (auto& v : L) {
      o << (f ? "\n" : ",\n") << "{\"kind\": " << jstr(v.kind) << ", \"msg\": " << jstr(v.msg) << ", \"where\": " << jstr(v.where) << ", \"choices\": [";
      bool g = true; for (auto& c : v.choices) { o << (g ? "" : ", ") << "[" << jstr(c.first) << ", " << c.second << "]"; g = false; }
      o << "], \"vars\": ["; g = true;
      for (auto& c : v.vars) { o << (g ? "" : ", ") << "[" << jstr(c.first) << ", " << jstr(c.second) << "]"; g = false; }
      o << "]}"; f = false;
    }
    o << "]";
  };
  dumpV("violations", gViol); o << ",\n"; dumpV("witnesses", gWit);
  o << "\n}\n";
}
static void* mainThread(void*) {
  LLVMContext ctx; SMDiagnostic err;
  auto mod = parseIRFile(opt.module, err, ctx);
  if (!mod) { err.print("irsym", errs()); exit(3); }
  M = mod.get(); DL = &M->getDataLayout();
  initSolver(); initBuiltins();
  StateP s(new State());
  initGlobals(*s);
  Function* entry = M->getFunction(opt.entry);
  if (!entry || entry->isDeclaration()) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); exit(3); }
  s->th.push_back(Thread());
  // global constructors run first: frames are pushed so that they execute in order
  vector<std::pair<uint64_t, Function*>> ctors;
  if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
    for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  bool complete = true;
  try {
    // run constructors concretely
    for (auto& c : ctors) {
      pushCall(*s, c.second, {});
      while (!s->th[0].fr.empty()) {
        // emulate: stop when the frame stack empties
        Frame& f = s->th[0].fr.back();
        Instruction* I = f.f->code[f.bb][f.pc];
        if (I->getOpcode() == Instruction::Ret && s->th[0].fr.size() == 1) { popFrame(*s); break; }
        step(*s);
      }
    }
    gFuncs.clear(); for (auto& x : gFI) x.second->counted = false;
    pushCall(*s, entry, {});
    s->instr = 0;
    work.push_back(std::move(s));
    while (!work.empty()) {
      if (!budget()) { complete = false; break; }
      StateP n = std::move(work.back()); work.pop_back();
      runPath(std::move(n));
      if (st.paths + st.killed > opt.maxPaths) { gInconclusive["path limit"]++; break; }
    }
  } catch (PathEnd&) { inconclusive("path ended in global constructors"); }
  catch (StopAll&) { complete = false; }
  writeResult(complete);
  _exit(0);
  return nullptr;
}
int main(int argc, char** argv) {
  tStart = now();
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto nx = [&]() { return string(argv[++i]); };
    if (a == "--out") opt.out = nx();
    else if (a == "--entry") opt.entry = nx();
    else if (a == "--shard") { opt.shard = stoul(nx()); opt.shards = stoul(nx()); }
    else if (a == "--time") opt.timeBudget = stod(nx());
    else if (a == "--qtimeout") opt.queryTimeout = stoul(nx());
    else if (a == "--max-viol") opt.maxViol = stoul(nx());
    else if (a == "--max-instr") opt.maxInstrPath = stoull(nx());
    else if (a == "--max-paths") opt.maxPaths = stoull(nx());
    else if (a == "--generic") gGeneric = true;
    else if (a == "--uf-opaque") gUfOpaque = true;
    else if (a == "--fork-select") opt.forkSelect = stoul(nx());
    else if (a == "--witness") gMaxWit = stoul(nx());
    else if (a == "--pin") { string p = nx(); auto e = p.find('='); opt.pins.push_back({p.substr(0, e), stoll(p.substr(e + 1))}); }
    else if (a == "--param") { string p = nx(); auto e = p.find('='); opt.params.push_back({p.substr(0, e), stoll(p.substr(e + 1))}); }
    else opt.module = a;
  }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2000ULL << 20);
  pthread_t th;
  if (pthread_create(&th, &at, mainThread, nullptr)) { perror("thread"); return 3; }
  pthread_join(th, nullptr);
  return 0;
}
