// Hash-consed bit-vector expression DAG with light simplification, and its
// translation to Z3.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <llvm/ADT/APInt.h>
#include <z3.h>

using llvm::APInt;

enum Op : uint8_t {
  CONST, VAR, UF, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL,
  LSHR, ASHR, EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT, TUPLE
};

struct Expr {
  Op op;
  uint32_t width;   // 0 for TUPLE
  uint32_t id;
  uint32_t aux;     // EXTRACT: low bit; VAR: variable number; UF: function number
  uint64_t hash;
  std::vector<const Expr*> k;
  APInt c;
  mutable Z3_ast ast = nullptr;
  bool isConst() const { return op == CONST; }
  uint64_t u64() const { return c.getZExtValue(); }
};
typedef const Expr* E;

struct VarInfo { std::string name; uint32_t width; };
struct UFInfo { std::string name; std::vector<uint32_t> args; uint32_t ret; Z3_func_decl decl = nullptr; };

extern std::vector<VarInfo> gVars;
extern bool gGeneric;   // comparisons with fresh random or cipher values are never equal
extern bool gUfOpaque;  // uninterpreted applications reach the solver as unconstrained values
extern std::vector<UFInfo> gUFs;

E mkConst(const APInt& v);
E mkConst(uint32_t w, uint64_t v);
E mkBool(bool b);
E mkVar(const std::string& name, uint32_t w);
uint32_t getUF(const std::string& name, const std::vector<uint32_t>& args, uint32_t ret);
E mkUF(uint32_t f, const std::vector<E>& a);
E mkBin(Op op, E a, E b);
E mkNot(E a);                 // bitwise
E mkIte(E c, E a, E b);
E mkExtract(E a, uint32_t lo, uint32_t w);
E mkConcat(E hi, E lo);
E mkZext(E a, uint32_t w);
E mkSext(E a, uint32_t w);
E mkTuple(const std::vector<E>& v);
inline E mkEq(E a, E b) { return mkBin(EQ, a, b); }
inline E mkAnd(E a, E b) { return mkBin(AND, a, b); }
inline E mkOr(E a, E b) { return mkBin(OR, a, b); }
E mkTrunc(E a, uint32_t w);
Z3_ast toZ3(Z3_context c, E e);
void collectLeaves(E e, std::vector<uint32_t>& out);  // sorted leaf ids (vars and UF symbols)
uint64_t exprCount();
std::string exprStr(E e, int depth = 4);
unsigned trailingZeros(E e);
APInt foldBin(Op op, const APInt& a, const APInt& b);
