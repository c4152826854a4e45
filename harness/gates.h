// Documented gate functions (independent of the code under test).
#pragma once
#include "util/common.h"
static const int kGateTypes[11] = { ANDGATE, ANDNGATE, NANDGATE, NANDNGATE, ORGATE, ORNGATE, NORGATE, NORNGATE, XORGATE, XNORGATE, NOTGATE };
static inline unsigned specGate(int t, unsigned a, unsigned b) {
  a &= 1; b &= 1;
  switch (t) {
    case 8: return a & b;             // AND
    case 4: return a & (b ^ 1);       // ANDN
    case 7: return (a & b) ^ 1;       // NAND
    case 11: return (a & (b ^ 1)) ^ 1; // NANDN
    case 14: return a | b;            // OR
    case 13: return a | (b ^ 1);      // ORN
    case 1: return (a | b) ^ 1;       // NOR
    case 2: return (a | (b ^ 1)) ^ 1; // NORN
    case 6: return a ^ b;             // XOR
    case 9: return (a ^ b) ^ 1;       // XNOR
    case 12: return a ^ 1;            // NOT
  }
  return 0;
}
static inline bool isFree(int t) { return t == XORGATE || t == XNORGATE || t == NOTGATE; }
