// LLVM intrinsics.
static E lanes(E v, unsigned n, std::function<E(unsigned)> f) { vector<E> l; for (unsigned i = 0; i < n; i++) l.push_back(f(i)); return vbuild(l); }
static E byteAt(E v, unsigned i) { return mkExtract(v, i * 8, 8); }
static E xtime(E b) {
  E sh = mkBin(SHL, b, mkConst(8, 1));
  E hi = mkExtract(b, 7, 1);
  return mkBin(XOR, sh, mkIte(hi, mkConst(8, 0x1b), mkConst(8, 0)));
}
static E aesEncRound(E x, E k, bool last) {   // SubBytes as an arbitrary function
  vector<E> t(16), o(16);
  for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) t[c * 4 + r] = ufSbox(byteAt(x, ((c + r) % 4) * 4 + r));
  if (last) o = t;
  else for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) {
    E a = t[c * 4 + r], b = t[c * 4 + (r + 1) % 4], d = t[c * 4 + (r + 2) % 4], e = t[c * 4 + (r + 3) % 4];
    o[c * 4 + r] = mkBin(XOR, mkBin(XOR, xtime(a), mkBin(XOR, xtime(b), b)), mkBin(XOR, d, e));
  }
  return mkBin(XOR, vbuild(o), k);
}
static E aesKeygen(E x, uint64_t rcon) {
  auto w = [&](int i) { return mkExtract(x, i * 32, 32); };
  auto sub = [&](E v) { return vbuild({ufSbox(byteAt(v, 0)), ufSbox(byteAt(v, 1)), ufSbox(byteAt(v, 2)), ufSbox(byteAt(v, 3))}); };
  auto rot = [&](E v) { return vbuild({byteAt(v, 1), byteAt(v, 2), byteAt(v, 3), byteAt(v, 0)}); };
  E s1 = sub(w(1)), s3 = sub(w(3));
  return vbuild({s1, mkBin(XOR, rot(s1), mkConst(32, rcon)), s3, mkBin(XOR, rot(s3), mkConst(32, rcon))});
}
static E ctpopE(E v) {
  uint32_t w = v->width; E r = mkConst(APInt(w, 0));
  for (uint32_t i = 0; i < w; i++) r = mkBin(ADD, r, mkZext(mkExtract(v, i, 1), w));
  return r;
}
static E scalarIntr(Intrinsic::ID id, vector<E>& a) {
  uint32_t w = a[0]->width;
  switch (id) {
    case Intrinsic::umax: return mkIte(mkBin(ULT, a[0], a[1]), a[1], a[0]);
    case Intrinsic::umin: return mkIte(mkBin(ULT, a[0], a[1]), a[0], a[1]);
    case Intrinsic::smax: return mkIte(mkBin(SLT, a[0], a[1]), a[1], a[0]);
    case Intrinsic::smin: return mkIte(mkBin(SLT, a[0], a[1]), a[0], a[1]);
    case Intrinsic::abs: return mkIte(mkBin(SLT, a[0], mkConst(APInt(w, 0))), mkBin(SUB, mkConst(APInt(w, 0)), a[0]), a[0]);
    case Intrinsic::ctpop: return ctpopE(a[0]);
    case Intrinsic::bswap: { E r = nullptr; for (uint32_t i = 0; i < w / 8; i++) { E b = byteAt(a[0], i); r = r ? mkConcat(r, b) : b; } return r; }
    case Intrinsic::bitreverse: { E r = nullptr; for (uint32_t i = 0; i < w; i++) { E b = mkExtract(a[0], i, 1); r = r ? mkConcat(r, b) : b; } return r; }
    case Intrinsic::ctlz: { E r = mkConst(APInt(w, w)); for (uint32_t i = 0; i < w; i++) r = mkIte(mkExtract(a[0], i, 1), mkConst(APInt(w, w - 1 - i)), r); return r; }
    case Intrinsic::cttz: { E r = mkConst(APInt(w, w)); for (uint32_t i = w; i-- > 0;) r = mkIte(mkExtract(a[0], i, 1), mkConst(APInt(w, i)), r); return r; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      E cat = mkConcat(a[0], a[1]); E sh = mkBin(UREM, a[2], mkConst(APInt(w, w)));
      if (id == Intrinsic::fshl) return mkExtract(mkBin(SHL, cat, mkZext(sh, 2 * w)), w, w);
      return mkExtract(mkBin(LSHR, cat, mkZext(sh, 2 * w)), 0, w);
    }
    case Intrinsic::uadd_sat: { E r = mkBin(ADD, a[0], a[1]); return mkIte(mkBin(ULT, r, a[0]), mkConst(APInt::getAllOnes(w)), r); }
    case Intrinsic::usub_sat: return mkIte(mkBin(ULT, a[0], a[1]), mkConst(APInt(w, 0)), mkBin(SUB, a[0], a[1]));
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
      E x = mkSext(a[0], w + 1), y = mkSext(a[1], w + 1);
      E r = mkBin(id == Intrinsic::sadd_sat ? ADD : SUB, x, y);
      E mx = mkConst(APInt::getSignedMaxValue(w).sext(w + 1)), mn = mkConst(APInt::getSignedMinValue(w).sext(w + 1));
      return mkTrunc(mkIte(mkBin(SLT, mx, r), mx, mkIte(mkBin(SLT, r, mn), mn, r)), w);
    }
    default: return nullptr;
  }
}
static bool intrinsicCall(State& s, CallBase* ci, Function* F, vector<E>& a, E& rv) {
  Intrinsic::ID id = F->getIntrinsicID();
  switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore:
    case Intrinsic::vaend: case Intrinsic::vastart: case Intrinsic::x86_sse2_mfence: case Intrinsic::x86_sse2_lfence: case Intrinsic::pseudoprobe:
      if (!ci->getType()->isVoidTy()) rv = zeroOf(ci->getType());
      return true;
    case Intrinsic::stacksave: case Intrinsic::readcyclecounter: case Intrinsic::x86_rdtsc: rv = zeroOf(ci->getType()); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(s, a[0], a[1], concLen(s, a[2])); return true;
    case Intrinsic::memset: setMem(s, a[0], mkTrunc(a[1], 8), concLen(s, a[2])); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
    case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation: rv = a[0]; return true;
    case Intrinsic::objectsize: rv = mkConst(APInt::getAllOnes(bitsOf(ci->getType()))); return true;
    case Intrinsic::is_constant: rv = mkBool(false); return true;
    case Intrinsic::eh_typeid_for: {
      string want;
      if (auto* g = dyn_cast<GlobalVariable>(ci->getArgOperand(0)->stripPointerCasts())) want = g->getName().str();
      rv = mkConst(32, typeId(want.empty() ? "<any>" : want)); return true;
    }
    case Intrinsic::trap: case Intrinsic::debugtrap: report(s, "abort", "trap executed", nullptr); endPath();
    case Intrinsic::uadd_with_overflow: { E r = mkBin(ADD, a[0], a[1]); rv = mkTuple({r, mkBin(ULT, r, a[0])}); return true; }
    case Intrinsic::usub_with_overflow: rv = mkTuple({mkBin(SUB, a[0], a[1]), mkBin(ULT, a[0], a[1])}); return true;
    case Intrinsic::umul_with_overflow: { uint32_t w = a[0]->width; E r = mkBin(MUL, mkZext(a[0], 2 * w), mkZext(a[1], 2 * w)); rv = mkTuple({mkTrunc(r, w), mkNot(mkEq(mkExtract(r, w, w), mkConst(APInt(w, 0))))}); return true; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      uint32_t w = a[0]->width, W = id == Intrinsic::smul_with_overflow ? 2 * w : w + 1;
      Op op = id == Intrinsic::sadd_with_overflow ? ADD : id == Intrinsic::ssub_with_overflow ? SUB : MUL;
      E r = mkBin(op, mkSext(a[0], W), mkSext(a[1], W)); E t = mkTrunc(r, w);
      rv = mkTuple({t, mkNot(mkEq(mkSext(t, W), r))}); return true;
    }
    case Intrinsic::load_relative: rv = mkBin(ADD, a[0], mkSext(loadN(s, mkBin(ADD, a[0], mkSext(a[1], 64)), 4), 64)); return true;
    case Intrinsic::x86_aesni_aesenc: case Intrinsic::x86_aesni_aesenclast: {
      bool last = id == Intrinsic::x86_aesni_aesenclast;
      if (s.kv.count("aes_interp") && s.kv["aes_interp"]) { rv = aesEncRound(a[0], a[1], last); return true; }
      static uint32_t f1 = getUF("aesenc", {128}, 128), f2 = getUF("aesenclast", {128}, 128);
      rv = mkBin(XOR, mkUF(last ? f2 : f1, {decideItes(s, a[0])}), a[1]); return true;
    }
    case Intrinsic::x86_aesni_aeskeygenassist: {
      if (a[0]->isConst() || (s.kv.count("aes_interp") && s.kv["aes_interp"])) { rv = aesKeygen(a[0], concLen(s, a[1]) & 255); return true; }
      static uint32_t f = getUF("aeskeygen", {128, 8}, 128);
      rv = mkUF(f, {a[0], mkTrunc(a[1], 8)}); return true;
    }
    case Intrinsic::x86_aesni_aesdec: case Intrinsic::x86_aesni_aesdeclast: case Intrinsic::x86_aesni_aesimc: {
      uint32_t f = getUF("aes_" + std::to_string((int)id), {128}, 128);
      rv = mkUF(f, {a[0]}); if (a.size() > 1) rv = mkBin(XOR, rv, a[1]); return true;
    }
    case Intrinsic::x86_pclmulqdq: {
      uint64_t imm = concLen(s, a[2]);
      E x = mkZext(mkExtract(a[0], (imm & 1) ? 64 : 0, 64), 128), y = mkExtract(a[1], (imm & 16) ? 64 : 0, 64);
      E r = mkConst(APInt(128, 0));
      for (int i = 0; i < 64; i++) r = mkBin(XOR, r, mkIte(mkExtract(y, i, 1), mkBin(SHL, x, mkConst(128, i)), mkConst(APInt(128, 0))));
      rv = r; return true;
    }
    case Intrinsic::x86_sse2_pmovmskb_128: { vector<E> l; for (int i = 0; i < 16; i++) l.push_back(mkExtract(a[0], i * 8 + 7, 1)); rv = mkZext(vbuild(l), 32); return true; }
    case Intrinsic::x86_sse41_ptestz: rv = mkZext(mkEq(mkAnd(a[0], a[1]), mkConst(APInt(128, 0))), 32); return true;
    case Intrinsic::x86_sse41_ptestc: rv = mkZext(mkEq(mkAnd(mkNot(a[0]), a[1]), mkConst(APInt(128, 0))), 32); return true;
    case Intrinsic::x86_ssse3_pshuf_b_128: {
      if (!a[1]->isConst()) { inconclusive("pshufb with symbolic mask"); endPath(); }
      rv = lanes(a[0], 16, [&](unsigned i) { uint64_t m = byteAt(a[1], i)->u64(); return (m & 128) ? mkConst(8, 0) : byteAt(a[0], m & 15); }); return true;
    }
    case Intrinsic::x86_sse2_psrli_q: case Intrinsic::x86_sse2_pslli_q: case Intrinsic::x86_sse2_psrli_d: case Intrinsic::x86_sse2_pslli_d:
    case Intrinsic::x86_sse2_psrli_w: case Intrinsic::x86_sse2_pslli_w: case Intrinsic::x86_sse2_psrai_d: case Intrinsic::x86_sse2_psrai_w: {
      unsigned ew = (id == Intrinsic::x86_sse2_psrli_q || id == Intrinsic::x86_sse2_pslli_q) ? 64 : (id == Intrinsic::x86_sse2_psrli_d || id == Intrinsic::x86_sse2_pslli_d || id == Intrinsic::x86_sse2_psrai_d) ? 32 : 16;
      bool left = id == Intrinsic::x86_sse2_pslli_q || id == Intrinsic::x86_sse2_pslli_d || id == Intrinsic::x86_sse2_pslli_w;
      bool ar = id == Intrinsic::x86_sse2_psrai_d || id == Intrinsic::x86_sse2_psrai_w;
      E n = a[1], nn = ew < n->width ? mkTrunc(n, ew) : mkZext(n, ew);
      E ov = mkBin(ULT, mkConst(APInt(n->width, ew - 1)), n);
      rv = lanes(a[0], 128 / ew, [&](unsigned i) {
        E x = vget(a[0], i, ew);
        if (ar) return mkBin(ASHR, x, mkIte(ov, mkConst(ew, ew - 1), nn));
        return mkIte(ov, mkConst(APInt(ew, 0)), mkBin(left ? SHL : LSHR, x, nn));
      }); return true;
    }
    default: break;
  }
  if (id == Intrinsic::vector_reduce_add || id == Intrinsic::vector_reduce_or || id == Intrinsic::vector_reduce_and || id == Intrinsic::vector_reduce_xor || id == Intrinsic::vector_reduce_mul) {
    auto* vt = cast<FixedVectorType>(ci->getArgOperand(0)->getType()); uint32_t ew = bitsOf(vt->getElementType());
    Op op = id == Intrinsic::vector_reduce_add ? ADD : id == Intrinsic::vector_reduce_or ? OR : id == Intrinsic::vector_reduce_and ? AND : id == Intrinsic::vector_reduce_xor ? XOR : MUL;
    E r = vget(a[0], 0, ew);
    for (unsigned i = 1; i < vt->getNumElements(); i++) r = mkBin(op, r, vget(a[0], i, ew));
    rv = r; return true;
  }
  if (auto* vt = dyn_cast<FixedVectorType>(ci->getType())) {
    uint32_t ew = bitsOf(vt->getElementType()); vector<E> l;
    for (unsigned i = 0; i < vt->getNumElements(); i++) {
      vector<E> x; for (size_t k = 0; k < a.size(); k++) x.push_back(a[k] && a[k]->width == ew * vt->getNumElements() ? vget(a[k], i, ew) : a[k]);
      E r = scalarIntr(id, x); if (!r) { l.clear(); break; } l.push_back(r);
    }
    if (!l.empty()) { rv = vbuild(l); return true; }
  } else if (!a.empty() && a[0] && ci->getType()->isIntegerTy()) {
    E r = scalarIntr(id, a); if (r) { rv = r; return true; }
  }
  if (ci->getType()->isFloatingPointTy()) { st.fpHavoc++; rv = mkVar("fp" + std::to_string(gUndefCnt++), bitsOf(ci->getType())); return true; }
  inconclusive("unsupported intrinsic " + F->getName().str()); endPath();
}
