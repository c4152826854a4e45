// External functions known to the engine and the harness interface (sym_*).
static uint64_t gMaxAlloc = 64ULL << 20;
static E c64(uint64_t v) { return mkConst(64, v); }
static E c32(uint64_t v) { return mkConst(32, v); }
static E asBool(E e) { return e->width == 1 ? e : mkNot(mkEq(e, mkConst(APInt(e->width, 0)))); }
static E newInput(State& s, const string& base, uint32_t bits) {
  string nm = freshName(s, base);
  E v = mkVar(nm, bits);
  s.inputs.push_back({"var", nm, v});
  return v;
}
static E argOr(vector<E>& a, size_t i) { return a[i]; }
static E loadN(State& s, E p, uint64_t n) {
  if (p->isConst()) return loadBytes(s, p, n);
  E r = nullptr;
  for (uint64_t i = 0; i < n; i++) { E b = loadBytes(s, mkBin(ADD, p, c64(i)), 1); r = r ? mkConcat(b, r) : b; }
  return r;
}
static void ignoreFn(const char* n, uint64_t ret = 0) {
  gBuiltins[n] = [ret](State&, CallBase* ci, vector<E>&, E& rv) {
    if (!ci->getType()->isVoidTy()) { if (isAgg(ci->getType())) rv = zeroOf(ci->getType()); else rv = mkConst(APInt(bitsOf(ci->getType()), ret)); }
    return true;
  };
}
static void throwFn(const char* n, const char* type) {
  string t = type;
  gBuiltins[n] = [t](State& s, CallBase*, vector<E>&, E&) { throwStd(s, t); return false; };
}
static uint8_t realSbox(uint8_t x) {
  auto mul = [](uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = (uint8_t)((a << 1) ^ (a & 0x80 ? 0x1b : 0)); b >>= 1; } return r; };
  uint8_t inv = 0; if (x) for (int y = 1; y < 256; y++) if (mul(x, y) == 1) { inv = y; break; }
  uint8_t r = 0x63; for (int k = 0; k < 5; k++) r ^= (uint8_t)((inv << k) | (inv >> (8 - k))); return r;
}
static E ufSbox(E b) {
  if (b->isConst()) return mkConst(8, realSbox((uint8_t)b->u64()));
  static uint32_t f = getUF("sbox", {8}, 8);
  return mkUF(f, {b});
}
static void initBuiltins() {
  auto def = [](const char* n, Builtin b) { gBuiltins[n] = b; };
  // ---- allocation
  auto alloc = [](State& s, E n, const char* what, bool zero, bool thrown, E& rv) -> bool {
    uint64_t sz;
    if (n->isConst()) sz = n->u64();
    else {
      // a symbolic size: split off the sizes no machine could satisfy first
      E big = mkBin(ULT, c64(gMaxAlloc), n);
      ModelP m; 
      if (check(s.pc, big) != UNSAT) {
        if (check(s.pc, mkNot(big)) == UNSAT) sz = ~0ULL;
        else { assumeOrFork(s, mkNot(big)); sz = concLen(s, n); }
      } else sz = concLen(s, n);
    }
    if (sz > gMaxAlloc) {
      if (thrown) { throwStd(s, "_ZTISt9bad_alloc"); return false; }
      rv = c64(0); return true;
    }
    uint64_t a = allocObj(s, sz, 2, 16, what);
    if (zero) { ObjP o = s.mem[a]; for (auto& c : o->cells) c = Cell{mkConst(8, 0), 0}; }
    rv = c64(a); return true;
  };
  def("malloc", [alloc](State& s, CallBase*, vector<E>& a, E& rv) { return alloc(s, a[0], "malloc", false, false, rv); });
  def("calloc", [alloc](State& s, CallBase*, vector<E>& a, E& rv) { return alloc(s, mkBin(MUL, a[0], a[1]), "calloc", true, false, rv); });
  for (const char* n : {"_Znwm", "_Znam"}) def(n, [alloc](State& s, CallBase*, vector<E>& a, E& rv) { return alloc(s, a[0], "new", false, true, rv); });
  for (const char* n : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) def(n, [alloc](State& s, CallBase*, vector<E>& a, E& rv) { return alloc(s, a[0], "new", false, false, rv); });
  for (const char* n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) def(n, [alloc](State& s, CallBase*, vector<E>& a, E& rv) { return alloc(s, a[0], "new", false, true, rv); });
  def("aligned_alloc", [alloc](State& s, CallBase*, vector<E>& a, E& rv) { return alloc(s, a[1], "aligned_alloc", false, false, rv); });
  def("posix_memalign", [](State& s, CallBase*, vector<E>& a, E& rv) {
    uint64_t n = concLen(s, a[2]), al = concLen(s, a[1]);
    if (n > gMaxAlloc) { rv = c32(12); return true; }
    uint64_t p = allocObj(s, n, 2, al, "posix_memalign");
    storeBytes(s, a[0], c64(p), 8); rv = c32(0); return true;
  });
  def("realloc", [](State& s, CallBase*, vector<E>& a, E& rv) {
    uint64_t n = concLen(s, a[1]), old = concretize(s, a[0]).getZExtValue();
    uint64_t p = allocObj(s, n, 2, 16, "realloc");
    if (old) {
      auto it = s.mem.find(old);
      if (it == s.mem.end() || it->second->kind != 2) { memError(s, "realloc of a pointer that is not an allocated block", nullptr); endPath(); }
      uint64_t k = std::min(n, it->second->size); copyMem(s, c64(p), c64(old), k); freeObj(s, c64(old), "realloc");
    }
    rv = c64(p); return true;
  });
  for (const char* n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) {
    def(n, [](State& s, CallBase*, vector<E>& a, E&) { freeObj(s, a[0], "release"); return true; });
  }
  // ---- memory blocks
  for (const char* n : {"memcpy", "memmove", "__memcpy_chk", "__memmove_chk"}) def(n, [](State& s, CallBase*, vector<E>& a, E& rv) { copyMem(s, a[0], a[1], concLen(s, a[2])); rv = a[0]; return true; });
  for (const char* n : {"memset", "__memset_chk"}) def(n, [](State& s, CallBase*, vector<E>& a, E& rv) { setMem(s, a[0], mkTrunc(a[1], 8), concLen(s, a[2])); rv = a[0]; return true; });
  def("bzero", [](State& s, CallBase*, vector<E>& a, E&) { setMem(s, a[0], mkConst(8, 0), concLen(s, a[1])); return true; });
  // ---- termination
  for (const char* n : {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "__cxa_bad_typeid", "__cxa_bad_cast", "__stack_chk_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_"}) {
    string nm = n; def(n, [nm](State& s, CallBase*, vector<E>&, E&) -> bool { report(s, "abort", nm + " called", nullptr); endPath(); });
  }
  def("__assert_fail", [](State& s, CallBase*, vector<E>& a, E&) -> bool { report(s, "abort", "assert failed: " + cstr(s, a[0]), nullptr); endPath(); });
  for (const char* n : {"exit", "_exit", "_Exit"}) def(n, [](State& s, CallBase*, vector<E>&, E&) -> bool { report(s, "exit", "exit called by library code", nullptr); endPath(); });
  // ---- exceptions
  def("__cxa_allocate_exception", [](State& s, CallBase*, vector<E>& a, E& rv) { rv = c64(allocObj(s, concLen(s, a[0]) + 16, 2, 16, "exception")); return true; });
  def("__cxa_free_exception", [](State& s, CallBase*, vector<E>& a, E&) { return true; });
  def("__cxa_throw", [](State& s, CallBase*, vector<E>& a, E&) {
    string ty = "?";
    if (a[1]->isConst()) for (auto& g : M->globals()) { auto it = gAddr.find(&g); if (it != gAddr.end() && it->second == a[1]->u64()) { ty = g.getName().str(); break; } }
    uint64_t p = concretize(s, a[0]).getZExtValue(); s.exn[p] = ty; unwind(s, p, ty); return false;
  });
  def("__cxa_begin_catch", [](State& s, CallBase*, vector<E>& a, E& rv) { s.curExn.push_back(std::to_string(a[0]->u64())); rv = a[0]; return true; });
  def("__cxa_get_exception_ptr", [](State& s, CallBase*, vector<E>& a, E& rv) { rv = a[0]; return true; });
  def("__cxa_end_catch", [](State& s, CallBase*, vector<E>&, E&) { if (!s.curExn.empty()) s.curExn.pop_back(); return true; });
  def("__cxa_rethrow", [](State& s, CallBase*, vector<E>&, E&) {
    uint64_t p = s.curExn.empty() ? 0 : std::stoull(s.curExn.back());
    unwind(s, p, s.exn[p]); return false;
  });
  throwFn("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error");
  throwFn("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error");
  throwFn("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range");
  throwFn("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range");
  throwFn("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument");
  throwFn("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc");
  throwFn("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length");
  throwFn("__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length");
  throwFn("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast");
  throwFn("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error");
  throwFn("_ZSt20__throw_domain_errorPKc", "_ZTISt12domain_error");
  throwFn("_ZSt22__throw_overflow_errorPKc", "_ZTISt14overflow_error");
  throwFn("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call");
  for (const char* n : {"_ZNSt13runtime_errorC1EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt12length_errorC1EPKc", "_ZNSt12domain_errorC1EPKc",
      "_ZNSt13runtime_errorC1ERKS_", "_ZNSt11logic_errorC1ERKS_", "_ZNSt13runtime_errorD1Ev", "_ZNSt11logic_errorD1Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9exceptionD2Ev", "_ZNSt16invalid_argumentD1Ev", "_ZNSt12out_of_rangeD1Ev", "_ZNSt12length_errorD1Ev",
      "_ZNSt13runtime_errorC2EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt13runtime_errorD2Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
      "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"}) ignoreFn(n);
  // ---- misc runtime
  ignoreFn("__cxa_atexit"); ignoreFn("atexit"); ignoreFn("__cxa_thread_atexit");
  def("__cxa_guard_acquire", [](State& s, CallBase*, vector<E>& a, E& rv) { E b = loadBytes(s, a[0], 1); rv = mkZext(mkEq(b, mkConst(8, 0)), 32); return true; });
  def("__cxa_guard_release", [](State& s, CallBase*, vector<E>& a, E&) { storeBytes(s, a[0], mkConst(8, 1), 1); return true; });
  ignoreFn("__cxa_guard_abort");
  def("__errno_location", [](State& s, CallBase*, vector<E>&, E& rv) {
    auto it = s.kv.find("errno");
    if (it == s.kv.end()) { uint64_t a = allocObj(s, 4, 0, 16, "errno"); storeBytes(s, c64(a), c32(0), 4); s.kv["errno"] = a; rv = c64(a); }
    else rv = c64(it->second);
    return true;
  });
  for (const char* n : {"printf", "puts", "putchar", "fprintf", "fflush", "fputc", "fputs", "vprintf", "vfprintf", "perror", "setvbuf", "srand", "usleep", "sleep", "clock",
      "gettimeofday", "clock_gettime", "srandom", "signal", "__printf_chk", "__fprintf_chk", "sched_yield", "time", "pthread_mutex_lock", "pthread_mutex_unlock"}) ignoreFn(n);
  def("fwrite", [](State& s, CallBase*, vector<E>& a, E& rv) { rv = a[2]; return true; });
  def("rand", [](State& s, CallBase*, vector<E>&, E& rv) { rv = mkZext(newInput(s, "rand", 31), 32); return true; });
  def("random", [](State& s, CallBase*, vector<E>&, E& rv) { rv = mkZext(newInput(s, "rand", 31), 64); return true; });
  // ---- harness interface
  def("sym_bytes", [](State& s, CallBase*, vector<E>& a, E&) {
    uint64_t n = concLen(s, a[1]); if (!n) return true;
    E v = newInput(s, cstr(s, a[2]), n * 8);
    storeBytes(s, a[0], v, n); return true;
  });
  def("sym_u64", [](State& s, CallBase*, vector<E>& a, E& rv) { rv = newInput(s, cstr(s, a[0]), 64); return true; });
  def("sym_u32", [](State& s, CallBase*, vector<E>& a, E& rv) { rv = newInput(s, cstr(s, a[0]), 32); return true; });
  def("sym_u8", [](State& s, CallBase*, vector<E>& a, E& rv) { rv = newInput(s, cstr(s, a[0]), 8); return true; });
  def("sym_bool", [](State& s, CallBase*, vector<E>& a, E& rv) { rv = mkZext(newInput(s, cstr(s, a[0]), 1), 32); return true; });
  def("sym_range", [](State& s, CallBase*, vector<E>& a, E& rv) {   // value in [0, n)
    uint64_t n = concLen(s, a[0]);
    E v = newInput(s, cstr(s, a[1]), 32);
    if (n == 0) endPath();
    unsigned w = 1; while (w < 32 && (1ULL << w) < n) w++;
    // narrow variable keeps the terms small
    E lowv = mkZext(mkExtract(v, 0, w), 32);
    E c = mkAnd(mkEq(v, lowv), mkBin(ULT, lowv, c32(n)));
    addPC(s, c);
    rv = lowv; return true;
  });
  def("sym_assume", [](State& s, CallBase*, vector<E>& a, E&) {
    E c = asBool(a[0]);
    if (c->isConst()) { if (c->c == 0) endPath(); return true; }
    Res r = check(s.pc, c);
    if (r == UNSAT) endPath();
    if (r == UNKNOWN) inconclusive("assumption undecided");
    addPC(s, c); return true;
  });
  def("sym_assert", [](State& s, CallBase*, vector<E>& a, E&) { doAssert(s, asBool(a[0]), cstr(s, a[1])); return true; });
  def("sym_fail", [](State& s, CallBase*, vector<E>& a, E&) { doAssert(s, mkBool(false), cstr(s, a[0])); return true; });
  def("sym_cover", [](State& s, CallBase*, vector<E>& a, E&) { gCovers[cstr(s, a[0])]++; return true; });
  def("sym_cover_if", [](State& s, CallBase*, vector<E>& a, E&) { E c = asBool(a[0]); string n = cstr(s, a[1]); if (!gCovers.count(n)) { if (check(s.pc, c) == SAT) gCovers[n]++; } return true; });
  def("sym_choose", [](State& s, CallBase*, vector<E>& a, E& rv) {
    uint64_t n = concLen(s, a[0]); string nm = freshName(s, cstr(s, a[1]));
    if (n == 0) endPath();
    uint64_t idx = s.kv["choiceidx"];
    for (auto& p : opt.pins) if (p.first == nm) { s.choices.push_back({nm, (uint64_t)p.second}); s.kv["choiceidx"] = idx * n + p.second; rv = c32(p.second); return true; }
    for (uint64_t v = n; v-- > 1;) {
      StateP o = clone(s);
      o->choices.push_back({nm, v}); o->kv["choiceidx"] = idx * n + v;
      finishCall(*o, c32(v));
      work.push_back(std::move(o));
    }
    s.choices.push_back({nm, 0}); s.kv["choiceidx"] = idx * n;
    rv = c32(0); return true;
  });
  def("sym_shard_point", [](State& s, CallBase*, vector<E>&, E&) {
    if (s.kv["sharded"]) return true;
    s.kv["sharded"] = 1;
    uint64_t i = s.kv["choiceidx"];
    // spread neighbouring choice vectors over the shards
    uint64_t h = i * 0x9E3779B97F4A7C15ULL; h ^= h >> 29;
    if (opt.shards > 1 && (h % opt.shards) != opt.shard) endPath();
    gCovers["shard_items"]++;
    return true;
  });
  def("sym_tag", [](State& s, CallBase*, vector<E>& a, E&) { s.kv[cstr(s, a[0])] = concLen(s, a[1]); return true; });
  def("sym_merge", [](State& s, CallBase*, vector<E>& a, E& rv) { rv = c32(s.merge ? 1 : 0); s.merge = concLen(s, a[0]) != 0; return true; });
  def("sym_param", [](State& s, CallBase*, vector<E>& a, E& rv) {
    string n = cstr(s, a[0]); rv = a[1];
    for (auto& p : opt.params) if (p.first == n) rv = c64(p.second);
    return true;
  });
  def("sym_spawn", [](State& s, CallBase*, vector<E>& a, E& rv) {
    auto it = gFnAt.find(concretize(s, a[0]).getZExtValue());
    if (it == gFnAt.end()) { inconclusive("sym_spawn: bad function"); endPath(); }
    s.th.push_back(Thread());
    unsigned me = s.cur; s.cur = s.th.size() - 1;
    pushCall(s, it->second, {a[1]});
    s.cur = me; rv = c32(s.th.size() - 1); return true;
  });
  def("sym_block", [](State& s, CallBase* ci, vector<E>&, E& rv) {
    finishCall(s, nullptr); s.th[s.cur].blocked = true; schedule(s); return false;
  });
  def("sym_notify", [](State& s, CallBase*, vector<E>&, E&) { for (auto& t : s.th) t.blocked = false; return true; });
  def("sym_join", [](State& s, CallBase*, vector<E>&, E&) {
    for (unsigned i = 0; i < s.th.size(); i++) if (i != s.cur && !s.th[i].done) {
      s.th[s.cur].fr.back().pc--; s.th[s.cur].blocked = true; schedule(s); return false;
    }
    return true;
  });
  def("sym_expect_block", [](State& s, CallBase*, vector<E>& a, E&) { if (concLen(s, a[0])) s.kv["expect_block"] = 1; else s.kv.erase("expect_block"); return true; });
  def("sym_inconclusive", [](State& s, CallBase*, vector<E>& a, E&) -> bool { inconclusive(cstr(s, a[0])); st.killed++; endPath(); });
  def("sym_end", [](State& s, CallBase*, vector<E>&, E&) -> bool { pathDone(s); endPath(); });
  // index of the highest set bit + 1 of an n-byte little-endian number
  def("sym_numbits", [](State& s, CallBase*, vector<E>& a, E& rv) {
    uint64_t n = concLen(s, a[1]); E v = loadN(s, a[0], n); E r = c32(0);
    for (uint64_t i = 0; i < n * 8; i++) { E b = mkExtract(v, i, 1); r = mkIte(b, c32(i + 1), r); }
    rv = r; return true;
  });
  def("sym_is_sym", [](State& s, CallBase*, vector<E>& a, E& rv) { rv = c32(a[0]->isConst() ? 0 : 1); return true; });
  def("sym_concretize", [](State& s, CallBase*, vector<E>& a, E& rv) { rv = mkConst(concretize(s, a[0])); return true; });
  // is the condition true for every value on this path? (for oracles that need a verdict, not a fork)
  def("sym_must", [](State& s, CallBase*, vector<E>& a, E& rv) { E c = asBool(a[0]); rv = c32(check(s.pc, mkNot(c)) == UNSAT ? 1 : 0); return true; });
  def("sym_may", [](State& s, CallBase*, vector<E>& a, E& rv) { E c = asBool(a[0]); rv = c32(check(s.pc, c) != UNSAT ? 1 : 0); return true; });
  def("sym_ite64", [](State& s, CallBase*, vector<E>& a, E& rv) { rv = mkIte(asBool(a[0]), a[1], a[2]); return true; });
  // out = f_name(in): an arbitrary function, the same everywhere
  def("sym_uf", [](State& s, CallBase*, vector<E>& a, E&) {
    string n = cstr(s, a[0]); uint64_t ni = concLen(s, a[2]), no = concLen(s, a[4]);
    uint32_t f = getUF(n + "_" + std::to_string(ni) + "_" + std::to_string(no), {(uint32_t)ni * 8}, no * 8);
    E x = decideItes(s, loadN(s, a[1], ni));
    storeBytes(s, a[3], mkUF(f, {x}), no); return true;
  });
  def("sym_sbox", [](State& s, CallBase*, vector<E>& a, E& rv) { rv = ufSbox(mkTrunc(a[0], 8)); return true; });
  def("sym_aes_interp", [](State& s, CallBase*, vector<E>& a, E&) { s.kv["aes_interp"] = concLen(s, a[0]); return true; });
  def("sym_print", [](State& s, CallBase*, vector<E>& a, E&) { if (getenv("IRSYM_PRINT")) fprintf(stderr, "[print] %s %s\n", cstr(s, a[0]).c_str(), exprStr(a[1], 6).c_str()); return true; });
  // memory comparison without forking: 1 if equal
  def("sym_memeq", [](State& s, CallBase*, vector<E>& a, E& rv) {
    uint64_t n = concLen(s, a[2]); if (!n) { rv = c32(1); return true; }
    rv = mkZext(mkEq(loadN(s, a[0], n), loadN(s, a[1], n)), 32); return true;
  });
  // number of bytes of the block p points into, from p on; 0 if p is not valid
  def("sym_objsize", [](State& s, CallBase*, vector<E>& a, E& rv) {
    uint64_t p = concretize(s, a[0]).getZExtValue(); ObjP o = findObj(s, p, 0); rv = c64(o ? o->base + o->size - p : 0); return true;
  });
  def("sym_live_heap", [](State& s, CallBase*, vector<E>&, E& rv) { uint64_t n = 0; for (auto& m : s.mem) if (m.second->kind == 2) n++; rv = c64(n); return true; });
}
