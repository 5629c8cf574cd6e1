// Builtin functions (harness API, memory primitives, threads, exceptions) and LLVM intrinsics.
#pragma once

static std::unordered_map<std::string, Builtin> BI;
Builtin findBuiltin(const std::string& n) { auto it = BI.find(n); return it == BI.end() ? nullptr : it->second; }

#define B(NAME) static void bi_##NAME(Machine& M, Inst& i, CallInfo& c)

static void doMemcpy(Machine& M, u64 d, u64 s, u64 n) {
  State* st = M.s;
  if (n && (st->crashArmed || st->pendingCrash) && M.fileAddr(d)) {
    if (st->crashArmed) M.crashEvent(n);
    if (st->pendingCrash) { if (st->crashPartial) M.copyBytes(d, s, st->crashPartial); M.doCrash(); }
  }
  M.copyBytes(d, s, n);
  if (n && st->raceOn && st->th.size() > 1 && !M.fi->rt) { M.raceAccess(s, n, false); M.raceAccess(d, n, true); }
}
static void doMemset(Machine& M, u64 d, Val v, u64 n) {
  State* st = M.s;
  if (n && (st->crashArmed || st->pendingCrash) && M.fileAddr(d)) {
    if (st->crashArmed) M.crashEvent(n);
    if (st->pendingCrash) { if (st->crashPartial) M.fillBytes(d, v, st->crashPartial); M.doCrash(); }
  }
  M.fillBytes(d, v, n);
  if (n && st->raceOn && st->th.size() > 1 && !M.fi->rt) M.raceAccess(d, n, true);
}
B(memcpy) { u64 d = M.carg(c, 0), s = M.carg(c, 1), n = M.carg(c, 2); doMemcpy(M, d, s, n); M.setRet(i, c, Val{d, nullptr}); }
B(memset) { u64 d = M.carg(c, 0); Val v = M.arg(c, 1); if (v.e) v = Machine::mkv(X.extract(v.e, 0, 8)); else v.c &= 255; u64 n = M.carg(c, 2); doMemset(M, d, v, n); M.setRet(i, c, Val{d, nullptr}); }
static Val memcmpV(Machine& M, u64 a, u64 b, u64 n, bool bcmp) {
  if (M.s->raceOn && M.s->th.size() > 1 && !M.fi->rt && n) { M.raceAccess(a, n, false); M.raceAccess(b, n, false); }
  std::vector<std::pair<Val, Val>> p;
  for (u64 k = 0; k < n; k++) {
    Val x = M.byteAt(a + k), y = M.byteAt(b + k);
    if (!x.e && !y.e) { if (x.c == y.c) continue; p.push_back({x, y}); 
      // the rest cannot matter: but it must still be readable
      if (k + 1 < n) { if (!M.s->mem.validRange(a + k + 1, n - k - 1)) M.memErr(a + k + 1, n - k - 1, false); if (!M.s->mem.validRange(b + k + 1, n - k - 1)) M.memErr(b + k + 1, n - k - 1, false); }
      break; }
    if (x.e == y.e && x.e) continue;
    p.push_back({x, y});
  }
  if (bcmp) {
    Expr* eq = X.T;
    for (auto& q : p) { eq = X.bin(K_AND, eq, X.cmp(K_EQ, M.ex(q.first, 8), M.ex(q.second, 8))); }
    return Machine::mkv(X.zext(X.notE(eq), 32));
  }
  Expr* r = X.cst(0, 32);
  for (int k = (int)p.size() - 1; k >= 0; k--) {
    Expr *x = M.ex(p[k].first, 8), *y = M.ex(p[k].second, 8);
    Expr* lt = X.cmp(K_ULT, x, y);
    r = X.ite(X.cmp(K_EQ, x, y), r, X.ite(lt, X.cst(0xffffffffu, 32), X.cst(1, 32)));
  }
  return Machine::mkv(r);
}
B(memcmp) { u64 a = M.carg(c, 0), b = M.carg(c, 1), n = M.carg(c, 2); M.setRet(i, c, memcmpV(M, a, b, n, false)); }
B(bcmp) { u64 a = M.carg(c, 0), b = M.carg(c, 1), n = M.carg(c, 2); M.setRet(i, c, memcmpV(M, a, b, n, true)); }

B(malloc) { u64 n = M.carg(c, 0); u64 r = M.heapAlloc(n, 16); M.setRet(i, c, Val{r, nullptr}); }
B(memalign) { u64 al = M.carg(c, 0), n = M.carg(c, 1); M.setRet(i, c, Val{M.heapAlloc(n, std::max<u64>(al, 16)), nullptr}); }
B(calloc) { u64 n = M.carg(c, 0), m = M.carg(c, 1); u64 r = M.heapAlloc(n * m, 16); if (r) M.fillBytes(r, Val{0, nullptr}, n * m); M.setRet(i, c, Val{r, nullptr}); }
B(realloc) {
  u64 p = M.carg(c, 0), n = M.carg(c, 1);
  if (p) { u64 m = p >= Program::HEAP && p < M.s->heapTop ? M.rawGet(p - 8) : 0; if (m == Machine::MG_FREED) M.violation("memory", "realloc after free in " + M.where()); if (m != Machine::MG_ALLOC) M.violation("memory", "realloc of an invalid pointer in " + M.where()); }
  u64 r = M.heapAlloc(n, 16);
  if (r && p) { u64 o = M.rawGet(p - 16); M.copyBytes(r, p, std::min(o, n)); M.heapFree(p); }
  M.setRet(i, c, Val{r, nullptr});
}
B(free) { u64 p = M.carg(c, 0); M.heapFree(p); }

// ---- harness API ----
B(make_symbolic) { u64 p = M.carg(c, 0), n = M.carg(c, 1); M.makeSymbolic(p, n, M.cstr(M.carg(c, 2))); }
B(int) { u64 lo = M.carg(c, 0), hi = M.carg(c, 1); M.setRet(i, c, M.symInt(lo, hi, M.cstr(M.carg(c, 2)))); }
B(choice) {
  u64 n = M.carg(c, 0); std::string nm = M.cstr(M.carg(c, 1));
  if (n == 1) { M.setRet(i, c, Val{0, nullptr}); return; }
  // the variable is created first; forking happens on a recorded input so that re-execution is not needed
  if (M.replaying) { M.setRet(i, c, M.symInt(0, n - 1, nm)); return; }
  Val v = M.symInt(0, n - 1, nm);
  // fork explicitly over the remaining values
  Expr* e = v.e;
  if (!e) { M.setRet(i, c, v); return; }
  u64 m = M.modelOf(e);
  Expr* eq = X.cmp(K_EQ, e, X.cst(m, e->w));
  for (u64 k = 0; k < n; k++) {
    if (k == m) continue;
    Expr* ek = X.cmp(K_EQ, e, X.cst(k, e->w)); ModelP md;
    int r = M.SV.check(M.s->pc, ek, &md);
    if (r == 1) {
      State* ns = M.clone(); M.SV.add(ns->pc, ek, md);
      // complete the call in the forked state
      Thread& th = ns->th[ns->cur]; Frame& fr = th.fr.back();
      th.regs[fr.base + i.d] = Val{k, nullptr};
      if (c.invoke) M.unsupported("symx_choice through invoke");
      fr.pc = M.ip + 1;
    } else if (r < 0) S->truncated++;
  }
  M.SV.add(M.s->pc, eq, M.s->pc.model);
  M.setRet(i, c, Val{m, nullptr});
}
B(assume) { Val v = M.arg(c, 0); Expr* e = v.e ? X.notE(X.cmp(K_EQ, v.e, X.cst(0, v.e->w))) : X.cst((v.c & 0xffffffff) != 0, 1); M.addConstraint(e); }
B(assert) { Val v = M.arg(c, 0); M.assertTrue(v, M.cstr(M.carg(c, 1))); }
B(fail) { M.violation("assert", M.cstr(M.carg(c, 0))); }
B(die) { M.violation("abort", M.cstr(M.carg(c, 0)) + " in " + M.where()); }
B(unsupported) { M.unsupported(M.cstr(M.carg(c, 0))); }
B(exit) { throw PathEnd{0, "exit"}; }
B(silent_end) { throw PathEnd{2, "cut"}; }
B(reach) { M.reach(M.cstr(M.carg(c, 0))); }
B(observe) { Obs o; o.name = M.cstr(M.carg(c, 0)); o.isInt = false; u64 p = M.carg(c, 1), n = M.carg(c, 2); for (u64 k = 0; k < n; k++) o.v.push_back(M.byteAt(p + k)); M.s->obs.push_back(o); }
B(observe_int) { Obs o; o.name = M.cstr(M.carg(c, 0)); o.isInt = true; o.v.push_back(M.arg(c, 1)); M.s->obs.push_back(o); }
B(concretize) { Val v = M.arg(c, 0); M.setRet(i, c, Val{v.e ? M.concretize(v.e) : v.c, nullptr}); }
B(is_symbolic) { Val v = M.arg(c, 0); M.setRet(i, c, Val{v.e != nullptr, nullptr}); }
B(bytes_symbolic) { u64 p = M.carg(c, 0), n = M.carg(c, 1); bool sy = false; for (u64 k = 0; k < n; k++) if (M.byteAt(p + k).e) sy = true; M.setRet(i, c, Val{sy, nullptr}); }
B(print) { std::string m = M.cstr(M.carg(c, 0)); if (O.verbose || M.replaying) fprintf(stderr, "[%llu] %s\n", (unsigned long long)M.s->id, m.c_str()); }
B(print_int) { std::string m = M.cstr(M.carg(c, 0)); Val v = M.arg(c, 1); if (O.verbose || M.replaying) { if (v.e) fprintf(stderr, "[%llu] %s = %s (model %lld)\n", (unsigned long long)M.s->id, m.c_str(), X.str(v.e).substr(0, 300).c_str(), (long long)M.modelOf(v.e)); else fprintf(stderr, "[%llu] %s = %lld\n", (unsigned long long)M.s->id, m.c_str(), (long long)v.c); } }
B(replaying) { M.setRet(i, c, Val{0, nullptr}); }
B(engine) { M.setRet(i, c, Val{1, nullptr}); }

// ---- address space for the file model ----
B(region) { u64 a = M.carg(c, 0), n = M.carg(c, 1); M.s->mem.zeroRange(a, n); M.flush(); if (memStats.pages > O.memLimitPages) throw PathEnd{4, "memory limit"}; }
B(region_drop) { u64 a = M.carg(c, 0), n = M.carg(c, 1); M.s->mem.setInvalid(a, n, true); M.flush(); }
B(map) {
  u64 base = M.carg(c, 0), n = M.carg(c, 1);
  u64 a = M.s->aliasTop; M.s->aliasTop += ((n + 4095) & ~4095ULL) + (1 << 20);
  if (M.s->aliasTop > Mem::ALIAS_HI) M.unsupported("mapping space exhausted");
  M.s->mem.aliases.push_back({a, a + ((n + 4095) & ~4095ULL), base});
  M.flush(); M.setRet(i, c, Val{a, nullptr});
}
B(unmap) {
  u64 a = M.carg(c, 0), n = M.carg(c, 1); auto& al = M.s->mem.aliases; bool ok = false;
  n = (n + 4095) & ~4095ULL;
  for (size_t k = 0; k < al.size(); k++) if (al[k].lo == a) {
    ok = true;
    if (n >= al[k].hi - al[k].lo) al.erase(al.begin() + k);
    else { al[k].base += n; al[k].lo += n; }
    break;
  }
  M.flush(); M.setRet(i, c, Val{ok, nullptr});
}
B(map_size) { u64 a = M.carg(c, 0); u64 r = 0; for (auto& al : M.s->mem.aliases) if (al.lo == a) r = al.hi - al.lo; M.setRet(i, c, Val{r, nullptr}); }
B(map_base) { u64 a = M.carg(c, 0); u64 r = 0; for (auto& al : M.s->mem.aliases) if (a >= al.lo && a < al.hi) r = al.base + (a - al.lo); M.setRet(i, c, Val{r, nullptr}); }
B(unmap_all) { M.s->mem.aliases.clear(); M.flush(); }
B(valid) { u64 a = M.carg(c, 0), n = M.carg(c, 1); M.setRet(i, c, Val{M.s->mem.validRange(a, n), nullptr}); }

// ---- crashes ----
B(try) {
  u64 fn = M.carg(c, 0); u64 k = (fn - Program::FBASE) / 16; Val a = M.arg(c, 1);
  if (M.s->tryDepth >= 0) M.unsupported("nested symx_try");
  M.s->tryDepth = M.t->fr.size();
  M.jumped = true;
  M.pushFrame(M.P.funcs[k], &a, 1, 0);
}
B(crash_arm) { u64 on = M.carg(c, 0); M.s->crashArmed = on; M.s->crashWhole = on == 2; }
B(crash_point) {
  State* st = M.s;
  if (st->crashArmed) M.crashEvent(0);
  if (st->pendingCrash) M.doCrash();
}
B(crash_now) { M.s->pendingCrash = true; M.doCrash(); }
B(crash_index) { M.setRet(i, c, Val{(u64)(int64_t)M.s->crashAt, nullptr}); }

// ---- threads ----
static bool sched(Machine& M) { if (M.schedPoint()) { M.jumped = true; return true; } return false; }
B(thread_create) {
  if (sched(M)) return;
  u64 fn = M.carg(c, 0); Val a = M.arg(c, 1); u64 k = (fn - Program::FBASE) / 16;
  State* st = M.s;
  if (st->th.size() >= MAXT) M.unsupported("too many threads");
  int me = st->cur, id = st->th.size();
  M.saveCtx();
  st->th.emplace_back();
  Thread& n = st->th.back(); n.sp = Program::STACK + (u64)id * Program::STACKSZ + 4096;
  n.vc = st->th[me].vc; n.vc.c[id] = 1; st->th[me].vc.c[me]++;
  M.initTls(n);
  st->cur = id; M.t = &n; M.f = nullptr;
  if (!O.noRace) st->raceOn = true;
  M.pushFrame(M.P.funcs[k], &a, 1, 0); M.saveCtx();
  st->cur = me; M.bind();
  M.setRet(i, c, Val{(u64)id, nullptr});
}
B(self) { M.setRet(i, c, Val{(u64)M.s->cur, nullptr}); }
B(sched_point) { if (sched(M)) return; }
B(yield) { M.jumped = true; M.callDone(i, c); M.saveCtx(); M.t->spin = 0; M.mustSwitch(true); }
B(block) { u64 a = M.carg(c, 0); M.t->st = T_BLOCKED; M.t->waitAddr = a; M.jumped = true; M.callDone(i, c); M.saveCtx(); M.mustSwitch(false); }
B(block_timed) { u64 a = M.carg(c, 0); M.t->st = T_TIMED; M.t->waitAddr = a; M.t->timedOut = false; M.jumped = true; M.callDone(i, c); M.saveCtx(); M.mustSwitch(false); }
B(timed_out) { bool v = M.t->timedOut; M.t->timedOut = false; M.setRet(i, c, Val{v, nullptr}); }
B(wake) {
  u64 a = M.carg(c, 0); u64 n = M.carg(c, 1);
  for (auto& th : M.s->th) if ((th.st == T_BLOCKED || th.st == T_TIMED) && th.waitAddr == a && n) { th.st = T_RUN; n--; }
}
B(acquire) { if (M.s->th.size() > 1) M.acquire(M.carg(c, 0)); }
B(release) { if (M.s->th.size() > 1) M.release(M.carg(c, 0)); else M.s->sync[M.carg(c, 0)].join(M.t->vc); }
B(thread_done) { u64 k = M.carg(c, 0); bool d = k < M.s->th.size() && M.s->th[k].st == T_DONE; if (d) M.acquire(0xFFFF000000000000ULL + k); M.setRet(i, c, Val{d, nullptr}); }
B(thread_key) { M.setRet(i, c, Val{0xFFFF000000000000ULL + M.carg(c, 0), nullptr}); }
B(thread_exit) { M.jumped = true; while (M.t->fr.size() > 1) M.popFrame(); M.popFrame(); M.threadEnd(); }
B(nthreads) { M.setRet(i, c, Val{M.s->th.size(), nullptr}); }
B(alive_threads) { u64 n = 0; for (auto& th : M.s->th) if (th.st != T_DONE) n++; M.setRet(i, c, Val{n, nullptr}); }
B(atomic_begin) { M.s->atomicDepth++; }
B(atomic_end) { M.s->atomicDepth--; }

// ---- exceptions ----
B(exc_alloc) { u64 n = M.carg(c, 0); M.setRet(i, c, Val{M.heapAlloc(n, 16), nullptr}); }
B(exc_throw) {
  u64 o = M.carg(c, 0), ti = M.carg(c, 1), d = M.carg(c, 2);
  M.s->exc.push_back({o, ti, d, 0}); M.jumped = true; M.unwind(o, ti, false);
}
B(begin_catch) { u64 o = M.carg(c, 0); for (auto& e : M.s->exc) if (e.obj == o) e.caught++; M.setRet(i, c, Val{o, nullptr}); }
B(end_catch) { auto& v = M.s->exc; if (!v.empty()) { if (--v.back().caught <= 0) v.pop_back(); } }
B(rethrow) { auto& v = M.s->exc; if (v.empty()) M.violation("exception", "rethrow without exception"); u64 o = v.back().obj, ti = v.back().ti; v.back().caught--; M.jumped = true; M.unwind(o, ti, false); }
B(exc_free) {}
B(get_exc) { u64 o = M.carg(c, 0); M.setRet(i, c, Val{o, nullptr}); }
B(fmt_double) {  // symx_fmt_double(buf, n, fmt, double)
  u64 p = M.carg(c, 0), n = M.carg(c, 1); std::string fm = M.cstr(M.carg(c, 2)); u64 v = M.carg(c, 3); double d; memcpy(&d, &v, 8);
  char b[512]; int r = snprintf(b, sizeof b, fm.c_str(), d);
  for (u64 k = 0; k < n; k++) { M.putByte(p + k, Val{(u64)(u8)(k < (u64)r && k + 1 < n ? b[k] : 0), nullptr}); if (k >= (u64)r) break; }
  M.setRet(i, c, Val{(u64)r, nullptr});
}
B(math1) { }

#define FM1(NAME, E) B(fm_##NAME) { u64 v = M.carg(c, 0); double x = ExprCtx::asF(v, c.argw[0]); M.setRet(i, c, Val{ExprCtx::fromF(E, c.argw[0]), nullptr}); }
FM1(log, std::log(x)) FM1(log2, std::log2(x)) FM1(log10, std::log10(x)) FM1(exp, std::exp(x)) FM1(sqrt, std::sqrt(x)) FM1(floor, std::floor(x)) FM1(ceil, std::ceil(x)) FM1(round, std::round(x)) FM1(trunc, std::trunc(x)) FM1(fabs, std::fabs(x))
B(fm_pow) { u64 a = M.carg(c, 0), b = M.carg(c, 1); M.setRet(i, c, Val{ExprCtx::fromF(std::pow(ExprCtx::asF(a, c.argw[0]), ExprCtx::asF(b, c.argw[1])), c.argw[0]), nullptr}); }
B(fm_fmod) { u64 a = M.carg(c, 0), b = M.carg(c, 1); M.setRet(i, c, Val{ExprCtx::fromF(std::fmod(ExprCtx::asF(a, c.argw[0]), ExprCtx::asF(b, c.argw[1])), c.argw[0]), nullptr}); }
B(strtod) { u64 a = M.carg(c, 0), e = M.carg(c, 1); std::string st; while (true) { Val v = M.byteAt(a + st.size()); u64 ch = v.e ? M.concretize(v.e) : v.c; if (!ch) break; st += (char)ch; } char* ep; double d = strtod(st.c_str(), &ep); if (e) M.store(e, Val{a + (ep - st.c_str()), nullptr}, 64); M.setRet(i, c, Val{ExprCtx::fromF(d, 64), nullptr}); }
B(nop) { if (c.nret) M.setRet(i, c, Val{0, nullptr}); }

void registerBuiltins() {
  auto& m = BI;
  for (auto n : {"memcpy", "memmove", "__memcpy_chk", "__memmove_chk"}) m[n] = bi_memcpy;
  m["memset"] = bi_memset; m["memcmp"] = bi_memcmp; m["bcmp"] = bi_bcmp;
  m["malloc"] = bi_malloc; m["calloc"] = bi_calloc; m["realloc"] = bi_realloc; m["free"] = bi_free; m["aligned_alloc"] = bi_memalign; m["memalign"] = bi_memalign;
  m["symx_make_symbolic"] = bi_make_symbolic; m["symx_int"] = bi_int; m["symx_choice"] = bi_choice; m["symx_assume"] = bi_assume; m["symx_assert"] = bi_assert; m["symx_fail"] = bi_fail; m["symx_die"] = bi_die; m["symx_unsupported"] = bi_unsupported; m["symx_exit"] = bi_exit; m["symx_silent_end"] = bi_silent_end; m["symx_reach"] = bi_reach; m["symx_observe"] = bi_observe; m["symx_observe_int"] = bi_observe_int; m["symx_concretize"] = bi_concretize; m["symx_is_symbolic"] = bi_is_symbolic; m["symx_bytes_symbolic"] = bi_bytes_symbolic; m["symx_print"] = bi_print; m["symx_print_int"] = bi_print_int; m["symx_engine"] = bi_engine;
  m["symx_region"] = bi_region; m["symx_region_drop"] = bi_region_drop; m["symx_map"] = bi_map; m["symx_unmap"] = bi_unmap; m["symx_unmap_all"] = bi_unmap_all; m["symx_map_size"] = bi_map_size; m["symx_map_base"] = bi_map_base; m["symx_valid"] = bi_valid;
  m["symx_try"] = bi_try; m["symx_crash_arm"] = bi_crash_arm; m["symx_crash_point"] = bi_crash_point; m["symx_crash_now"] = bi_crash_now; m["symx_crash_index"] = bi_crash_index;
  m["symx_thread_create"] = bi_thread_create; m["symx_self"] = bi_self; m["symx_sched_point"] = bi_sched_point; m["symx_yield"] = bi_yield; m["symx_block"] = bi_block; m["symx_block_timed"] = bi_block_timed; m["symx_timed_out"] = bi_timed_out; m["symx_wake"] = bi_wake; m["symx_acquire"] = bi_acquire; m["symx_release"] = bi_release; m["symx_thread_done"] = bi_thread_done; m["symx_thread_key"] = bi_thread_key; m["symx_thread_exit"] = bi_thread_exit; m["symx_nthreads"] = bi_nthreads; m["symx_alive_threads"] = bi_alive_threads; m["symx_atomic_begin"] = bi_atomic_begin; m["symx_atomic_end"] = bi_atomic_end;
  m["__cxa_allocate_exception"] = bi_exc_alloc; m["__cxa_throw"] = bi_exc_throw; m["__cxa_begin_catch"] = bi_begin_catch; m["__cxa_end_catch"] = bi_end_catch; m["__cxa_rethrow"] = bi_rethrow; m["__cxa_free_exception"] = bi_exc_free; m["__cxa_get_exception_ptr"] = bi_get_exc;
  m["symx_fmt_double"] = bi_fmt_double; m["strtod"] = bi_strtod; m["strtold"] = bi_strtod;
  m["log"] = bi_fm_log; m["log2"] = bi_fm_log2; m["log10"] = bi_fm_log10; m["exp"] = bi_fm_exp; m["sqrt"] = bi_fm_sqrt; m["floor"] = bi_fm_floor; m["ceil"] = bi_fm_ceil; m["round"] = bi_fm_round; m["trunc"] = bi_fm_trunc; m["pow"] = bi_fm_pow; m["fmod"] = bi_fm_fmod;
  m["logl"] = bi_fm_log; m["log2l"] = bi_fm_log2; m["log10l"] = bi_fm_log10; m["expl"] = bi_fm_exp; m["sqrtl"] = bi_fm_sqrt; m["floorl"] = bi_fm_floor; m["ceill"] = bi_fm_ceil; m["roundl"] = bi_fm_round; m["truncl"] = bi_fm_trunc; m["powl"] = bi_fm_pow; m["fmodl"] = bi_fm_fmod;
  for (auto n : {"__cxa_atexit", "atexit", "__cxa_thread_atexit", "__cxa_thread_atexit_impl"}) m[n] = bi_nop;
}

static Expr* ctzE(Expr* a) { Expr* r = X.cst(a->w, a->w); for (int k = a->w - 1; k >= 0; k--) r = X.ite(X.cmp(K_EQ, X.extract(a, k, 1), X.T), X.cst(k, a->w), r); return r; }
static Expr* clzE(Expr* a) { Expr* r = X.cst(a->w, a->w); for (int k = 0; k < a->w; k++) r = X.ite(X.cmp(K_EQ, X.extract(a, k, 1), X.T), X.cst(a->w - 1 - k, a->w), r); return r; }

bool Machine::intrinsic(Inst& i, CallInfo& c, FuncInfo* g) {
  auto id = g->F->getIntrinsicID();
  int w = c.nret ? c.retw[0] : 0;
  auto A = [&](int k) { return ex(arg(c, k), c.argw[k]); };
  auto ret = [&](Expr* e) { regs[i.d] = mkv(e); };
  // vector forms: lane by lane for the simple two-operand intrinsics
  if (c.nret > 1 && g->F->getReturnType()->isVectorTy()) {
    int n = c.nret;
    for (int l = 0; l < n; l++) {
      auto L = [&](int k) { return ex(R(c.args[k * n + l]), c.argw[k * n + l]); };
      Expr* e = nullptr;
      switch (id) {
        case Intrinsic::smin: e = X.ite(X.cmp(K_SLT, L(0), L(1)), L(0), L(1)); break;
        case Intrinsic::smax: e = X.ite(X.cmp(K_SLT, L(0), L(1)), L(1), L(0)); break;
        case Intrinsic::umin: e = X.ite(X.cmp(K_ULT, L(0), L(1)), L(0), L(1)); break;
        case Intrinsic::umax: e = X.ite(X.cmp(K_ULT, L(0), L(1)), L(1), L(0)); break;
        default: return false;
      }
      regs[i.d + l] = mkv(e);
    }
    return true;
  }
  if (!c.nret) {} else switch (id) {
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul:
    case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: {
      Expr* r = ex(R(c.args[0]), w);
      for (size_t l = 1; l < c.args.size(); l++) {
        Expr* y = ex(R(c.args[l]), w);
        switch (id) {
          case Intrinsic::vector_reduce_add: r = X.bin(K_ADD, r, y); break; case Intrinsic::vector_reduce_and: r = X.bin(K_AND, r, y); break;
          case Intrinsic::vector_reduce_or: r = X.bin(K_OR, r, y); break; case Intrinsic::vector_reduce_xor: r = X.bin(K_XOR, r, y); break; case Intrinsic::vector_reduce_mul: r = X.bin(K_MUL, r, y); break;
          case Intrinsic::vector_reduce_umax: r = X.ite(X.cmp(K_ULT, r, y), y, r); break; case Intrinsic::vector_reduce_umin: r = X.ite(X.cmp(K_ULT, r, y), r, y); break;
          case Intrinsic::vector_reduce_smax: r = X.ite(X.cmp(K_SLT, r, y), y, r); break; default: r = X.ite(X.cmp(K_SLT, r, y), r, y); break;
        }
      }
      regs[i.d] = mkv(r); return true; }
    default: break;
  }
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: doMemcpy(*this, carg(c, 0), carg(c, 1), carg(c, 2)); return true;
    case Intrinsic::memset: { u64 d = carg(c, 0); Val v = arg(c, 1); u64 n = carg(c, 2); doMemset(*this, d, v, n); return true; }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::vaend: return true;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: regs[i.d] = Val{0, nullptr}; return true;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: regs[i.d] = arg(c, 0); return true;
    case Intrinsic::is_constant: regs[i.d] = Val{0, nullptr}; return true;
    case Intrinsic::objectsize: regs[i.d] = Val{(arg(c, 1).c & 1) ? 0 : maskw(w), nullptr}; return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: violation("abort", "trap in " + where());
    case Intrinsic::eh_typeid_for: { u64 ti = carg(c, 0); regs[i.d] = Val{P.typeId(ti), nullptr}; return true; }
    case Intrinsic::threadlocal_address: {
      // argument is the TLS global itself
      u64 a = carg(c, 0); regs[i.d] = Val{t->tlsBase + (a - 0xDEAD000000ULL), nullptr}; return true; }
    case Intrinsic::vastart: {
      u64 p = carg(c, 0);
      storeRaw(p, 4, Val{48, nullptr}, 32); storeRaw(p + 4, 4, Val{176, nullptr}, 32); storeRaw(p + 8, 8, Val{f->va, nullptr}, 64); storeRaw(p + 16, 8, Val{0, nullptr}, 64); return true; }
    case Intrinsic::vacopy: copyBytes(carg(c, 0), carg(c, 1), 24); return true;
    case Intrinsic::smin: ret(X.ite(X.cmp(K_SLT, A(0), A(1)), A(0), A(1))); return true;
    case Intrinsic::smax: ret(X.ite(X.cmp(K_SLT, A(0), A(1)), A(1), A(0))); return true;
    case Intrinsic::umin: ret(X.ite(X.cmp(K_ULT, A(0), A(1)), A(0), A(1))); return true;
    case Intrinsic::umax: ret(X.ite(X.cmp(K_ULT, A(0), A(1)), A(1), A(0))); return true;
    case Intrinsic::abs: ret(X.ite(X.cmp(K_SLT, A(0), X.cst(0, w)), X.bin(K_SUB, X.cst(0, w), A(0)), A(0))); return true;
    case Intrinsic::cttz: ret(ctzE(A(0))); return true;
    case Intrinsic::ctlz: ret(clzE(A(0))); return true;
    case Intrinsic::ctpop: { Expr* a = A(0); Expr* r = X.cst(0, w); for (int k = 0; k < w; k++) r = X.bin(K_ADD, r, X.zext(X.extract(a, k, 1), w)); ret(r); return true; }
    case Intrinsic::bswap: { Expr* a = A(0); Expr* r = X.extract(a, 0, 8); for (int k = 1; k < w / 8; k++) r = X.concat(r, X.extract(a, 8 * k, 8)); ret(r); return true; }
    case Intrinsic::bitreverse: { Expr* a = A(0); Expr* r = X.extract(a, 0, 1); for (int k = 1; k < w; k++) r = X.concat(r, X.extract(a, k, 1)); ret(r); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      Expr *a = A(0), *b = A(1), *sh = A(2);
      Expr* k = X.bin(K_UREM, sh, X.cst(w, w));
      Expr* inv = X.bin(K_SUB, X.cst(w, w), k);
      if (id == Intrinsic::fshl) ret(X.bin(K_OR, X.bin(K_SHL, a, k), X.bin(K_LSHR, b, inv)));
      else ret(X.bin(K_OR, X.bin(K_SHL, a, inv), X.bin(K_LSHR, b, k)));
      return true; }
    case Intrinsic::uadd_with_overflow: { Expr* r = X.bin(K_ADD, A(0), A(1)); Expr* o = X.cmp(K_ULT, r, A(0)); regs[i.d] = mkv(r); regs[i.d + 1] = mkv(o); return true; }
    case Intrinsic::usub_with_overflow: { Expr* r = X.bin(K_SUB, A(0), A(1)); Expr* o = X.cmp(K_ULT, A(0), A(1)); regs[i.d] = mkv(r); regs[i.d + 1] = mkv(o); return true; }
    case Intrinsic::umul_with_overflow: {
      Expr *a = A(0), *b = A(1); Expr* r = X.bin(K_MUL, a, b); Expr* o;
      if (a->k == K_CONST) std::swap(a, b);
      if (b->k == K_CONST) o = b->c ? X.cmp(K_ULT, X.cst(maskw(w) / b->c, w), a) : X.F;
      else o = X.bin(K_AND, X.notE(X.cmp(K_EQ, b, X.cst(0, w))), X.notE(X.cmp(K_EQ, X.bin(K_UDIV, r, b), a)));
      regs[i.d] = mkv(r); regs[i.d + 1] = mkv(o); return true; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
      Expr *a = A(0), *b = A(1); bool add = id == Intrinsic::sadd_with_overflow; Expr* r = X.bin(add ? K_ADD : K_SUB, a, b);
      Expr *sa = X.extract(a, w - 1, 1), *sb = X.extract(b, w - 1, 1), *sr = X.extract(r, w - 1, 1);
      Expr* same = add ? X.cmp(K_EQ, sa, sb) : X.notE(X.cmp(K_EQ, sa, sb));
      regs[i.d] = mkv(r); regs[i.d + 1] = mkv(X.bin(K_AND, same, X.notE(X.cmp(K_EQ, sa, sr)))); return true; }
    case Intrinsic::smul_with_overflow: {
      Expr *a = A(0), *b = A(1); Expr* r = X.bin(K_MUL, a, b);
      if (w <= 32) { Expr* r2 = X.bin(K_MUL, X.sext(a, 2 * w), X.sext(b, 2 * w)); regs[i.d] = mkv(r); regs[i.d + 1] = mkv(X.notE(X.cmp(K_EQ, r2, X.sext(r, 2 * w)))); return true; }
      if (a->k == K_CONST) std::swap(a, b);
      Expr* o = X.bin(K_AND, X.notE(X.cmp(K_EQ, b, X.cst(0, w))), X.bin(K_OR, X.notE(X.cmp(K_EQ, X.bin(K_SDIV, r, b), a)), X.bin(K_AND, X.cmp(K_EQ, b, X.cst(~0ULL, w)), X.cmp(K_EQ, a, X.cst(1ULL << (w - 1), w)))));
      regs[i.d] = mkv(r); regs[i.d + 1] = mkv(o); return true; }
    case Intrinsic::uadd_sat: { Expr* r = X.bin(K_ADD, A(0), A(1)); ret(X.ite(X.cmp(K_ULT, r, A(0)), X.cst(maskw(w), w), r)); return true; }
    case Intrinsic::usub_sat: ret(X.ite(X.cmp(K_ULT, A(0), A(1)), X.cst(0, w), X.bin(K_SUB, A(0), A(1)))); return true;
    case Intrinsic::fabs: ret(X.bin(K_AND, A(0), X.cst(maskw(w - 1), w))); return true;
    case Intrinsic::copysign: ret(X.bin(K_OR, X.bin(K_AND, A(0), X.cst(maskw(w - 1), w)), X.bin(K_AND, A(1), X.cst(1ULL << (w - 1), w)))); return true;
    case Intrinsic::fmuladd: ret(X.fop(K_FADD, w, X.fop(K_FMUL, w, A(0), A(1)), A(2))); return true;
    case Intrinsic::minnum: case Intrinsic::maxnum: {
      Expr *a = A(0), *b = A(1); Expr* lt = id == Intrinsic::minnum ? X.fop(K_FLT, 1, a, b) : X.fop(K_FLT, 1, b, a);
      ret(X.ite(X.fop(K_FUNO, 1, b, b), a, X.ite(X.fop(K_FUNO, 1, a, a), b, X.ite(lt, a, b)))); return true; }
    case Intrinsic::sqrt: ret(X.fop(K_FSQRT, w, A(0), nullptr)); return true;
    case Intrinsic::trunc: ret(X.fop(K_FRNDZ, w, A(0), nullptr)); return true;
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::exp: {
      double x = ExprCtx::asF(carg(c, 0), w); double r = id == Intrinsic::floor ? std::floor(x) : id == Intrinsic::ceil ? std::ceil(x) : id == Intrinsic::round ? std::round(x) : id == Intrinsic::log ? std::log(x) : id == Intrinsic::log2 ? std::log2(x) : id == Intrinsic::log10 ? std::log10(x) : id == Intrinsic::exp ? std::exp(x) : std::nearbyint(x);
      regs[i.d] = Val{ExprCtx::fromF(r, w), nullptr}; return true; }
    case Intrinsic::pow: { double x = ExprCtx::asF(carg(c, 0), w), y = ExprCtx::asF(carg(c, 1), w); regs[i.d] = Val{ExprCtx::fromF(std::pow(x, y), w), nullptr}; return true; }
    case Intrinsic::is_fpclass: {
      u64 v = carg(c, 0); u64 m = carg(c, 1); double d = ExprCtx::asF(v, c.argw[0]); bool r = false; bool neg = std::signbit(d);
      if (std::isnan(d)) r = m & 3; else if (std::isinf(d)) r = m & (neg ? 4 : 512); else if (d == 0) r = m & (neg ? 32 : 64); else if (std::fpclassify(d) == FP_SUBNORMAL) r = m & (neg ? 16 : 128); else r = m & (neg ? 8 : 256);
      regs[i.d] = Val{r, nullptr}; return true; }
    case Intrinsic::load_relative: { u64 p = carg(c, 0), o = carg(c, 1); u64 r = load(p + o, 32).c; regs[i.d] = Val{p + sextw(r, 32), nullptr}; return true; }
    default: return false;
  }
}
