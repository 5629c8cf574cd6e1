// symx: a symbolic executor for LLVM bitcode with Z3 as the deciding back end.
#include "machine.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <atomic>
#include <cxxabi.h>
#include <algorithm>

using namespace llvm;

static ExprCtx X;

struct SharedViol { char kind[32]; char msg[512]; char stack[4096]; char inputs[65536]; char obs[4096]; int ok; };
struct Shared {
  std::atomic<int> active, stop;
  std::atomic<u64> paths, infeasible, unsupported, limits, steps, forks, queries, fastq, cacheq, z3calls, unknown, asserts, assertSolver, schedPoints, forced, ranout, truncated, crashes, memchecks, maxQueryMs;
  std::atomic<u64> z3us, fd, fdx, fdbad;
  std::atomic<int> nviol, lock;
  std::atomic<int> nreach; char reach[512][64]; std::atomic<u64> reachCount[512];
  std::atomic<int> nunsup; char unsup[64][200];
  std::atomic<int> nsamp; char samp[64][2048];
  SharedViol viol[32];
  u8 funcHit[200000];
};
static Shared* S;

struct Opts {
  double timeLimit = 60; u64 stepLimit = 20000000; int workers = 1; int preempt = 2; unsigned rlimit = 30000000; std::string replay; int maxViol = 4; int maxStates = 1000000; u64 memLimitPages = 3000000; bool trace = false; u64 maxPaths = 0; int nsamples = 3; std::string dump; bool bfs = false; u64 concretizeLimit = 4096; std::string samples; bool noRace = false; bool verbose = false;
} O;

static double tStart;

struct Machine {
  Program& P; Solver SV; std::vector<State*> pend; State* s = nullptr; Thread* t = nullptr;
  Frame* f = nullptr; Val* regs = nullptr; FuncInfo* fi = nullptr; int ip = 0; bool jumped = false;
  std::vector<std::pair<std::string, std::vector<u8>>> replayIn; size_t replayPos = 0; bool replaying = false; std::vector<u8> replaySched; std::vector<std::pair<int, u64>> replayCrashes;
  u64 nextStateId = 1;
  // software TLB
  struct TE { u64 tag; Page* p; bool w; };
  TE tlb[256];
  bool hadLimit = false;
  void flush() { for (auto& e : tlb) e.tag = ~0ULL; }
  Machine(Program& p) : P(p), SV(X) { SV.setRlimit(O.rlimit); flush(); }

  // ---------- helpers ----------
  inline Val& R(int o) { return o >= 0 ? regs[o] : fi->consts[~o]; }
  Expr* ex(const Val& v, int w) { return v.e ? v.e : X.cst(v.c, w); }
  static Val mkv(Expr* e) { if (e->k == K_CONST) return Val{e->c, nullptr}; return Val{0, e}; }
  u64 modelOf(Expr* e) { return SV.evalM(e, s->pc.model); }

  [[noreturn]] void violation(const std::string& kind, const std::string& msg) {
    record(kind, msg, s->pc.model);
    throw PathEnd{1, msg};
  }
  [[noreturn]] void unsupported(const std::string& msg) {
    S->unsupported++;
    while (S->lock.exchange(1)) {}
    bool dup = false; int n = S->nunsup;
    for (int i = 0; i < n; i++) if (msg.compare(0, 190, S->unsup[i]) == 0) dup = true;
    if (!dup && n < 64) { snprintf(S->unsup[n], 200, "%s", msg.substr(0, 190).c_str()); S->nunsup++; if (O.verbose || getenv("SYMX_DEBUG")) fprintf(stderr, "unsupported: %s\n%s", msg.c_str(), stackStr().c_str()); }
    S->lock = 0;
    throw PathEnd{3, msg};
  }
  std::string loc(Instruction* I) {
    std::string r;
    if (auto& dl = I->getDebugLoc()) {
      auto* l = dl.get();
      r = l->getFilename().str() + ":" + std::to_string(l->getLine());
      if (auto* ia = l->getInlinedAt()) { while (ia->getInlinedAt()) ia = ia->getInlinedAt(); r += " (inlined at " + ia->getFilename().str() + ":" + std::to_string(ia->getLine()) + ")"; }
    }
    return r;
  }
  static std::string dem(const std::string& n) { int st; char* d = abi::__cxa_demangle(n.c_str(), 0, 0, &st); std::string r = st == 0 && d ? d : n; free(d); return r; }
  std::string stackStr() {
    std::string r;
    if (!t) return r;
    if (f) f->pc = ip;
    for (size_t ti = 0; ti < s->th.size(); ti++) {
      auto& th = s->th[ti];
      if (s->th.size() > 1) r += "thread " + std::to_string(ti) + ((int)ti == s->cur ? " (running)" : th.st == T_DONE ? " (done)" : th.st == T_RUN ? " (runnable)" : " (blocked)") + "\n";
      int n = 0;
      for (int i = (int)th.fr.size() - 1; i >= 0 && n < 14; i--, n++) {
        auto& fr = th.fr[i];
        std::string nm = dem(fr.f->name); if (nm.size() > 100) nm = nm.substr(0, 100) + "...";
        r += "  " + nm;
        if (fr.pc < fr.f->code.size()) r += " at " + loc(fr.f->code[fr.pc].I);
        r += "\n";
      }
    }
    return r;
  }
  static void jesc(std::string& o, const std::string& x) { for (unsigned char c : x) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } }
  std::string inputsJson(const ModelP& m) {
    std::string r = "{\"inputs\":[";
    bool first = true;
    for (auto& in : s->inputs) {
      if (!first) r += ",";
      first = false;
      r += "[\""; jesc(r, in.name); r += "\",\"";
      for (auto* e : in.e) { u64 v = SV.evalM(e, m); for (int i = 0; i < (e->w + 7) / 8; i++) { char b[4]; snprintf(b, 4, "%02x", (unsigned)(v >> (8 * i) & 255)); r += b; } }
      r += "\"]";
    }
    r += "],\"sched\":\"";
    for (u8 c : s->sched) { char b[4]; snprintf(b, 4, "%02x", c); r += b; }
    r += "\",\"crash\":" + std::to_string(s->crashAt) + ",\"crashes\":[";
    for (size_t i = 0; i < s->crashLog.size(); i++) r += (i ? "," : "") + ("[" + std::to_string(s->crashLog[i].first) + "," + std::to_string(s->crashLog[i].second) + "]");
    r += "]}";
    return r;
  }
  std::string obsJson(const ModelP& m) {
    std::string r = "[";
    bool first = true;
    for (auto& o : s->obs) {
      if (!first) r += ",";
      first = false;
      r += "[\""; jesc(r, o.name); r += "\",\"";
      for (auto& v : o.v) { u64 x = v.e ? SV.evalM(v.e, m) : v.c; char b[20]; if (o.isInt) { snprintf(b, 20, "%llx", (unsigned long long)x); } else snprintf(b, 20, "%02x", (unsigned)x); r += b; }
      r += "\"]";
    }
    return r + "]";
  }
  void record(const std::string& kind, const std::string& msg, const ModelP& m) {
    while (S->lock.exchange(1)) {}
    int n = S->nviol;
    bool dup = false;
    for (int i = 0; i < n; i++) if (kind == S->viol[i].kind && msg.substr(0, 500) == S->viol[i].msg) dup = true;
    if (!dup && n < 32) {
      auto& v = S->viol[n];
      snprintf(v.kind, sizeof v.kind, "%s", kind.c_str());
      snprintf(v.msg, sizeof v.msg, "%s", msg.substr(0, 500).c_str());
      snprintf(v.stack, sizeof v.stack, "%s", stackStr().c_str());
      std::string in = inputsJson(m); v.ok = in.size() < sizeof v.inputs;
      snprintf(v.inputs, sizeof v.inputs, "%s", v.ok ? in.c_str() : "{\"inputs\":[],\"truncated\":1}");
      snprintf(v.obs, sizeof v.obs, "%s", obsJson(m).substr(0, 4000).c_str());
      S->nviol = n + 1;
      if (n + 1 >= O.maxViol) S->stop = 1;
    }
    S->lock = 0;
  }
  void sampleOk() {
    if (S->nsamp >= O.nsamples) return;
    while (S->lock.exchange(1)) {}
    int n = S->nsamp;
    if (n < O.nsamples && n < 64) {
      std::string r = "{\"in\":" + inputsJson(s->pc.model) + ",\"obs\":" + obsJson(s->pc.model) + "}";
      if (r.size() < sizeof S->samp[0]) { snprintf(S->samp[n], sizeof S->samp[n], "%s", r.c_str()); S->nsamp = n + 1; }
    }
    S->lock = 0;
  }
  void reach(const std::string& l) {
    for (auto& x : s->reach) if (x == l) return;
    s->reach.push_back(l);
  }
  void commitReach() {
    for (auto& l : s->reach) {
      int n = S->nreach; bool found = false;
      for (int i = 0; i < n; i++) if (l.compare(0, 63, S->reach[i]) == 0) { S->reachCount[i]++; found = true; break; }
      if (found) continue;
      while (S->lock.exchange(1)) {}
      n = S->nreach;
      for (int i = 0; i < n; i++) if (l.compare(0, 63, S->reach[i]) == 0) { S->reachCount[i]++; found = true; }
      if (!found && n < 512) { snprintf(S->reach[n], 64, "%s", l.substr(0, 63).c_str()); S->reachCount[n] = 1; S->nreach = n + 1; }
      S->lock = 0;
    }
  }

  // ---------- forking ----------
  void saveCtx() { if (f) f->pc = ip; }
  State* clone() {
    saveCtx();
    State* n = new State(*s);
    n->id = nextStateId++;
    n->nforks++;
    flush();
    S->forks++;
    pend.push_back(n);
    return n;
  }
  // truth of c on the continuing path; the other side, when feasible, is queued for later.
  bool decide(Expr* c) {
    if (c->k == K_CONST) return c->c;
    bool v = modelOf(c);
    Expr* here = v ? c : X.notE(c);
    Expr* other = v ? X.notE(c) : c;
    if (s->pc.set.count(here)) return v;
    ModelP m;
    int r = SV.check(s->pc, other, &m);
    if (r == 1) { State* n = clone(); SV.add(n->pc, other, m); SV.add(s->pc, here, s->pc.model); }
    else if (r == 0) {} // implied: no need to record
    else { S->truncated++; SV.add(s->pc, here, s->pc.model); }
    return v;
  }
  u64 concretize(Expr* e) {
    if (e->k == K_CONST) return e->c;
    u64 v = modelOf(e);
    decide(X.cmp(K_EQ, e, X.cst(v, e->w)));
    return v;
  }
  u64 cval(Val& v, int w) { if (!v.e) return v.c; u64 x = concretize(v.e); v = Val{x, nullptr}; return x; }
  u64 cop(int o, int w) { Val& v = R(o); if (!v.e) return v.c; return concretize(v.e); }

  // ---------- memory ----------
  inline Page* pr(u64& a) {
    if (a >= Mem::ALIAS_LO && !s->mem.translate(a)) return nullptr;
    u64 pn = a >> PGB; TE& e = tlb[pn & 255];
    if (e.tag == pn) return e.p;
    Page* p = s->mem.getR(a);
    if (p) { e.tag = pn; e.p = p; e.w = false; }
    return p;
  }
  inline Page* pw(u64& a) {
    if (a >= Mem::ALIAS_LO && !s->mem.translate(a)) return nullptr;
    u64 pn = a >> PGB; TE& e = tlb[pn & 255];
    if (e.tag == pn && e.w) return e.p;
    Page* p = s->mem.getW(a, false);
    if (p) { e.tag = pn; e.p = p; e.w = true; }
    return p;
  }
  std::string hex(u64 a) { char b[40]; snprintf(b, 40, "0x%llx", (unsigned long long)a); return b; }
  std::string describe(u64 a) {
    // distance to nearest valid bytes
    std::string r;
    if (a < 4096) return " (null pointer)";
    if (a >= Mem::ALIAS_LO && a < Mem::ALIAS_HI) return " (file mapping)";
    for (int d = 1; d <= 32; d++) { if (s->mem.validByte(a - d)) { r += " (" + std::to_string(d) + " past a valid object)"; break; } }
    for (int d = 1; d <= 32; d++) { if (s->mem.validByte(a + d)) { r += " (" + std::to_string(d) + " before a valid object)"; break; } }
    return r;
  }
  [[noreturn]] void memErr(u64 a, u64 n, bool w) {
    if (getenv("SYMX_DEBUG")) {
      fprintf(stderr, "invalid address %llx\n", (unsigned long long)a);
      for (auto* c : s->pc.cs) if (!modelOf(c)) fprintf(stderr, "   model violates %s\n", X.str(c).c_str());
      for (auto* c : s->pc.cs) fprintf(stderr, "   pc %s\n", X.str(c).c_str());
    }
    violation("memory", std::string("invalid ") + (w ? "write" : "read") + " of " + std::to_string(n) + " bytes" + describe(a) + " in " + where());
  }
  std::string where() {
    // innermost frame outside the runtime model
    saveCtx();
    for (int i = (int)t->fr.size() - 1; i >= 0; i--) if (!t->fr[i].f->rt) return dem(t->fr[i].f->name).substr(0, 120) + " " + loc(t->fr[i].f->code[t->fr[i].pc].I);
    return fi ? fi->name : "";
  }
  inline bool validN(Page* p, u64 off, int n) {
    uint32_t v; memcpy(&v, p->valid + (off >> 3), 4);
    v >>= off & 7;
    uint32_t m = n >= 32 ? ~0u : (1u << n) - 1;
    return (v & m) == m;
  }
  Val load(u64 a, int w) {
    int n = (w + 7) / 8;
    u64 off = a & (PG - 1);
    if (__builtin_expect(off + n <= PG, 1)) {
      u64 a2 = a; Page* p = pr(a2);
      if (__builtin_expect(!p || !validN(p, off, n), 0)) memErr(a, n, false);
      if (!p->nsym) { u64 v = 0; memcpy(&v, p->data + off, n); return Val{v & maskw(w), nullptr}; }
    }
    return loadSlow(a, n, w);
  }
  Val byteAt(u64 a) {
    u64 a2 = a; Page* p = pr(a2); u64 off = a & (PG - 1);
    if (!p || !Mem::isValid(p, off)) memErr(a, 1, false);
    if (p->nsym && p->sym[off]) return Val{0, p->sym[off]};
    return Val{p->data[off], nullptr};
  }
  Val loadSlow(u64 a, int n, int w) {
    Val b[8]; bool sym = false; u64 v = 0;
    for (int i = 0; i < n; i++) { b[i] = byteAt(a + i); if (b[i].e) sym = true; else v |= b[i].c << (8 * i); }
    if (!sym) return Val{v & maskw(w), nullptr};
    Expr* e = ex(b[n - 1], 8);
    for (int i = n - 2; i >= 0; i--) e = X.concat(e, ex(b[i], 8));
    if (w < 8 * n) e = X.extract(e, 0, w);
    return mkv(e);
  }
  inline bool fileAddr(u64 a) { return a >= Program::FILES; }
  void storeRaw(u64 a, int n, const Val& v, int w) {
    u64 off = a & (PG - 1);
    if (__builtin_expect(off + n <= PG, 1)) {
      u64 a2 = a; Page* p = pw(a2);
      if (__builtin_expect(!p || !validN(p, off, n), 0)) memErr(a, n, true);
      if (!v.e) {
        u64 c = v.c;
        memcpy(p->data + off, &c, n);
        if (p->nsym) for (int i = 0; i < n; i++) if (p->sym[off + i]) { p->sym[off + i] = nullptr; p->nsym--; }
        return;
      }
    }
    Expr* e = v.e; if (e && w < 8 * n) e = X.zext(e, 8 * n);
    for (int i = 0; i < n; i++) {
      if (e) putByte(a + i, mkv(X.extract(e, 8 * i, 8))); else putByte(a + i, Val{(v.c >> (8 * i)) & 255, nullptr});
    }
  }
  void putByte(u64 a, const Val& v) {
    u64 a2 = a; Page* p = pw(a2); u64 off = a & (PG - 1);
    if (!p || !Mem::isValid(p, off)) memErr(a, 1, true);
    if (v.e) { symArr(p); if (!p->sym[off]) p->nsym++; p->sym[off] = v.e; }
    else { p->data[off] = v.c; if (p->nsym && p->sym[off]) { p->sym[off] = nullptr; p->nsym--; } }
  }
  // before a store to file-backed memory: the process may be killed here
  void crashEvent(u64 bytes) {
    if (!s->crashArmed) return;
    int ev = s->crashEvents;
    if (replaying) {
      for (auto& rc : replayCrashes) if (ev == rc.first) { s->crashAt = ev; s->crashPartial = rc.second; s->pendingCrash = true; }
    } else {
      auto die = [&](u64 part) { State* n = clone(); n->crashAt = ev; n->crashLog.push_back({ev, part}); n->crashArmed = false; n->pendingCrash = true; n->crashPartial = part; S->crashes++; };
      die(0); if (bytes > 8 && !s->crashWhole) die(bytes / 2);
    }
    s->crashEvents++;
  }
  void store(u64 a, const Val& v, int w) {
    int n = (w + 7) / 8;
    if (__builtin_expect(s->crashArmed || s->pendingCrash, 0) && fileAddr(a)) { if (s->crashArmed && !s->crashPassed) crashEvent(n); if (s->pendingCrash) doCrash(); }
    storeRaw(a, n, v, w);
  }
  [[noreturn]] void doCrash() { s->pendingCrash = false; s->crashArmed = false; throw PathEnd{10, "crash"}; }

  bool validRun(u64 A, u64 n, u64& lo, u64& hi) {
    if (!s->mem.validRange(A, n)) return false;
    lo = A; hi = A + n;
    const u64 LIM = 1 << 16;
    while (A - lo < LIM && s->mem.validByte(lo - 1)) lo--;
    while (hi - A < LIM && s->mem.validByte(hi)) hi++;
    return true;
  }
  // resolve a symbolic address: ensures in-bounds of one object on this path
  void bounds(Expr* addr, int n, bool w, u64& lo, u64& hi) {
    u64 A = modelOf(addr);
    S->memchecks++;
    if (!validRun(A, n, lo, hi)) {
      memErr(A, n, w);
    }
    Expr* inb = X.cmp(K_ULE, X.bin(K_SUB, addr, X.cst(lo, 64)), X.cst(hi - n - lo, 64));
    decide(inb);
  }
  Val loadSym(Expr* addr, int w) {
    int n = (w + 7) / 8;
    u64 lo, hi; bounds(addr, n, false, lo, hi);
    if (addr->vs->v.size() == 1 && X.varExprs[addr->vs->v[0]]->w == 8) {
      uint32_t v = addr->vs->v[0];
      auto it = s->pc.dom.find(v);
      std::vector<u64> tab(256, 0); std::vector<std::pair<int, Expr*>> syms; bool ok = true;
      Expr* var = X.varExprs[v];
      std::unordered_map<u64, Expr*> memo;
      for (int i = 0; i < 256 && ok; i++) {
        if (it != s->pc.dom.end() && !(it->second.b[i >> 6] >> (i & 63) & 1)) continue;
        X.singleVar = v; X.singleVal = i; X.epoch = X.newEpoch();
        u64 a = X.evalSingle(addr);
        if (a < lo || a > hi - n) continue;   // excluded by other constraints on this path
        Val x = load(a, w);
        if (x.e) { syms.push_back({i, x.e}); if (syms.size() > 64) ok = false; } else tab[i] = x.c;
      }
      if (ok) {
        for (int i = 0; i < 256; i++) if (it != s->pc.dom.end() && !(it->second.b[i >> 6] >> (i & 63) & 1)) tab[i] = tab[0] ? tab[i] : tab[i];
        Expr* r = X.table(std::move(tab), w, var);
        for (auto& p : syms) r = X.ite(X.cmp(K_EQ, var, X.cst(p.first, 8)), p.second, r);
        return mkv(r);
      }
    } else {
      Expr* idx = X.bin(K_SUB, addr, X.cst(lo, 64));
      Expr* rest = idx; u64 coff = 0;
      if (idx->k == K_ADD && idx->b->k == K_CONST) { rest = idx->a; coff = idx->b->c; }
      int tz = 0; while (tz < 64 && (rest->kz >> tz & 1)) tz++;
      u64 maxr = ~rest->kz;
      if (tz < 20) {
        u64 lim = hi - n - lo;
        // a negative offset or a sum that may wrap: only the full range of the remaining index is exact
        u64 maxIdx = coff > lim || maxr > ~coff ? maxr : std::min(maxr, lim - coff);
        if (maxIdx >> tz < 1024) {
          u64 cnt = (maxIdx >> tz) + 1;
          int ib = 1; while ((1ULL << ib) < cnt) ib++;
          std::vector<u64> tab(cnt, 0); std::vector<std::pair<u64, Expr*>> syms; bool ok = true;
          for (u64 i = 0; i < cnt && ok; i++) {
            u64 a = lo + coff + (i << tz);
            if (a < lo || a > hi - n) continue;
            Val x = load(a, w);
            if (x.e) { syms.push_back({i, x.e}); if (syms.size() > 64) ok = false; } else tab[i] = x.c;
          }
          if (ok) {
            Expr* ie = X.extract(rest, tz, std::min(ib, 64 - tz));
            Expr* r = X.table(std::move(tab), w, ie);
            for (auto& p : syms) r = X.ite(X.cmp(K_EQ, ie, X.cst(p.first, ie->w)), p.second, r);
            return mkv(r);
          }
        }
      }
    }
    u64 a = concretize(addr);
    return load(a, w);
  }
  // copy n bytes
  void copyBytes(u64 d, u64 src, u64 n) {
    if (!n) return;
    if (d == src) return;
    u64 sa = src, da = d;
    bool back = d > src && d < src + n;
    if (!back) {
      while (n) {
        u64 so = sa & (PG - 1), dof = da & (PG - 1);
        u64 k = std::min(n, std::min(PG - so, PG - dof));
        chunk(da, sa, k);
        sa += k; da += k; n -= k;
      }
    } else {
      u64 se = src + n, de = d + n;
      while (n) {
        u64 so = ((se - 1) & (PG - 1)) + 1, dof = ((de - 1) & (PG - 1)) + 1;
        u64 k = std::min(n, std::min(so, dof));
        chunk(de - k, se - k, k);
        se -= k; de -= k; n -= k;
      }
    }
  }
  void chunk(u64 d, u64 src, u64 k) {
    u64 d2 = d, s2 = src;
    Page* dp = pw(d2); if (!dp) memErr(d, k, true);
    Page* sp = pr(s2); if (!sp) memErr(src, k, false);   // after pw: COW may have replaced it
    u64 so = src & (PG - 1), dof = d & (PG - 1);
    for (u64 i = 0; i < k; i++) { if (!Mem::isValid(sp, so + i)) memErr(src + i, k - i, false); if (!Mem::isValid(dp, dof + i)) memErr(d + i, k - i, true); }
    memmove(dp->data + dof, sp->data + so, k);
    if (sp->nsym || dp->nsym) {
      Expr* tmp[PG];
      if (sp->nsym) memcpy(tmp, sp->sym + so, k * sizeof(Expr*)); else memset(tmp, 0, k * sizeof(Expr*));
      symArr(dp);
      for (u64 i = 0; i < k; i++) { dp->nsym += (tmp[i] != nullptr) - (dp->sym[dof + i] != nullptr); dp->sym[dof + i] = tmp[i]; }
    }
  }
  void fillBytes(u64 d, const Val& v, u64 n) {
    if (v.e) { for (u64 i = 0; i < n; i++) putByte(d + i, v); return; }
    while (n) {
      u64 d2 = d; Page* p = pw(d2); u64 o = d & (PG - 1), k = std::min<u64>(n, PG - o);
      if (!p) memErr(d, n, true);
      for (u64 i = 0; i < k; i++) if (!Mem::isValid(p, o + i)) memErr(d + i, k - i, true);
      memset(p->data + o, v.c, k);
      if (p->nsym) for (u64 i = 0; i < k; i++) if (p->sym[o + i]) { p->sym[o + i] = nullptr; p->nsym--; }
      d += k; n -= k;
    }
  }
  // heap
  enum : u64 { MG_ALLOC = 0x5AFEA110C8ED0001ULL, MG_FREED = 0x5AFEF8EED0000002ULL };
  void rawPut(u64 a, u64 v) { Page* p = s->mem.getW(a, true); flush1(a); memcpy(p->data + (a & (PG - 1)), &v, 8); }
  u64 rawGet(u64 a) { Page* p = s->mem.getR(a); if (!p) return 0; u64 v; memcpy(&v, p->data + (a & (PG - 1)), 8); return v; }
  void flush1(u64 a) { tlb[(a >> PGB) & 255].tag = ~0ULL; }
  void flushRange(u64 a, u64 n) { u64 b = a >> PGB, e = (a + n) >> PGB; if (e - b >= 255) flush(); else for (; b <= e; b++) tlb[b & 255].tag = ~0ULL; }
  u64 heapAlloc(u64 n, u64 align) {
    if (n > (1ULL << 30)) return 0;
    u64 a = s->heapTop + 32;
    a = (a + align - 1) / align * align;
    s->heapTop = a + n + 16; s->heapTop = (s->heapTop + 15) & ~15ULL;
    if (s->heapTop > Program::STACK - (1 << 20)) unsupported("heap address space exhausted");
    rawPut(a - 16, n); rawPut(a - 8, MG_ALLOC);
    s->mem.setValid(a, n); flushRange(a, n);
    s->allocBytes += n;
    if (memStats.pages > O.memLimitPages) throw PathEnd{4, "memory limit"};
    return a;
  }
  void heapFree(u64 a) {
    if (!a) return;
    u64 m = a >= Program::HEAP && a < s->heapTop ? rawGet(a - 8) : 0;
    if (m == MG_FREED) violation("memory", "double free in " + where());
    if (m != MG_ALLOC) violation("memory", "invalid free in " + where());
    u64 n = rawGet(a - 16);
    if (s->th.size() > 1 && s->raceOn) raceAccess(a, n, true);
    s->allocBytes -= n;
    rawPut(a - 8, MG_FREED);
    s->mem.setInvalid(a, n, true); flushRange(a, n);
  }

  // ---------- data races ----------
  void raceAccess(u64 a, u64 n, bool w) {
    if (a >= Program::STACK && a < Program::FILES) {
      // thread stacks: only foreign stacks matter
    }
    int me = s->cur;
    for (u64 i = 0; i < n; i++) {
      u64 b = a + i; u64 pn = b >> PGB;
      auto& sp = s->shadow[pn];
      if (!sp) { sp = std::make_shared<Shadow>(); memset(sp.get(), 0, sizeof(Shadow)); }
      else if (sp.use_count() > 1) sp = std::make_shared<Shadow>(*sp);
      ShadowCell& c = sp->c[b & (PG - 1)];
      if (c.wt && c.wt - 1 != me && c.wc > t->vc.c[c.wt - 1]) raceErr(b, w, true, c.wt - 1);
      if (w) {
        if (c.nr) for (int k = 0; k < MAXT; k++) if (k != me && c.rc[k] > t->vc.c[k]) raceErr(b, w, false, k);
        c.wt = me + 1; c.wc = t->vc.c[me]; if (c.nr) { memset(c.rc, 0, sizeof c.rc); c.nr = 0; }
      } else { c.rc[me] = t->vc.c[me]; c.nr = 1; }
    }
  }
  void raceErr(u64 a, bool w, bool ow, int other) {
    // one report per location pair
    violation("race", std::string("data race: ") + (w ? "write" : "read") + " conflicts with a " + (ow ? "write" : "read") + " by another thread, in " + where());
  }
  void clearShadow(u64 a, u64 n) {
    if (s->shadow.empty()) return;
    for (u64 i = 0; i < n; i++) { auto it = s->shadow.find((a + i) >> PGB); if (it != s->shadow.end()) { if (it->second.use_count() > 1) it->second = std::make_shared<Shadow>(*it->second); memset(&it->second->c[(a + i) & (PG - 1)], 0, sizeof(ShadowCell)); } }
  }
  void acquire(u64 a) { auto it = s->sync.find(a); if (it != s->sync.end()) t->vc.join(it->second); }
  void release(u64 a) { s->sync[a].join(t->vc); t->vc.c[s->cur]++; }

  // ---------- scheduling ----------
  void switchTo(int i) {
    saveCtx(); 
    s->cur = i; bind();
  }
  void bind() {
    t = &s->th[s->cur];
    if (t->fr.empty()) { f = nullptr; return; }
    f = &t->fr.back(); fi = f->f; regs = t->regs.data() + f->base; ip = f->pc;
  }
  // Called before executing a synchronising instruction. Returns true when the thread was switched (re-dispatch needed).
  bool schedPoint() {
    if (s->th.size() == 1 || s->atomicDepth) return false;
    if (t->passed) { t->passed = false; return false; }
    S->schedPoints++;
    int alive = 0; std::vector<int> alts;
    for (size_t i = 0; i < s->th.size(); i++) if ((int)i != s->cur && s->th[i].st == T_RUN) { alts.push_back(i); alive++; }
    if (alts.empty()) { return false; }
    if (replaying) {
      int c = nextSched(s->cur);
      s->sched.push_back(c);
      if (c == s->cur) return false;
      t->passed = true; switchTo(c); return true;
    }
    if (++t->spin > 60) {  // a spinning thread is descheduled so that the others make progress
      t->spin = 0; t->passed = true; S->forced++;
      int c = alts[0]; for (int x : alts) if (x > s->cur) { c = x; break; }
      s->sched.push_back(c); switchTo(c); return true;
    }
    if (s->preempt >= O.preempt) { s->sched.push_back(s->cur); return false; }
    for (int a : alts) {
      State* n = clone();
      n->preempt++; n->sched.push_back(a);
      n->th[s->cur].passed = true; n->th[s->cur].spin = 0;
      n->cur = a;
    }
    s->sched.push_back(s->cur);
    return false;
  }
  size_t schedPos = 0;
  int nextSched(int dflt) { if (schedPos < replaySched.size()) { int c = replaySched[schedPos++]; if (c < (int)s->th.size() && s->th[c].st == T_RUN) return c; } return dflt; }
  // the current thread cannot continue: pick another (all choices explored)
  void mustSwitch(bool yielding) {
    saveCtx();
    std::vector<int> alts;
    for (size_t i = 0; i < s->th.size(); i++) if ((int)i != s->cur && s->th[i].st == T_RUN) alts.push_back(i);
    if (alts.empty()) {
      if (yielding && s->th[s->cur].st == T_RUN) return;
      if (s->th[s->cur].st == T_RUN) return;
      // time passes only when nothing else can run
      for (size_t i = 0; i < s->th.size(); i++) if (s->th[i].st == T_TIMED) { alts.push_back(i); }
      if (alts.empty()) {
        bool other = false;
        for (auto& th : s->th) if (th.st == T_BLOCKED) other = true;
        if (other) violation("deadlock", "deadlock: every thread is blocked, in " + where());
        throw PathEnd{0, ""};
      }
      for (int a : alts) { s->th[a].st = T_RUN; s->th[a].timedOut = true; }
    }
    int c;
    if (replaying) { c = nextSched(alts[0]); if (c == s->cur && s->th[c].st != T_RUN) c = alts[0]; s->sched.push_back(c); }
    else {
      c = alts[0];
      if (!yielding || s->preempt < O.preempt) for (size_t i = 1; i < alts.size(); i++) { State* n = clone(); n->cur = alts[i]; n->sched.push_back(alts[i]); if (yielding) n->preempt++; }
      else { for (int x : alts) if (x > s->cur) { c = x; break; } }
      s->sched.push_back(c);
    }
    s->cur = c; bind();
  }

  // ---------- calls ----------
  void pushFrame(FuncInfo* g, const Val* args, int nargs, u64 va) {
    if (!g->decoded) { Decoder d(P, *g); d.run(); }
    if (!g->executed) { g->executed = true; S->funcHit[g->id] = 1; }
    saveCtx();
    Frame nf; nf.f = g; nf.pc = 0; nf.base = t->regs.size(); nf.spLo = t->sp; nf.va = va;
    nf.spBase = (t->sp + 31) & ~31ULL;
    if (g->allocaSize) {
      t->sp = nf.spBase + g->allocaSize + 16;
      if (t->sp - (Program::STACK + s->cur * Program::STACKSZ) > Program::STACKSZ - (1 << 20)) violation("stack", "stack overflow in " + where());
      for (auto& al : g->allocas) { s->mem.setValid(nf.spBase + al.first, al.second); }
      flushRange(nf.spBase, g->allocaSize + 16);
    }
    t->regs.resize(nf.base + g->nslots);
    Val* r = t->regs.data() + nf.base;
    for (int i = 0; i < g->nargs && i < nargs; i++) r[g->argSlots[i]] = args[i];
    t->fr.push_back(nf);
    if (t->fr.size() > 2000) violation("stack", "unbounded recursion in " + where());
    bind(); ip = 0;
  }
  void popFrame() {
    Frame& fr = t->fr.back();
    if (t->sp != fr.spLo) {
      s->mem.setInvalid(fr.spLo, t->sp - fr.spLo, false); flushRange(fr.spLo, t->sp - fr.spLo);
      if (s->th.size() > 1) clearShadow(fr.spLo, t->sp - fr.spLo);
      t->sp = fr.spLo;
    }
    t->regs.resize(fr.base);
    t->fr.pop_back();
  }
  void takeEdge(Edge* e) {
    if (e->n) {
      const int* c = &fi->edgeCopies[e->off];
      if (!e->par) for (int i = 0; i < e->n; i++) regs[c[2 * i]] = R(c[2 * i + 1]);
      else { Val tmp[512]; std::vector<Val> big; Val* tp = tmp; if (e->n > 512) { big.resize(e->n); tp = big.data(); } for (int i = 0; i < e->n; i++) tp[i] = R(c[2 * i + 1]); for (int i = 0; i < e->n; i++) regs[c[2 * i]] = tp[i]; }
    }
    ip = e->target;
  }
  void doReturn(RetInfo* r) {
    Val rv[16]; int n = r ? std::min<int>(16, r->ops.size()) : 0;
    for (int i = 0; i < n; i++) rv[i] = R(r->ops[i]);
    popFrame();
    if (t->fr.empty()) { threadEnd(); return; }
    bind();
    Inst& ci = fi->code[ip];
    CallInfo* c = (CallInfo*)ci.p;
    if (s->tryDepth >= 0 && s->cur == 0 && (int)t->fr.size() == s->tryDepth) { s->tryDepth = -1; s->crashArmed = false; n = 1; rv[0] = Val{0, nullptr}; }
    for (int i = 0; i < c->nret && i < n; i++) regs[ci.d + i] = rv[i];
    if (c->invoke) takeEdge(c->normal); else ip++;
  }
  void threadEnd() {
    if (s->cur == 0) throw PathEnd{0, ""};
    t->st = T_DONE; f = nullptr;
    u64 key = 0xFFFF000000000000ULL + s->cur;
    release(key);
    for (auto& th : s->th) if ((th.st == T_BLOCKED || th.st == T_TIMED) && th.waitAddr == key) th.st = T_RUN;
    mustSwitch(false);
  }
  void crashUnwind() {
    // the process dies: every frame above symx_try disappears
    s->cur = 0; 
    for (size_t i = 1; i < s->th.size(); i++) { s->th[i].st = T_DONE; s->th[i].fr.clear(); s->th[i].regs.clear(); }
    s->th.resize(1);
    bind();
    while ((int)t->fr.size() > s->tryDepth) popFrame();
    s->tryDepth = -1; s->atomicDepth = 0;
    bind();
    Inst& ci = fi->code[ip]; CallInfo* c = (CallInfo*)ci.p;
    regs[ci.d] = Val{1, nullptr};
    if (c->invoke) takeEdge(c->normal); else ip++;
  }
  bool tiMatches(u64 ti, u64 want) {
    if (!want || ti == want) return true;
    if (!ti) return false;
    u64 vt = load(ti, 64).c;
    auto it = P.gname.find(vt - 16);
    std::string k = it == P.gname.end() ? "" : it->second;
    if (k.find("__si_class_type_info") != std::string::npos) return tiMatches(load(ti + 16, 64).c, want);
    if (k.find("__vmi_class_type_info") != std::string::npos) {
      u64 n = load(ti + 20, 32).c;
      for (u64 i = 0; i < n; i++) if (tiMatches(load(ti + 24 + 16 * i, 64).c, want)) return true;
    }
    return false;
  }
  // unwind from the current frame's call instruction (the frame itself may catch)
  void unwind(u64 obj, u64 ti, bool fromCallee) {
    while (true) {
      if (t->fr.empty()) violation("exception", "uncaught exception");
      if (s->tryDepth >= 0 && s->cur == 0 && (int)t->fr.size() == s->tryDepth) violation("exception", "uncaught exception");
      bind();
      Inst& ci = fi->code[ip];
      if (ci.op == O_CALL) {
        CallInfo* c = (CallInfo*)ci.p;
        if (c->invoke) {
          LPInfo* lp = (LPInfo*)c->unwind->lp;
          u32 sel = 0; bool enter = lp->cleanup;
          for (u64 cl : lp->clauses) if (tiMatches(ti, cl)) { sel = cl ? P.typeId(cl) : 0x7fffffff; enter = true; break; }
          if (enter) { t->excObj = obj; t->excSel = sel; takeEdge(c->unwind); return; }
        }
      }
      if (t->fr.size() == 1) { violation("exception", "uncaught exception in " + where()); }
      popFrame();
    }
  }

  // ---------- inputs ----------
  // symbolic input variables are shared between paths by (position, byte) so that queries can be reused
  std::map<std::tuple<size_t, int, int>, Expr*> inVars;
  Expr* inVar(size_t pos, int i, int w, const std::string& nm) {
    auto& e = inVars[{pos, i, w}];
    if (!e) e = X.newVar(nm + "_" + std::to_string(pos) + "_" + std::to_string(i), w);
    return e;
  }
  void makeSymbolic(u64 a, u64 n, const std::string& nm) {
    size_t pos = s->inputs.size();
    Input in; in.name = nm;
    if (replaying) {
      std::vector<u8> d = nextReplay(nm, n);
      for (u64 i = 0; i < n; i++) { putByte(a + i, Val{d[i], nullptr}); in.e.push_back(X.cst(d[i], 8)); }
    } else for (u64 i = 0; i < n; i++) { Expr* e = inVar(pos, i, 8, nm); in.e.push_back(e); putByte(a + i, Val{0, e}); }
    s->inputs.push_back(in);
  }
  std::vector<u8> nextReplay(const std::string& nm, u64 n) {
    std::vector<u8> d;
    if (replayPos < replayIn.size()) { if (replayIn[replayPos].first != nm) fprintf(stderr, "replay: input name mismatch %s vs %s\n", nm.c_str(), replayIn[replayPos].first.c_str()); d = replayIn[replayPos++].second; }
    d.resize(n);
    return d;
  }
  void addConstraint(Expr* c) {  // assume
    if (c->k == K_CONST) { if (!c->c) throw PathEnd{2, "assume"}; return; }
    ModelP m; int r = SV.check(s->pc, c, &m);
    if (r == 0) throw PathEnd{2, "assume"};
    if (r < 0) { S->truncated++; throw PathEnd{2, "assume-unknown"}; }
    SV.add(s->pc, c, m);
  }
  Val symInt(u64 lo, u64 hi, const std::string& nm) {
    if (replaying) {
      int w = hi < 256 ? 8 : hi < 65536 ? 16 : hi < (1ULL << 32) ? 32 : 64;
      auto d = nextReplay(nm, w / 8); u64 v = 0; memcpy(&v, d.data(), w / 8);
      Input in; in.name = nm; in.e.push_back(X.cst(v, w)); s->inputs.push_back(in);
      if (v < lo || v > hi) { if (!(w == 64 && lo == 0 && hi == ~0ULL)) { fprintf(stderr, "replay: %s out of range\n", nm.c_str()); throw PathEnd{2, "replay"}; } }
      return Val{v, nullptr};
    }
    int w = hi < 256 ? 8 : hi < 65536 ? 16 : hi < (1ULL << 32) ? 32 : 64;
    Expr* e = inVar(s->inputs.size(), 0, w, nm);
    // constrain before recording so that re-execution after a fork is idempotent
    Input in; in.name = nm; in.e.push_back(e); 
    if (hi < maskw(w)) addConstraint(X.cmp(K_ULE, e, X.cst(hi, w)));
    if (lo > 0) addConstraint(X.cmp(K_ULE, X.cst(lo, w), e));
    s->inputs.push_back(in);
    return mkv(X.zext(e, 64));
  }
  std::string cstr(u64 a) { std::string r; while (true) { Val v = byteAt(a++); u64 c = v.e ? modelOf(v.e) : v.c; if (!c) return r; r += (char)c; if (r.size() > 1000) return r; } }
  void assertTrue(Val v, const std::string& msg) {
    S->asserts++;
    if (!v.e) { if (!(v.c & 0xffffffff)) violation("assert", msg); return; }
    Expr* c = X.cmp(K_EQ, v.e, X.cst(0, v.e->w));
    if (c->k == K_CONST) { if (c->c) violation("assert", msg); return; }
    S->assertSolver++;
    ModelP m; int r = SV.check(s->pc, c, &m);
    if (r == 1) {
      record("assert", msg, m);
      // continue with the assertion assumed, if that is possible
      ModelP m2; Expr* nc = X.notE(c); int r2 = SV.check(s->pc, nc, &m2);
      if (r2 == 1) { SV.add(s->pc, nc, m2); return; }
      throw PathEnd{1, msg};
    }
    if (r < 0) { S->truncated++; }
  }
  void setRet(Inst& i, CallInfo& c, Val v) { if (c.nret) regs[i.d] = v; }
  void callDone(Inst& i, CallInfo& c) { if (c.invoke) takeEdge(c.normal); else ip++; }

  void initTls(Thread& th) {
    if (!P.tlsSize) return;
    u64 base = heapAlloc(P.tlsSize + 64, 64); th.tlsBase = base;
    fillBytes(base, Val{0, nullptr}, P.tlsSize + 64);
    flush();
    for (auto* g : P.tls) if (g->hasInitializer()) P.writeInit(s->mem, base + P.tlsOff[g], const_cast<Constant*>(g->getInitializer()));
    flush();
  }
  u64 batchN = 0;
  void run(State* st);
  void execCall(Inst& i);
  bool intrinsic(Inst& i, CallInfo& c, FuncInfo* g);
  void explore(State* init);
  Val arg(CallInfo& c, int k) { return R(c.args[k]); }
  u64 carg(CallInfo& c, int k) { return cop(c.args[k], c.argw[k]); }
};

#include "builtins.h"

void Machine::execCall(Inst& i) {
  CallInfo& c = *(CallInfo*)i.p;
  FuncInfo* g = c.callee;
  if (!g) {
    u64 a = cop(c.calleeOp, 64);
    u64 k = (a - Program::FBASE) / 16;
    if (a < Program::FBASE || k >= P.funcs.size() || (a & 15)) violation("memory", "indirect call to a non-function address in " + where());
    g = P.funcs[k];
  }
  if (g->intr == 0) {
    // classify once
    g->intr = 3;
    if (Builtin b = findBuiltin(g->name)) { g->bi = b; g->intr = 1; }
    else if (g->F->isDeclaration()) {
      g->intr = g->F->isIntrinsic() ? 2 : 4;
      if (g->intr == 4) { auto it = P.byName.find(g->name); (void)it; }
    }
  }
  switch (g->intr) {
    case 1: g->calls++; jumped = false; (*g->bi)(*this, i, c); if (!jumped) callDone(i, c); return;
    case 2: if (!intrinsic(i, c, g)) unsupported("intrinsic " + g->name); callDone(i, c); return;
    case 4: unsupported("external function " + dem(g->name) + " [" + g->name + "]");
  }
  Val a[64]; int n = std::min<int>(c.args.size(), 64);
  for (int k = 0; k < n; k++) a[k] = R(c.args[k]);
  u64 va = 0; u64 spSave = t->sp;
  for (auto& b : c.byvals) {
    u64 d = (t->sp + 31) & ~15ULL;  // popped with the callee's frame
    s->mem.setValid(d, b.size); flushRange(d, b.size);
    copyBytes(d, a[b.arg].e ? concretize(a[b.arg].e) : a[b.arg].c, b.size);
    a[b.arg] = Val{d, nullptr};
    t->sp = d + b.size + 16;
  }
  if (c.vararg) {
    va = (t->sp + 31) & ~15ULL; u64 p = va;
    for (int k = c.nfixed; k < n; k++) {
      s->mem.setValid(p, 8); flushRange(p, 8);
      Val v = a[k]; if (v.e && v.e->w < 64) v = mkv(X.zext(v.e, 64));
      storeRaw(p, 8, v, 64); p += 8;
    }
    t->sp = p + 16;
    n = c.nfixed;
  }
  u64 spNew = t->sp;
  pushFrame(g, a, n, va);
  if (spNew != spSave) f->spLo = spSave;
}

static inline bool icmpC(int p, u64 a, u64 b, int w) {
  switch (p) {
    case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return sextw(a, w) > sextw(b, w); case CmpInst::ICMP_SGE: return sextw(a, w) >= sextw(b, w);
    case CmpInst::ICMP_SLT: return sextw(a, w) < sextw(b, w); default: return sextw(a, w) <= sextw(b, w);
  }
}
static Expr* icmpE(int p, Expr* a, Expr* b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return X.cmp(K_EQ, a, b); case CmpInst::ICMP_NE: return X.notE(X.cmp(K_EQ, a, b));
    case CmpInst::ICMP_UGT: return X.cmp(K_ULT, b, a); case CmpInst::ICMP_UGE: return X.cmp(K_ULE, b, a);
    case CmpInst::ICMP_ULT: return X.cmp(K_ULT, a, b); case CmpInst::ICMP_ULE: return X.cmp(K_ULE, a, b);
    case CmpInst::ICMP_SGT: return X.cmp(K_SLT, b, a); case CmpInst::ICMP_SGE: return X.cmp(K_SLE, b, a);
    case CmpInst::ICMP_SLT: return X.cmp(K_SLT, a, b); default: return X.cmp(K_SLE, a, b);
  }
}
static bool fcmpC(int p, double a, double b) {
  bool uno = std::isnan(a) || std::isnan(b);
  switch (p) {
    case CmpInst::FCMP_FALSE: return false; case CmpInst::FCMP_TRUE: return true;
    case CmpInst::FCMP_OEQ: return a == b; case CmpInst::FCMP_OGT: return a > b; case CmpInst::FCMP_OGE: return a >= b; case CmpInst::FCMP_OLT: return a < b; case CmpInst::FCMP_OLE: return a <= b;
    case CmpInst::FCMP_ONE: return !uno && a != b; case CmpInst::FCMP_ORD: return !uno; case CmpInst::FCMP_UNO: return uno;
    case CmpInst::FCMP_UEQ: return uno || a == b; case CmpInst::FCMP_UGT: return uno || a > b; case CmpInst::FCMP_UGE: return uno || a >= b; case CmpInst::FCMP_ULT: return uno || a < b; case CmpInst::FCMP_ULE: return uno || a <= b;
    default: return uno || a != b;
  }
}
static Expr* fcmpE(int p, Expr* a, Expr* b) {
  auto uno = [&] { return X.fop(K_FUNO, 1, a, b); };
  auto eq = [&] { return X.fop(K_FEQ, 1, a, b); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return X.F; case CmpInst::FCMP_TRUE: return X.T;
    case CmpInst::FCMP_OEQ: return eq(); case CmpInst::FCMP_OGT: return X.fop(K_FLT, 1, b, a); case CmpInst::FCMP_OGE: return X.fop(K_FLE, 1, b, a);
    case CmpInst::FCMP_OLT: return X.fop(K_FLT, 1, a, b); case CmpInst::FCMP_OLE: return X.fop(K_FLE, 1, a, b);
    case CmpInst::FCMP_ONE: return X.bin(K_AND, X.notE(uno()), X.notE(eq())); case CmpInst::FCMP_ORD: return X.notE(uno()); case CmpInst::FCMP_UNO: return uno();
    case CmpInst::FCMP_UEQ: return X.bin(K_OR, uno(), eq()); case CmpInst::FCMP_UGT: return X.notE(X.fop(K_FLE, 1, a, b)); case CmpInst::FCMP_UGE: return X.notE(X.fop(K_FLT, 1, a, b));
    case CmpInst::FCMP_ULT: return X.notE(X.fop(K_FLE, 1, b, a)); case CmpInst::FCMP_ULE: return X.notE(X.fop(K_FLT, 1, b, a));
    default: return X.notE(eq());
  }
}

#define BINOP(OPC, KK, EXPRC) \
  case OPC: { Val &x = R(i.a), &y = R(i.b); if (!x.e && !y.e) { u64 a = x.c, b = y.c; (void)a; (void)b; regs[i.d] = Val{(EXPRC) & maskw(i.w), nullptr}; } else regs[i.d] = mkv(X.bin(KK, ex(x, i.w), ex(y, i.w))); ip++; break; }

void Machine::run(State* st) {
  s = st; flush(); bind();
  u64 stepsLeft = 0; u64& batch = batchN;
  bool checkRace = false;
  auto refresh = [&]() {
    S->steps += batch; batch = 0;
  };
  auto addrOf = [&](Inst& i, Val& p) -> Expr* { return i.imm ? X.bin(K_ADD, p.e, X.cst(i.imm, 64)) : p.e; };
  while (true) {
    Inst& i = fi->code[ip];
    if (++batch >= 4096) {
      s->steps += batch; refresh();
      if (s->steps > O.stepLimit) { violation("hang", "step limit exceeded (possible endless loop) in " + where()); }
      if (S->stop || nowSec() - tStart > O.timeLimit) { if (!S->stop) S->ranout = 1; throw PathEnd{5, "stopped"}; }
    }
    switch (i.op) {
      BINOP(O_ADD, K_ADD, a + b)
      BINOP(O_SUB, K_SUB, a - b)
      BINOP(O_MUL, K_MUL, a * b)
      BINOP(O_AND, K_AND, a & b)
      BINOP(O_OR, K_OR, a | b)
      BINOP(O_XOR, K_XOR, a ^ b)
      BINOP(O_SHL, K_SHL, b >= i.w ? 0 : a << b)
      BINOP(O_LSHR, K_LSHR, b >= i.w ? 0 : a >> b)
      BINOP(O_ASHR, K_ASHR, (u64)(sextw(a, i.w) >> (b >= i.w ? 63 : b)))
      case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: {
        Val x = R(i.a), y = R(i.b);
        if (y.e) { Expr* z = X.cmp(K_EQ, y.e, X.cst(0, i.w)); if (decide(z)) violation("arith", "division by zero in " + where()); }
        else if (!y.c) violation("arith", "division by zero in " + where());
        Kind k = i.op == O_UDIV ? K_UDIV : i.op == O_SDIV ? K_SDIV : i.op == O_UREM ? K_UREM : K_SREM;
        if (!x.e && !y.e) regs[i.d] = Val{ExprCtx::apply(k, i.w, 0, x.c, y.c, i.w, i.w), nullptr};
        else regs[i.d] = mkv(X.bin(k, ex(x, i.w), ex(y, i.w)));
        ip++; break;
      }
      case O_ICMP: {
        Val &x = R(i.a), &y = R(i.b);
        if (!x.e && !y.e) regs[i.d] = Val{icmpC(i.w2, x.c, y.c, i.w), nullptr};
        else regs[i.d] = mkv(icmpE(i.w2, ex(x, i.w), ex(y, i.w)));
        ip++; break;
      }
      case O_SELECT: {
        Val& c = R(i.c);
        if (!c.e) regs[i.d] = c.c ? R(i.a) : R(i.b);
        else if (i.imm) { bool t = decide(c.e); regs[i.d] = t ? R(i.a) : R(i.b); }   // an address: one path per choice
        else { Val x = R(i.a), y = R(i.b); regs[i.d] = mkv(X.ite(c.e, ex(x, i.w), ex(y, i.w))); }
        ip++; break;
      }
      case O_LOAD: {
        if (__builtin_expect(i.fl & FL_ATOMIC, 0)) { if (schedPoint()) break; }
        Val p = R(i.a);
        if (p.e) { Expr* ae = addrOf(i, p); if (ae->k == K_CONST) { regs[i.d] = load(ae->c, i.w); } else regs[i.d] = loadSym(ae, i.w); }
        else {
          u64 a = p.c + i.imm;
          regs[i.d] = load(a, i.w);
          if (__builtin_expect(s->raceOn && s->th.size() > 1, 0)) {
            if (i.fl & FL_ATOMIC) { if (i.fl & FL_ACQ) acquire(a); }
            else if (!fi->rt) raceAccess(a, (i.w + 7) / 8, false);
          }
        }
        ip++; break;
      }
      case O_STORE: {
        if (__builtin_expect(i.fl & FL_ATOMIC, 0)) { if (schedPoint()) break; t->spin = 0; }
        Val p = R(i.a);
        if (p.e) {
          Expr* ae = addrOf(i, p); u64 lo, hi; u64 a;
          if (ae->k == K_CONST) a = ae->c;
          else { bounds(ae, (i.w + 7) / 8, true, lo, hi); a = concretize(ae); }
          store(a, R(i.b), i.w);
        } else {
          u64 a = p.c + i.imm;
          store(a, R(i.b), i.w);
          if (__builtin_expect(s->raceOn && s->th.size() > 1, 0)) {
            if (i.fl & FL_ATOMIC) { if (i.fl & FL_REL) release(a); }
            else if (!fi->rt) raceAccess(a, (i.w + 7) / 8, true);
          }
        }
        ip++; break;
      }
      case O_ADDI: { Val& x = R(i.a); if (!x.e) regs[i.d] = Val{x.c + i.imm, nullptr}; else regs[i.d] = mkv(X.bin(K_ADD, x.e, X.cst(i.imm, 64))); ip++; break; }
      case O_GEPX: {
        Val &x = R(i.a), &y = R(i.b); u64 k = fi->consts[~i.c].c;
        if (!x.e && !y.e) regs[i.d] = Val{x.c + k + (u64)sextw(y.c, i.w2) * i.imm, nullptr};
        else {
          Expr* ie = X.sext(ex(y, i.w2), 64);
          if (i.w2 > 64) ie = X.extract(ie, 0, 64);
          Expr* m = X.bin(K_MUL, ie, X.cst(i.imm, 64));
          regs[i.d] = mkv(X.bin(K_ADD, X.bin(K_ADD, ex(x, 64), m), X.cst(k, 64)));
        }
        ip++; break;
      }
      case O_ALLOCA: {
        if (!i.w2) regs[i.d] = Val{f->spBase + i.imm, nullptr};
        else {
          u64 n = cop(i.a, i.w) * i.imm;
          u64 a = (t->sp + 32 + 31) & ~31ULL;
          if (n > (8 << 20)) violation("stack", "alloca too large in " + where());
          s->mem.setValid(a, n); flushRange(a, n); t->sp = a + n + 16;
          regs[i.d] = Val{a, nullptr};
        }
        ip++; break;
      }
      case O_BR: takeEdge((Edge*)i.p); break;
      case O_CBR: {
        Val& c = R(i.a);
        bool v = c.e ? decide(c.e) : (c.c & 1);
        takeEdge((Edge*)(v ? i.p : i.p2)); break;
      }
      case O_SWITCH: {
        auto* si = (SwitchInfo*)i.p; Val v = R(i.a);
        if (!v.e) { auto it = si->map.find(v.c); takeEdge(it == si->map.end() ? si->def : it->second); break; }
        u64 m = modelOf(v.e); auto it = si->map.find(m);
        Edge* e;
        if (it != si->map.end()) { // fork: this value, or anything else
          // group by target: all cases sharing this edge target stay together when they are the only difference
          decide(X.cmp(K_EQ, v.e, X.cst(m, i.w))); e = it->second;
        } else {
          Expr* any = X.F;
          for (auto& c : si->cases) any = X.bin(K_OR, any, X.cmp(K_EQ, v.e, X.cst(c.first, i.w)));
          decide(any); e = si->def;
        }
        takeEdge(e); break;
      }
      case O_RET: doReturn((RetInfo*)i.p); break;
      case O_CALL: execCall(i); break;
      case O_UNREACH: violation("unreachable", "unreachable code executed in " + where());
      case O_ZEXT: { Val& x = R(i.a); if (!x.e) regs[i.d] = x; else regs[i.d] = mkv(X.zext(x.e, i.w)); ip++; break; }
      case O_SEXT: { Val& x = R(i.a); if (!x.e) regs[i.d] = Val{(u64)sextw(x.c, i.w2) & maskw(i.w), nullptr}; else regs[i.d] = mkv(X.sext(x.e, i.w)); ip++; break; }
      case O_TRUNC: { Val& x = R(i.a); if (!x.e) regs[i.d] = Val{x.c & maskw(i.w), nullptr}; else regs[i.d] = mkv(X.extract(x.e, 0, i.w)); ip++; break; }
      case O_MOV: regs[i.d] = R(i.a); ip++; break;
      case O_FBIN: {
        Val x = R(i.a), y = R(i.b);
        if (i.w2 == 255) {
          if (x.e || y.e) unsupported("symbolic frem");
          double r = std::fmod(ExprCtx::asF(x.c, i.w), ExprCtx::asF(y.c, i.w)); regs[i.d] = Val{ExprCtx::fromF(r, i.w), nullptr};
        } else regs[i.d] = mkv(X.fop((Kind)i.w2, i.w, ex(x, i.w), ex(y, i.w)));
        ip++; break;
      }
      case O_FCMP: {
        Val x = R(i.a), y = R(i.b);
        if (!x.e && !y.e) regs[i.d] = Val{fcmpC(i.w2, ExprCtx::asF(x.c, i.w), ExprCtx::asF(y.c, i.w)), nullptr};
        else regs[i.d] = mkv(fcmpE(i.w2, ex(x, i.w), ex(y, i.w)));
        ip++; break;
      }
      case O_FCVT: {
        Val x = R(i.a);
        if (!x.e) regs[i.d] = Val{ExprCtx::apply((Kind)i.fl, i.w, 0, x.c, 0, i.w2, 0), nullptr};
        else regs[i.d] = mkv(X.fop((Kind)i.fl, i.w, x.e, nullptr));
        ip++; break;
      }
      case O_RMW: {
        if (schedPoint()) break;
        Val p = R(i.a); u64 a = p.e ? concretize(p.e) : p.c;
        Val old = load(a, i.w), v = R(i.b), nv;
        auto k2 = [&](Kind k) { return mkv(X.bin(k, ex(old, i.w), ex(v, i.w))); };
        auto pick = [&](Kind k) { Expr* c = X.cmp(k, ex(old, i.w), ex(v, i.w)); return mkv(X.ite(c, ex(old, i.w), ex(v, i.w))); };
        switch (i.imm) {
          case AtomicRMWInst::Xchg: nv = v; break;
          case AtomicRMWInst::Add: nv = k2(K_ADD); break;
          case AtomicRMWInst::Sub: nv = k2(K_SUB); break;
          case AtomicRMWInst::And: nv = k2(K_AND); break;
          case AtomicRMWInst::Or: nv = k2(K_OR); break;
          case AtomicRMWInst::Xor: nv = k2(K_XOR); break;
          case AtomicRMWInst::Max: nv = mkv(X.ite(X.cmp(K_SLT, ex(old, i.w), ex(v, i.w)), ex(v, i.w), ex(old, i.w))); break;
          case AtomicRMWInst::UMax: nv = mkv(X.ite(X.cmp(K_ULT, ex(old, i.w), ex(v, i.w)), ex(v, i.w), ex(old, i.w))); break;
          case AtomicRMWInst::Min: nv = pick(K_SLT); break;
          case AtomicRMWInst::UMin: nv = pick(K_ULT); break;
          default: unsupported("atomicrmw op");
        }
        store(a, nv, i.w); regs[i.d] = old;
        if (old.e || nv.e || old.c != nv.c) t->spin = 0;
        if (s->raceOn && s->th.size() > 1) { if (i.fl & FL_ACQ) acquire(a); if (i.fl & FL_REL) release(a); }
        ip++; break;
      }
      case O_CAS: {
        if (schedPoint()) break;
        Val p = R(i.a); u64 a = p.e ? concretize(p.e) : p.c;
        Val old = load(a, i.w), c = R(i.b), n = R(i.c);
        bool eq;
        if (!old.e && !c.e) eq = old.c == c.c; else eq = decide(X.cmp(K_EQ, ex(old, i.w), ex(c, i.w)));
        if (eq) { store(a, n, i.w); t->spin = 0; }
        if (s->raceOn && s->th.size() > 1) { if (i.fl & FL_ACQ) acquire(a); if (eq && (i.fl & FL_REL)) release(a); }
        regs[i.d] = old; regs[i.d + 1] = Val{eq, nullptr};
        ip++; break;
      }
      case O_FENCE: ip++; break;
      case O_LPAD: regs[i.d] = Val{t->excObj, nullptr}; regs[i.d + 1] = Val{t->excSel, nullptr}; ip++; break;
      case O_RESUME: {
        u64 obj = cop(i.a, 64);
        u64 ti = 0; for (auto& e : s->exc) if (e.obj == obj) ti = e.ti;
        popFrame(); unwind(obj, ti, true); break;
      }
      case O_UNSUP: { std::string sI; raw_string_ostream os(sI); i.I->print(os); unsupported("instruction " + sI); }
      default: unsupported("opcode");
    }
    checkRace = false; (void)checkRace; (void)stepsLeft;
  }
}

static pid_t rootPid;

void Machine::explore(State* init) {
  pend.push_back(init);
  auto flushStats = [&]() {
    S->queries += SV.st.queries; S->fastq += SV.st.fast; S->cacheq += SV.st.cacheHits; S->z3calls += SV.st.z3calls; S->fd += SV.st.fd; S->fdx += SV.st.fdx; S->fdbad += SV.st.fdbad; S->unknown += SV.st.unknown; S->z3us += (u64)(SV.st.z3time * 1e6);
    SV.st = SolverStats();
  };
  u64 iter = 0;
  while (!pend.empty()) {
    if (S->stop) break;
    if (nowSec() - tStart > O.timeLimit) { S->ranout = 1; break; }
    if (O.maxPaths && S->paths >= O.maxPaths) { S->ranout = 1; break; }
    // hand half of the queue to an idle worker
    if (O.workers > 1 && pend.size() >= 2 && S->active < O.workers) {
      int a = S->active.fetch_add(1);
      if (a < O.workers) {
        flushStats();
        pid_t pid = fork();
        if (pid == 0) {
          std::vector<State*> mine; for (size_t i = 0; i < pend.size(); i += 2) mine.push_back(pend[i]);
          pend = mine;
        } else if (pid > 0) {
          std::vector<State*> mine; for (size_t i = 1; i < pend.size(); i += 2) mine.push_back(pend[i]);
          for (size_t i = 0; i < pend.size(); i += 2) delete pend[i];
          pend = mine;
        } else S->active--;
      } else S->active--;
    }
    State* st;
    if (O.bfs && (iter++ & 3) == 3) { st = pend.front(); pend.erase(pend.begin()); }
    else { st = pend.back(); pend.pop_back(); }
    if ((int)pend.size() > O.maxStates) { S->ranout = 1; break; }
    bool again = true; bool first = true;
    s = st;
    while (again) {
      again = false;
      try {
        if (first) { first = false; }
        run(st);
      } catch (PathEnd& e) {
        S->steps += batchN; batchN = 0;
        if (e.kind == 10) { 
          try { crashUnwind(); saveCtx(); again = true; } catch (PathEnd& e2) { S->paths++; commitReach(); }
        } else if (e.kind == 0) { S->paths++; commitReach(); if (!replaying) sampleOk(); else { fprintf(stderr, "replay: path completed without violation\n"); } }
        else if (e.kind == 1) { S->paths++; commitReach(); }
        else if (e.kind == 2) S->infeasible++;
        else if (e.kind == 4) { S->limits++; S->ranout = 1; }
        else if (e.kind == 5) {}
      }
      S->steps += 0;
    }
    delete st; s = nullptr; t = nullptr; f = nullptr;
  }
  flushStats();
}

static void parseReplay(Machine& M, const std::string& file) {
  FILE* fp = fopen(file.c_str(), "r"); if (!fp) { perror(file.c_str()); exit(2); }
  char line[200000];
  while (fgets(line, sizeof line, fp)) {
    std::string l = line; while (!l.empty() && (l.back() == '\n')) l.pop_back();
    auto unhex = [](const std::string& h) { std::vector<u8> r; for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back(strtoul(h.substr(i, 2).c_str(), 0, 16)); return r; };
    size_t sp = l.find(' ');
    if (sp == std::string::npos) continue;
    std::string k = l.substr(0, sp), v = l.substr(sp + 1);
    if (k == "in") { size_t q = v.find(' '); M.replayIn.push_back({v.substr(0, q), unhex(q == std::string::npos ? "" : v.substr(q + 1))}); }
    else if (k == "sched") M.replaySched = unhex(v);
    else if (k == "crash") { int e = -1; unsigned long long q = 0; sscanf(v.c_str(), "%d %llu", &e, &q); M.replayCrashes.push_back({e, q}); }
  }
  fclose(fp); M.replaying = true;
}

int main(int argc, char** argv) {
  std::string bc, out, entry = "symx_main";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--time") O.timeLimit = atof(val().c_str());
    else if (a == "--steps") O.stepLimit = strtoull(val().c_str(), 0, 10);
    else if (a == "--workers") O.workers = atoi(val().c_str());
    else if (a == "--preempt") O.preempt = atoi(val().c_str());
    else if (a == "--rlimit") O.rlimit = strtoul(val().c_str(), 0, 10);
    else if (a == "--out") out = val();
    else if (a == "--entry") entry = val();
    else if (a == "--replay") O.replay = val();
    else if (a == "--max-viol") O.maxViol = atoi(val().c_str());
    else if (a == "--max-paths") O.maxPaths = strtoull(val().c_str(), 0, 10);
    else if (a == "--samples") O.nsamples = atoi(val().c_str());
    else if (a == "--dump") O.dump = val();
    else if (a == "--bfs") O.bfs = true;
    else if (a == "--no-race") O.noRace = true;
    else if (a == "-v") O.verbose = true;
    else bc = a;
  }
  setvbuf(stderr, nullptr, _IOLBF, 0);
  tStart = nowSec();
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  S->active = 1; rootPid = getpid();
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  registerBuiltins();
  Program P; SMDiagnostic err;
  P.M = parseIRFile(bc, err, P.ctx);
  if (!P.M) { err.print("symx", errs()); return 2; }
  P.DL = &P.M->getDataLayout();
  for (auto& F : *P.M) { auto* g = P.getF(&F);
    if (!F.isDeclaration()) { if (auto* sp = F.getSubprogram()) { if (sp->getFilename().contains("/rt/") || sp->getFilename().starts_with("rt/")) g->rt = true; } if (F.getName().starts_with("rt_")) g->rt = true; } }
  State* st = new State; st->id = 0;
  st->pc.model = std::make_shared<Model>(Model{{}, X.newEpoch()});
  u64 ga = Program::GBASE;
  auto place = [&](u64 n, u64 al) { al = std::max<u64>(al, 16); ga = (ga + 16 + al - 1) / al * al; u64 r = ga; ga += n + 16; return r; };
  for (auto& G : P.M->globals()) {
    u64 n = G.getValueType()->isSized() ? P.DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 8;
    if (G.isDeclaration()) n = std::max<u64>(n, 256);
    if (G.isThreadLocal()) { P.tls.push_back(&G); u64 al = std::max<u64>(16, G.getAlign().valueOrOne().value()); P.tlsSize = (P.tlsSize + 16 + al - 1) / al * al; P.tlsOff[&G] = P.tlsSize; P.tlsSize += n; P.gaddr[&G] = 0xDEAD000000ULL + P.tlsOff[&G]; continue; }
    u64 a = place(n, G.getAlign().valueOrOne().value());
    P.gaddr[&G] = a; P.gname[a] = G.getName().str();
    st->mem.setValid(a, n);
    { u64 x = a, m = n; while (m) { Page* p = st->mem.getW(x, true); u64 o = x & (PG - 1), k = std::min<u64>(m, PG - o); memset(p->data + o, 0, k); x += k; m -= k; } }
  }
  for (auto& G : P.M->globals()) if (G.hasInitializer() && !G.isThreadLocal()) P.writeInit(st->mem, P.gaddr[&G], G.getInitializer());
  Machine M(P);
  if (!O.dump.empty()) { M.SV.dump = fopen(O.dump.c_str(), "w"); M.SV.dumpLeft = 200; }
  if (!O.replay.empty()) parseReplay(M, O.replay);
  // constructors then the entry point: run through a synthetic list handled by the start builtin
  std::vector<std::pair<u64, Function*>> ctors;
  if (auto* g = P.M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
    for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op.get()); auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()); if (fn) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  Function* mainF = P.M->getFunction(entry);
  if (!mainF) { fprintf(stderr, "symx: no entry %s\n", entry.c_str()); return 2; }
  // build a driver function in IR
  {
    auto* FT = FunctionType::get(Type::getVoidTy(P.ctx), false);
    auto* D = Function::Create(FT, GlobalValue::ExternalLinkage, "__symx_driver", *P.M);
    auto* BB = BasicBlock::Create(P.ctx, "e", D);
    for (auto& c : ctors) CallInst::Create(c.second->getFunctionType(), c.second, {}, "", BB);
    CallInst::Create(mainF->getFunctionType(), mainF, {}, "", BB);
    ReturnInst::Create(P.ctx, BB);
    mainF = D;
  }
  st->th.emplace_back(); st->th[0].sp = Program::STACK + 4096;
  st->th[0].vc.c[0] = 1;
  M.s = st; M.t = &st->th[0]; M.f = nullptr;
  M.initTls(st->th[0]);
  M.pushFrame(P.getF(mainF), nullptr, 0, 0);
  M.saveCtx();
  M.explore(st);
  S->active--;
  if (getpid() != rootPid) _exit(0);
  // wait for helpers
  while (S->active > 0) {
    int stt; pid_t p = waitpid(-1, &stt, 0);
    if (p < 0) break;
    if (WIFSIGNALED(stt) || (WIFEXITED(stt) && WEXITSTATUS(stt))) { fprintf(stderr, "symx: worker died (%d)\n", stt); S->ranout = 1; S->active--; S->unsupported++; if (S->nunsup < 64) { snprintf(S->unsup[S->nunsup], 200, "worker process died status %d", stt); S->nunsup++; } }
  }
  while (waitpid(-1, nullptr, 0) > 0) {}
  // report
  std::string r = "{";
  auto num = [&](const char* k, u64 v) { r += std::string(r.size() > 1 ? "," : "") + "\"" + k + "\":" + std::to_string(v); };
  num("paths", S->paths); num("infeasible", S->infeasible); num("unsupported", S->unsupported); num("limits", S->limits); num("steps", S->steps); num("forks", S->forks);
  num("queries", S->queries); num("fast", S->fastq); num("cached", S->cacheq); num("z3", S->z3calls); num("fd", S->fd); num("fd_crosschecked", S->fdx); num("fd_bad", S->fdbad); num("unknown", S->unknown); num("z3_us", S->z3us); num("asserts", S->asserts); num("assert_queries", S->assertSolver);
  num("sched_points", S->schedPoints); num("sched_forced", S->forced); num("crash_points", S->crashes); num("memchecks", S->memchecks); num("ranout", S->ranout); num("truncated", S->truncated);
  char b[64]; snprintf(b, 64, ",\"wall\":%.2f", nowSec() - tStart); r += b;
  r += ",\"exhaustive\":" + std::string(S->ranout || S->stop || S->unsupported || S->truncated || S->limits ? "false" : "true");
  r += ",\"reach\":{"; for (int i = 0; i < S->nreach; i++) { if (i) r += ","; r += "\""; Machine::jesc(r, S->reach[i]); r += "\":" + std::to_string((u64)S->reachCount[i]); } r += "}";
  r += ",\"unsupported_msgs\":["; for (int i = 0; i < S->nunsup; i++) { if (i) r += ","; r += "\""; Machine::jesc(r, S->unsup[i]); r += "\""; } r += "]";
  r += ",\"violations\":["; for (int i = 0; i < S->nviol; i++) { auto& v = S->viol[i]; if (i) r += ","; r += "{\"kind\":\""; Machine::jesc(r, v.kind); r += "\",\"msg\":\""; Machine::jesc(r, v.msg); r += "\",\"stack\":\""; Machine::jesc(r, v.stack); r += "\",\"input\":" + std::string(v.inputs) + ",\"obs\":\""; Machine::jesc(r, v.obs); r += "\"}"; } r += "]";
  r += ",\"samples\":["; for (int i = 0; i < S->nsamp; i++) { if (i) r += ","; r += S->samp[i]; } r += "]";
  r += ",\"functions\":["; bool first = true; u64 nf = 0;
  for (auto* g : P.funcs) if (S->funcHit[g->id] && !g->F->isDeclaration() && !g->rt && g->name != "__symx_driver") { nf++; if (g->name.find("tkrzw") == std::string::npos) continue; if (!first) r += ","; first = false; r += "\""; Machine::jesc(r, Machine::dem(g->name).substr(0, 160)); r += "\""; }
  r += "],\"nfunctions\":" + std::to_string(nf) + "}\n";
  if (out.empty()) fputs(r.c_str(), stdout); else { FILE* fp = fopen(out.c_str(), "w"); fputs(r.c_str(), fp); fclose(fp); }
  fflush(stdout);
  _exit(S->nviol ? 1 : 0);
}
