// Satisfiability queries over path conditions: per-byte domains, slicing, caching, Z3.
#pragma once
#include "expr.h"
#include <memory>
#include <map>
#include <time.h>
#include <unistd.h>
#include "fd.h"

inline double nowSec() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct SolverStats { uint64_t queries = 0, fast = 0, fd = 0, fdx = 0, fdbad = 0, cacheHits = 0, z3calls = 0, unknown = 0; double z3time = 0; };

struct Dom { uint64_t b[4]; };

inline int FD::solve(const std::vector<Expr*>& slice, Expr* cond, const std::unordered_set<uint32_t>& vs, const std::map<uint32_t, Dom>& dom, std::vector<std::pair<uint32_t, uint64_t>>& m) {
  if (vs.size() > 24) return -1;
  trim();
  Prob p; p.vars.assign(vs.begin(), vs.end()); std::sort(p.vars.begin(), p.vars.end());
  for (auto v : p.vars) if (X.varExprs[v]->w != 8) return -1;
  p.dom.resize(p.vars.size());
  for (size_t i = 0; i < p.vars.size(); i++) { auto it = dom.find(p.vars[i]); if (it == dom.end()) p.dom[i] = Bits{{~0ULL, ~0ULL, ~0ULL, ~0ULL}}; else memcpy(&p.dom[i], &it->second, 32); }
  std::vector<Expr*> atoms;
  for (auto* e : slice) conj(e, false, atoms);
  conj(cond, false, atoms);
  for (auto* e : atoms) {
    if (e->k == K_CONST) { if (!e->c) return 0; continue; }
    if (e->vs->v.size() <= 2) { Rel* r = rel(e); if (!r) return -1; p.rs.push_back(r); p.ix.push_back({idx(p, r->x), idx(p, r->y)}); continue; }
    std::vector<Expr*> ds; disj(e, false, ds);
    if (ds.size() < 2 || ds.size() > 12) return -1;
    std::vector<std::vector<Rel*>> alts;
    for (auto* q : ds) {
      std::vector<Expr*> cs; conj(q, false, cs); std::vector<Rel*> a; bool dead = false;
      for (auto* c : cs) { if (c->k == K_CONST) { if (!c->c) dead = true; continue; } Rel* r = c->vs->v.size() <= 2 ? rel(c) : nullptr; if (!r) return -1; a.push_back(r); }
      if (!dead) alts.push_back(a);
    }
    p.clauses.push_back(alts);
  }
  budget = 3000; std::vector<Bits> sol;
  int r = search(p, p.dom, 0, p.rs, p.ix, sol);
  if (r == 1) for (size_t i = 0; i < p.vars.size(); i++) { int a = 0; for (int w = 0; w < 4; w++) if (sol[i].b[w]) { a = w * 64 + __builtin_ctzll(sol[i].b[w]); break; } m.push_back({p.vars[i], (uint64_t)a}); }
  return r;
}

struct Model { std::vector<uint64_t> v; uint64_t epoch; };
typedef std::shared_ptr<const Model> ModelP;

struct PathCond {
  std::vector<Expr*> cs;
  std::unordered_set<Expr*> set;
  std::map<uint32_t, Dom> dom;     // byte variables restricted by single-variable constraints
  ModelP model;
};

struct Solver {
  ExprCtx& X;
  Z3_context z; Z3_solver s; Z3_sort bvs[65]; Z3_sort fp32, fp64; Z3_ast rne, rtz;
  SolverStats st;
  unsigned rlimit = 0;
  FILE* dump = nullptr; int dumpLeft = 0;
  struct CacheEnt { int r; std::vector<std::pair<uint32_t, uint64_t>> m; };
  struct VH { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = v.size(); for (auto x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ULL + (h >> 29); return h; } };
  std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> cache;

  FD fd; bool useFd = getenv("SYMX_NOFD") == nullptr; int xcheck = 200; uint64_t xevery = 50, xphase = 0;
  Solver(ExprCtx& x) : X(x), fd(x) {
    Z3_config cfg = Z3_mk_config();
    z = Z3_mk_context(cfg);
    Z3_set_error_handler(z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); });
    for (int i = 1; i <= 64; i++) { bvs[i] = Z3_mk_bv_sort(z, i); }
    fp32 = Z3_mk_fpa_sort_32(z); fp64 = Z3_mk_fpa_sort_64(z);
    rne = Z3_mk_fpa_rne(z); rtz = Z3_mk_fpa_rtz(z);
    Z3_inc_ref(z, rne); Z3_inc_ref(z, rtz);
    s = nullptr;
    // a dedicated bit-vector solver
    Z3_symbol sym = Z3_mk_string_symbol(z, "QF_BV");
    s = Z3_mk_solver_for_logic(z, sym);
    Z3_solver_inc_ref(z, s);
    sf = Z3_mk_simple_solver(z);
    Z3_solver_inc_ref(z, sf);
  }
  Z3_solver sf; bool simple = getenv("SYMX_SIMPLE") != nullptr;
  void setRlimit(unsigned r) {
    rlimit = r;
    for (Z3_solver q : {s, sf}) {
      Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p);
      Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "rlimit"), r);
      Z3_solver_set_params(z, q, p); Z3_params_dec_ref(z, p);
    }
  }
  Z3_ast boolOf(Z3_ast bv1) { return Z3_mk_eq(z, bv1, Z3_mk_unsigned_int64(z, 1, bvs[1])); }
  Z3_ast bvOf(Z3_ast b) { return Z3_mk_ite(z, b, Z3_mk_unsigned_int64(z, 1, bvs[1]), Z3_mk_unsigned_int64(z, 0, bvs[1])); }
  bool hasFp = false;
  Z3_ast fpOf(Expr* e) { return Z3_mk_fpa_to_fp_bv(z, tr(e), e->w == 32 ? fp32 : fp64); }
  Z3_ast bvFp(Z3_ast f, int w) { return Z3_mk_fpa_to_ieee_bv(z, f); }
  Z3_ast mux(const Table& t, Expr* idx, Z3_ast iz, size_t lo, size_t n, int bit) {
    // entries [lo, lo+n) selected by bits bit-1..0
    bool same = true;
    for (size_t i = 1; i < n && same; i++) if (at(t, lo + i) != at(t, lo)) same = false;
    if (same) return Z3_mk_unsigned_int64(z, at(t, lo), bvs[t.ew]);
    Z3_ast c = Z3_mk_eq(z, Z3_mk_extract(z, bit - 1, bit - 1, iz), Z3_mk_unsigned_int64(z, 1, bvs[1]));
    Z3_ast hi = mux(t, idx, iz, lo + n / 2, n / 2, bit - 1);
    Z3_ast l = mux(t, idx, iz, lo, n / 2, bit - 1);
    return Z3_mk_ite(z, c, hi, l);
  }
  static uint64_t at(const Table& t, size_t i) { return i < t.e.size() ? t.e[i] : 0; }
  Z3_ast tr(Expr* e) {
    if (e->z) return e->z;
    Z3_ast r;
    switch (e->k) {
      case K_CONST: r = Z3_mk_unsigned_int64(z, e->c, bvs[e->w]); break;
      case K_VAR: { char b[24]; snprintf(b, 24, "v%u", (unsigned)e->c); r = Z3_mk_const(z, Z3_mk_string_symbol(z, b), bvs[e->w]); break; }
      case K_ADD: r = Z3_mk_bvadd(z, tr(e->a), tr(e->b)); break;
      case K_SUB: r = Z3_mk_bvsub(z, tr(e->a), tr(e->b)); break;
      case K_MUL: r = Z3_mk_bvmul(z, tr(e->a), tr(e->b)); break;
      case K_UDIV: r = Z3_mk_bvudiv(z, tr(e->a), tr(e->b)); break;
      case K_SDIV: r = Z3_mk_bvsdiv(z, tr(e->a), tr(e->b)); break;
      case K_UREM: r = Z3_mk_bvurem(z, tr(e->a), tr(e->b)); break;
      case K_SREM: r = Z3_mk_bvsrem(z, tr(e->a), tr(e->b)); break;
      case K_AND: r = Z3_mk_bvand(z, tr(e->a), tr(e->b)); break;
      case K_OR: r = Z3_mk_bvor(z, tr(e->a), tr(e->b)); break;
      case K_XOR: r = Z3_mk_bvxor(z, tr(e->a), tr(e->b)); break;
      case K_SHL: r = Z3_mk_bvshl(z, tr(e->a), tr(e->b)); break;
      case K_LSHR: r = Z3_mk_bvlshr(z, tr(e->a), tr(e->b)); break;
      case K_ASHR: r = Z3_mk_bvashr(z, tr(e->a), tr(e->b)); break;
      case K_EQ: r = bvOf(Z3_mk_eq(z, tr(e->a), tr(e->b))); break;
      case K_ULT: r = bvOf(Z3_mk_bvult(z, tr(e->a), tr(e->b))); break;
      case K_ULE: r = bvOf(Z3_mk_bvule(z, tr(e->a), tr(e->b))); break;
      case K_SLT: r = bvOf(Z3_mk_bvslt(z, tr(e->a), tr(e->b))); break;
      case K_SLE: r = bvOf(Z3_mk_bvsle(z, tr(e->a), tr(e->b))); break;
      case K_ITE: r = Z3_mk_ite(z, boolOf(tr(e->a)), tr(e->b), tr(e->d)); break;
      case K_CONCAT: r = Z3_mk_concat(z, tr(e->a), tr(e->b)); break;
      case K_EXTRACT: r = Z3_mk_extract(z, e->c + e->w - 1, e->c, tr(e->a)); break;
      case K_ZEXT: r = Z3_mk_zero_ext(z, e->w - e->a->w, tr(e->a)); break;
      case K_SEXT: r = Z3_mk_sign_ext(z, e->w - e->a->w, tr(e->a)); break;
      case K_TABLE: {
        const Table& t = X.tables[e->c];
        Z3_ast iz = tr(e->a);
        size_t n = 1; int bits = 0;
        while (n < t.e.size()) { n <<= 1; bits++; }
        if (t.linear) {
          r = Z3_mk_unsigned_int64(z, 0, bvs[t.ew]);
          for (int i = 0; i < bits; i++) {
            Z3_ast bit = Z3_mk_extract(z, i, i, iz);
            Z3_ast m = t.ew == 1 ? bit : Z3_mk_sign_ext(z, t.ew - 1, bit);
            r = Z3_mk_bvxor(z, r, Z3_mk_bvand(z, m, Z3_mk_unsigned_int64(z, t.e[1ULL << i], bvs[t.ew])));
          }
        } else {
          r = mux(t, e->a, iz, 0, n, bits);
        }
        break;
      }
      case K_FADD: r = bvFp(Z3_mk_fpa_add(z, rne, fpOf(e->a), fpOf(e->b)), e->w); hasFp = true; break;
      case K_FSUB: r = bvFp(Z3_mk_fpa_sub(z, rne, fpOf(e->a), fpOf(e->b)), e->w); hasFp = true; break;
      case K_FMUL: r = bvFp(Z3_mk_fpa_mul(z, rne, fpOf(e->a), fpOf(e->b)), e->w); hasFp = true; break;
      case K_FDIV: r = bvFp(Z3_mk_fpa_div(z, rne, fpOf(e->a), fpOf(e->b)), e->w); hasFp = true; break;
      case K_FEQ: r = bvOf(Z3_mk_fpa_eq(z, fpOf(e->a), fpOf(e->b))); hasFp = true; break;
      case K_FLT: r = bvOf(Z3_mk_fpa_lt(z, fpOf(e->a), fpOf(e->b))); hasFp = true; break;
      case K_FLE: r = bvOf(Z3_mk_fpa_leq(z, fpOf(e->a), fpOf(e->b))); hasFp = true; break;
      case K_FUNO: { Z3_ast p[2] = {Z3_mk_fpa_is_nan(z, fpOf(e->a)), Z3_mk_fpa_is_nan(z, fpOf(e->b))}; r = bvOf(Z3_mk_or(z, 2, p)); hasFp = true; break; }
      case K_SITOFP: r = bvFp(Z3_mk_fpa_to_fp_signed(z, rne, tr(e->a), e->w == 32 ? fp32 : fp64), e->w); hasFp = true; break;
      case K_UITOFP: r = bvFp(Z3_mk_fpa_to_fp_unsigned(z, rne, tr(e->a), e->w == 32 ? fp32 : fp64), e->w); hasFp = true; break;
      case K_FPTOSI: r = Z3_mk_fpa_to_sbv(z, rtz, fpOf(e->a), e->w); hasFp = true; break;
      case K_FPTOUI: r = Z3_mk_fpa_to_ubv(z, rtz, fpOf(e->a), e->w); hasFp = true; break;
      case K_FPEXT: case K_FPTRUNC: r = bvFp(Z3_mk_fpa_to_fp_float(z, rne, fpOf(e->a), e->w == 32 ? fp32 : fp64), e->w); hasFp = true; break;
      case K_FSQRT: r = bvFp(Z3_mk_fpa_sqrt(z, rne, fpOf(e->a)), e->w); hasFp = true; break;
      case K_FRNDZ: r = bvFp(Z3_mk_fpa_round_to_integral(z, rtz, fpOf(e->a)), e->w); hasFp = true; break;
      default: abort();
    }
    Z3_inc_ref(z, r);
    e->z = r;
    return r;
  }
  static bool domEmpty(const Dom& d) { return !(d.b[0] | d.b[1] | d.b[2] | d.b[3]); }
  static bool intersects(const VarSet* a, const std::unordered_set<uint32_t>& s) { for (auto v : a->v) if (s.count(v)) return true; return false; }
  uint64_t evalM(Expr* e, const ModelP& m) { return X.eval(e, m->v, m->epoch); }
  ModelP newModel(const ModelP& old, const std::vector<std::pair<uint32_t, uint64_t>>& upd) {
    auto m = std::make_shared<Model>();
    if (old) m->v = old->v;
    for (auto& p : upd) { if (m->v.size() <= p.first) m->v.resize(p.first + 1); m->v[p.first] = p.second; }
    m->epoch = X.newEpoch();
    return m;
  }
  // 1 sat (model set), 0 unsat, -1 unknown.  PC itself is satisfied by pc.model.
  // disjuncts of cond (through de Morgan), so that each is decided on its own
  void disjuncts(Expr* c, bool neg, std::vector<Expr*>& o) {
    if (o.size() < 4096 && c->w == 1) {
      if (c->k == (neg ? K_AND : K_OR)) { disjuncts(c->a, neg, o); disjuncts(c->b, neg, o); return; }
      if (c->k == K_XOR && c->b->k == K_CONST && c->b->c == 1) { disjuncts(c->a, !neg, o); return; }
    }
    o.push_back(neg ? X.notE(c) : c);
  }
  int check(const PathCond& pc, Expr* cond, ModelP* out) {
    if (cond->k == K_OR || (cond->k == K_XOR && cond->a->k == K_AND)) {
      std::vector<Expr*> ds; disjuncts(cond, false, ds);
      if (ds.size() > 1) {
        if (evalM(cond, pc.model)) { st.queries++; st.fast++; if (out) *out = pc.model; return 1; }
        int r = 0;
        for (auto* d : ds) { int q = check(pc, d, out); if (q == 1) return 1; if (q < 0) r = -1; }
        return r;
      }
    }
    st.queries++;
    if (cond->k == K_CONST) { if (cond->c) { if (out) *out = pc.model; return 1; } return 0; }
    if (pc.set.count(cond)) { if (out) *out = pc.model; st.fast++; return 1; }
    if (evalM(cond, pc.model)) { if (out) *out = pc.model; st.fast++; return 1; }
    if (pc.set.count(X.notE(cond))) { st.fast++; return 0; }
    bool single = X.isByteSingle(cond);
    Dom d{};
    if (single) {
      uint32_t v = cond->vs->v[0];
      uint64_t* t = X.truth(cond);
      auto it = pc.dom.find(v);
      for (int i = 0; i < 4; i++) d.b[i] = t[i] & (it == pc.dom.end() ? ~0ULL : it->second.b[i]);
      if (domEmpty(d)) { st.fast++; return 0; }
    }
    // slice
    std::unordered_set<uint32_t> vs(cond->vs->v.begin(), cond->vs->v.end());
    std::vector<Expr*> slice; std::vector<char> in(pc.cs.size(), 0);
    bool ch = true;
    bool multi = !single;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < pc.cs.size(); i++) {
        if (in[i]) continue;
        if (intersects(pc.cs[i]->vs, vs)) {
          in[i] = 1; slice.push_back(pc.cs[i]);
          if (pc.cs[i]->vs->v.size() > 1) multi = true;
          for (auto v : pc.cs[i]->vs->v) if (vs.insert(v).second) ch = true;
        }
      }
    }
    if (!multi) {  // only single-byte constraints: the domain is exact
      st.fast++;
      for (int i = 0; i < 256; i++) if (d.b[i >> 6] >> (i & 63) & 1) { if (out) *out = newModel(pc.model, {{cond->vs->v[0], (uint64_t)i}}); return 1; }
      return 0;
    }
    std::vector<uint32_t> key; for (auto* e : slice) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.push_back(cond->id);
    auto it = cache.find(key);
    if (it != cache.end()) {
      st.cacheHits++;
      if (it->second.r == 1 && out) *out = newModel(pc.model, it->second.m);
      return it->second.r;
    }
    CacheEnt ce;
    ce.r = useFd ? fd.solve(slice, cond, vs, pc.dom, ce.m) : -1;
    if (ce.r == 1) {  // the assignment must satisfy every constraint under the plain evaluator
      auto mm = newModel(nullptr, ce.m);
      bool ok = evalM(cond, mm); for (auto* e : slice) if (!evalM(e, mm)) ok = false;
      if (!ok) { fprintf(stderr, "symx: finite-domain model check failed\n"); st.fdbad++; ce.r = -1; }
    }
    if (ce.r < 0) { ce.m.clear(); ce.r = z3check(slice, cond, vs, ce.m); }
    else {
      st.fd++;
      if (xcheck > 0 && (++xphase % xevery == 3)) {  // cross-check against Z3
        xcheck--; st.fdx++;
        std::vector<std::pair<uint32_t, uint64_t>> m2; int r2 = z3check(slice, cond, vs, m2);
        if (r2 >= 0 && r2 != ce.r) { fprintf(stderr, "symx: finite-domain verdict %d but Z3 says %d\n", ce.r, r2); st.fdbad++; ce.r = r2; ce.m = m2; }
      }
    }
    if (ce.r == 1 && out) *out = newModel(pc.model, ce.m);
    int r = ce.r;
    if (cache.size() > 200000) cache.clear();
    cache.emplace(std::move(key), std::move(ce));
    return r;
  }
  int z3check(const std::vector<Expr*>& slice, Expr* cond, const std::unordered_set<uint32_t>& vs, std::vector<std::pair<uint32_t, uint64_t>>& m) {
    double t0 = nowSec();
    st.z3calls++;
    bool fp0 = hasFp;
    std::vector<Z3_ast> as;
    for (auto* e : slice) as.push_back(boolOf(tr(e)));
    as.push_back(boolOf(tr(cond)));
    Z3_solver q = (hasFp || fp0 || simple) ? sf : s;
    Z3_solver_reset(z, q);
    for (auto a : as) Z3_solver_assert(z, q, a);
    Z3_lbool r = Z3_solver_check(z, q);
    if (dump && dumpLeft > 0) {
      dumpLeft--;
      fprintf(dump, "(push)\n%s(check-sat)\n(pop)\n; expect %s\n", Z3_solver_to_string(z, q), r == Z3_L_TRUE ? "sat" : r == Z3_L_FALSE ? "unsat" : "unknown");
      fflush(dump);
    }
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == 1) {
      Z3_model md = Z3_solver_get_model(z, q);
      Z3_model_inc_ref(z, md);
      for (auto v : vs) {
        Z3_ast val; uint64_t u = 0;
        if (Z3_model_eval(z, md, tr(X.varExprs[v]), true, &val)) Z3_get_numeral_uint64(z, val, (uint64_t*)&u);
        m.push_back({v, u});
      }
      Z3_model_dec_ref(z, md);
      // sanity: the model must satisfy everything under our own evaluator
      auto mm = newModel(nullptr, m);
      bool ok = evalM(cond, mm);
      for (auto* e : slice) if (!evalM(e, mm)) ok = false;
      if (!ok) {
        if (getenv("SYMX_DEBUG")) {
          for (auto* e : slice) if (!evalM(e, mm)) fprintf(stderr, "bad: %s\n", X.str(e).c_str());
          if (!evalM(cond, mm)) fprintf(stderr, "bad cond: %s\n", X.str(cond).c_str());
        }
        fprintf(stderr, "symx: model check failed (encoding bug)\n"); st.unknown++; res = -1; m.clear();
      }
    } else if (res == -1) st.unknown++;
    st.z3time += nowSec() - t0;
    return res;
  }
  // add cond to the path condition; model must satisfy it
  void add(PathCond& pc, Expr* cond, const ModelP& m) {
    pc.model = m;
    if (cond->k == K_CONST) return;
    if (cond->k == K_AND && cond->w == 1) { add(pc, cond->a, m); add(pc, cond->b, m); return; }
    if (!pc.set.insert(cond).second) return;
    if (X.isByteSingle(cond)) {
      uint32_t v = cond->vs->v[0];
      uint64_t* t = X.truth(cond);
      auto it = pc.dom.find(v);
      if (it == pc.dom.end()) { Dom d; for (int i = 0; i < 4; i++) d.b[i] = t[i]; pc.dom[v] = d; }
      else {
        bool changed = false;
        for (int i = 0; i < 4; i++) { uint64_t n = it->second.b[i] & t[i]; if (n != it->second.b[i]) changed = true; it->second.b[i] = n; }
        if (!changed) return;  // implied by earlier constraints
      }
    }
    pc.cs.push_back(cond);
  }
};
