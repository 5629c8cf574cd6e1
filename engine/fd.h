// Exact finite-domain decision procedure for conjunctions of constraints that relate at most two byte variables each:
// arc consistency on explicit 256x256 relations plus complete backtracking.  Anything else is left to Z3.
#pragma once
#include "expr.h"
#include <map>

struct Bits { uint64_t b[4]; };
struct Rel { uint32_t x, y; Bits fx[256], fy[256]; bool unary; Bits u; };   // x < y; fx[a] = allowed y for x = a

struct FD {
  ExprCtx& X;
  std::unordered_map<Expr*, Rel*> rels;
  uint64_t nodes = 0;
  FD(ExprCtx& x) : X(x) {}
  typedef std::shared_ptr<std::vector<uint64_t>> VecP;
  struct VE { VecP v; int kind; };   // 0 constant, 1 x only (256), 2 y only (256), 3 both (65536: a*256+b)
  std::unordered_map<Expr*, VE> memo; int big = 0; uint32_t vx, vy;
  bool vec(Expr* e, VE& o) {
    auto it = memo.find(e); if (it != memo.end()) { o = it->second; return true; }
    if (e->k == K_CONST) { o = {std::make_shared<std::vector<uint64_t>>(1, e->c), 0}; memo[e] = o; return true; }
    if (e->k == K_VAR) {
      if (e->w != 8) return false;
      o = {std::make_shared<std::vector<uint64_t>>(256), e->c == vx ? 1 : 2};
      for (int i = 0; i < 256; i++) (*o.v)[i] = i;
      memo[e] = o; return true;
    }
    Expr* ch[3] = {e->a, e->b, e->d}; VE in[3]; int kind = 0;
    for (int i = 0; i < 3; i++) { if (!ch[i]) { in[i] = {nullptr, 0}; continue; } if (!vec(ch[i], in[i])) return false; kind |= in[i].kind; }
    size_t n = kind == 0 ? 1 : kind == 3 ? 65536 : 256;
    if (kind == 3 && ++big > 60) return false;
    auto out = std::make_shared<std::vector<uint64_t>>(n);
    auto at = [&](int i, size_t p) -> uint64_t { auto& q = in[i]; if (!q.v) return 0; return q.kind == 0 ? (*q.v)[0] : q.kind == 3 || kind != 3 ? (*q.v)[p] : q.kind == 1 ? (*q.v)[p >> 8] : (*q.v)[p & 255]; };
    const std::vector<uint64_t>* tb = e->k == K_TABLE ? &X.tables[e->c].e : nullptr;
    int aw = e->a->w, bw = e->b ? e->b->w : 0;
    for (size_t p = 0; p < n; p++) {
      uint64_t r;
      if (tb) { uint64_t i = at(0, p); r = i < tb->size() ? (*tb)[i] : 0; }
      else if (e->k == K_ITE) r = at(0, p) ? at(1, p) : at(2, p);
      else r = ExprCtx::apply(e->k, e->w, e->c, at(0, p), at(1, p), aw, bw);
      (*out)[p] = r;
    }
    o = {out, kind}; memo[e] = o; return true;
  }
  Rel* rel(Expr* e) {
    auto it = rels.find(e); if (it != rels.end()) return it->second;
    Rel* r = nullptr;
    auto& vs = e->vs->v;
    if (vs.size() >= 1 && vs.size() <= 2) {
      bool ok = true; for (auto v : vs) if (X.varExprs[v]->w != 8) ok = false;
      if (ok) {
        if (vs.size() == 1) { r = (Rel*)calloc(1, sizeof(Rel)); r->unary = true; r->x = r->y = vs[0]; memcpy(&r->u, X.truth(e), 32); }
        else {
          vx = vs[0]; vy = vs[1]; if (vx > vy) std::swap(vx, vy);
          memo.clear(); big = 0; VE o;
          if (vec(e, o)) {
            r = (Rel*)calloc(1, sizeof(Rel)); r->x = vx; r->y = vy;
            for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) {
              uint64_t v = o.kind == 0 ? (*o.v)[0] : o.kind == 1 ? (*o.v)[a] : o.kind == 2 ? (*o.v)[b] : (*o.v)[a << 8 | b];
              if (v & 1) { r->fx[a].b[b >> 6] |= 1ULL << (b & 63); r->fy[b].b[a >> 6] |= 1ULL << (a & 63); }
            }
          }
          memo.clear();
        }
      }
    }
    rels[e] = r; return r;
  }
  void trim() { if (rels.size() > 4000) { for (auto& p : rels) free(p.second); rels.clear(); } }   // only between problems: Prob holds Rel pointers
  static bool empty(const Bits& d) { return !(d.b[0] | d.b[1] | d.b[2] | d.b[3]); }
  static int count(const Bits& d) { int n = 0; for (int i = 0; i < 4; i++) n += __builtin_popcountll(d.b[i]); return n; }
  static bool meets(const Bits& a, const Bits& b) { return (a.b[0] & b.b[0]) | (a.b[1] & b.b[1]) | (a.b[2] & b.b[2]) | (a.b[3] & b.b[3]); }
  struct Prob { std::vector<uint32_t> vars; std::vector<Bits> dom; std::vector<Rel*> rs; std::vector<std::pair<int, int>> ix; std::vector<std::vector<std::vector<Rel*>>> clauses; };
  // filter d[i] by support in d[j]; -1 wiped out, 1 changed
  static int revise(Bits& di, const Bits& dj, const Bits* f) {
    int ch = 0;
    for (int w = 0; w < 4; w++) { uint64_t m = di.b[w]; while (m) { int a = __builtin_ctzll(m); m &= m - 1; if (!meets(f[w * 64 + a], dj)) { di.b[w] &= ~(1ULL << a); ch = 1; } } }
    if (ch && empty(di)) return -1;
    return ch;
  }
  bool ac(std::vector<Bits>& d, const std::vector<Rel*>& rs, const std::vector<std::pair<int, int>>& ix) {
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t k = 0; k < rs.size(); k++) {
        Rel* r = rs[k]; int i = ix[k].first, j = ix[k].second;
        if (r->unary) { Bits n; bool c = false; for (int w = 0; w < 4; w++) { n.b[w] = d[i].b[w] & r->u.b[w]; if (n.b[w] != d[i].b[w]) c = true; } if (c) { d[i] = n; ch = true; if (empty(n)) return false; } continue; }
        int a = revise(d[i], d[j], r->fx); if (a < 0) return false;
        int b = revise(d[j], d[i], r->fy); if (b < 0) return false;
        if (a || b) ch = true;
      }
    }
    return true;
  }
  int budget;
  int search(Prob& p, std::vector<Bits> d, size_t ci, std::vector<Rel*> rs, std::vector<std::pair<int, int>> ix, std::vector<Bits>& sol) {
    if (--budget < 0) return -1;
    nodes++;
    if (!ac(d, rs, ix)) return 0;
    if (ci < p.clauses.size()) {
      int res = 0;
      for (auto& alt : p.clauses[ci]) {
        auto rs2 = rs; auto ix2 = ix;
        for (auto* r : alt) { rs2.push_back(r); ix2.push_back({idx(p, r->x), idx(p, r->y)}); }
        int q = search(p, d, ci + 1, rs2, ix2, sol);
        if (q == 1) return 1;
        if (q < 0) res = -1;
      }
      return res;
    }
    int best = -1, bn = 1000;
    for (size_t i = 0; i < d.size(); i++) { int n = count(d[i]); if (n > 1 && n < bn) { bn = n; best = i; } }
    if (best < 0) { sol = d; return 1; }
    Bits dom = d[best];
    for (int w = 0; w < 4; w++) {
      uint64_t m = dom.b[w];
      while (m) {
        int a = __builtin_ctzll(m); m &= m - 1;
        auto d2 = d; d2[best] = Bits{{0, 0, 0, 0}}; d2[best].b[w] = 1ULL << a;
        int q = search(p, d2, ci, rs, ix, sol);
        if (q) return q;
      }
    }
    return 0;
  }
  static int idx(Prob& p, uint32_t v) { return std::lower_bound(p.vars.begin(), p.vars.end(), v) - p.vars.begin(); }
  void conj(Expr* c, bool neg, std::vector<Expr*>& o) {
    if (c->w == 1 && c->k == (neg ? K_OR : K_AND)) { conj(c->a, neg, o); conj(c->b, neg, o); return; }
    if (c->k == K_XOR && c->b->k == K_CONST && c->b->c == 1) { conj(c->a, !neg, o); return; }
    o.push_back(neg ? X.notE(c) : c);
  }
  void disj(Expr* c, bool neg, std::vector<Expr*>& o) {
    if (c->w == 1 && c->k == (neg ? K_AND : K_OR)) { disj(c->a, neg, o); disj(c->b, neg, o); return; }
    if (c->k == K_XOR && c->b->k == K_CONST && c->b->c == 1) { disj(c->a, !neg, o); return; }
    o.push_back(neg ? X.notE(c) : c);
  }
  // 1 sat, 0 unsat, -1 not decided here
  int solve(const std::vector<Expr*>& slice, Expr* cond, const std::unordered_set<uint32_t>& vs, const std::map<uint32_t, struct Dom>& dom, std::vector<std::pair<uint32_t, uint64_t>>& m);
};
