// Hash-consed bit-vector expressions, simplifier, evaluator and SMT (Z3) back end.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <z3.h>

enum Kind : uint8_t {
  K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_TABLE,
  // floating point; operands are IEEE bit patterns (width 32 or 64)
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FEQ, K_FLT, K_FLE, K_FUNO, K_SITOFP, K_UITOFP, K_FPTOSI,
  K_FPTOUI, K_FPEXT, K_FPTRUNC, K_FSQRT, K_FRNDZ
};

struct VarSet { std::vector<uint32_t> v; uint32_t id; };

struct Table { int ew; std::vector<uint64_t> e; bool linear; };

struct Expr {
  Kind k; uint8_t w; uint16_t size; uint32_t id;
  uint64_t c;        // const value / var id / extract low bit / table id
  Expr *a, *b, *d;
  const VarSet* vs;
  uint64_t kz;       // known-zero bits
  uint64_t ev_val; uint64_t ev_epoch;
  Z3_ast z;
  uint64_t* tt;      // 256-bit truth table for width-1 single-byte-variable expressions
};

inline uint64_t maskw(int w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline int64_t sextw(uint64_t v, int w) {
  if (w >= 64) return (int64_t)v;
  return (int64_t)(v << (64 - w)) >> (64 - w);
}

struct VarInfo { std::string name; int w; };

struct ExprCtx {
  struct Key { Kind k; uint8_t w; uint64_t c; Expr *a, *b, *d;
    bool operator==(const Key& o) const { return k==o.k&&w==o.w&&c==o.c&&a==o.a&&b==o.b&&d==o.d; } };
  struct KeyHash { size_t operator()(const Key& x) const {
    uint64_t h = x.k * 0x9E3779B97F4A7C15ULL + x.w;
    auto mix=[&](uint64_t v){ h ^= v + 0x9E3779B97F4A7C15ULL + (h<<6) + (h>>2); h *= 0xff51afd7ed558ccdULL; h ^= h>>32; };
    mix(x.c); mix((uint64_t)x.a); mix((uint64_t)x.b); mix((uint64_t)x.d); return h; } };
  std::unordered_map<Key, Expr*, KeyHash> tab;
  std::vector<VarInfo> vars;
  std::vector<Expr*> varExprs;
  std::vector<Table> tables;
  std::unordered_map<std::string, uint32_t> tableIndex;
  struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const {
    uint64_t h = v.size(); for (auto x : v) { h ^= x + 0x9E3779B97F4A7C15ULL + (h<<6) + (h>>2);} return h; } };
  std::unordered_map<std::vector<uint32_t>, VarSet*, VecHash> vsets;
  std::unordered_map<uint64_t, VarSet*> unionMemo;
  const VarSet* emptyVs;
  uint32_t nextId = 1;
  uint64_t epoch = 1;
  Expr* T; Expr* F;
  char* chunk = nullptr; size_t chunkLeft = 0;

  ExprCtx() {
    tab.reserve(1 << 16);
    emptyVs = internVs({});
    T = cst(1, 1); F = cst(0, 1);
  }
  const VarSet* internVs(std::vector<uint32_t> v) {
    auto it = vsets.find(v);
    if (it != vsets.end()) return it->second;
    VarSet* s = new VarSet{v, (uint32_t)vsets.size()};
    vsets.emplace(v, s);
    return s;
  }
  const VarSet* uni(const VarSet* x, const VarSet* y) {
    if (x == y || y->v.empty()) return x;
    if (x->v.empty()) return y;
    uint64_t key = x->id < y->id ? ((uint64_t)x->id << 32 | y->id) : ((uint64_t)y->id << 32 | x->id);
    auto it = unionMemo.find(key);
    if (it != unionMemo.end()) return it->second;
    std::vector<uint32_t> r;
    std::set_union(x->v.begin(), x->v.end(), y->v.begin(), y->v.end(), std::back_inserter(r));
    auto* s = (VarSet*)internVs(r);
    unionMemo[key] = s;
    return s;
  }
  Expr* alloc() {
    if (chunkLeft < sizeof(Expr)) { chunkLeft = 1 << 20; chunk = (char*)malloc(chunkLeft); }
    Expr* e = (Expr*)chunk; chunk += sizeof(Expr); chunkLeft -= sizeof(Expr);
    return e;
  }
  static uint64_t computeKz(Kind k, int w, uint64_t c, Expr* a, Expr* b, Expr* d) {
    uint64_t m = maskw(w);
    switch (k) {
      case K_CONST: return ~c & m;
      case K_AND: return (a->kz | b->kz) & m;
      case K_OR: case K_XOR: return a->kz & b->kz;
      case K_SHL: if (b->k == K_CONST && b->c < 64) return ((a->kz << b->c) | maskw(b->c)) & m; return 0;
      case K_LSHR: if (b->k == K_CONST && b->c < (uint64_t)w) return ((a->kz >> b->c) | (m & ~(m >> b->c))) & m;
        else { // top known zeros kept
          uint64_t r = 0; for (int i = w - 1; i >= 0 && (a->kz >> i & 1); i--) r |= 1ULL << i; return r; }
      case K_ZEXT: return (a->kz | ~maskw(a->w)) & m;
      case K_CONCAT: return ((a->kz << b->w) | b->kz) & m;
      case K_EXTRACT: return (a->kz >> c) & m;
      case K_ITE: return b->kz & d->kz;
      case K_ADD: case K_MUL: {
        uint64_t ma = ~a->kz & maskw(w), mb = ~b->kz & maskw(w);
        unsigned __int128 mx = k == K_ADD ? (unsigned __int128)ma + mb : (unsigned __int128)ma * mb;
        uint64_t r = 0;
        if (mx <= m) { uint64_t x = (uint64_t)mx; int hb = x ? 64 - __builtin_clzll(x) : 0; r = m & ~maskw(hb); }
        // low zero bits
        int tza = 0, tzb = 0; while (tza < w && (a->kz >> tza & 1)) tza++; while (tzb < w && (b->kz >> tzb & 1)) tzb++;
        int tz = k == K_ADD ? std::min(tza, tzb) : std::min(w, tza + tzb);
        return r | (maskw(tz) & m); }
      case K_UREM: if (b->k == K_CONST && b->c) { int hb = 64 - __builtin_clzll(b->c); return m & ~maskw(hb); } return 0;
      case K_UDIV: { uint64_t ma = ~a->kz & m; if (b->k == K_CONST && b->c) ma /= b->c; int hb = ma ? 64 - __builtin_clzll(ma) : 0; return m & ~maskw(hb); }
      default: return 0;
    }
  }
  Expr* mk(Kind k, int w, uint64_t c, Expr* a = nullptr, Expr* b = nullptr, Expr* d = nullptr) {
    Key key{k, (uint8_t)w, c, a, b, d};
    auto it = tab.find(key);
    if (it != tab.end()) return it->second;
    Expr* e = alloc();
    memset(e, 0, sizeof *e);
    e->k = k; e->w = w; e->c = c; e->a = a; e->b = b; e->d = d; e->id = nextId++;
    uint32_t sz = 1 + (a ? a->size : 0) + (b ? b->size : 0) + (d ? d->size : 0);
    e->size = sz > 60000 ? 60000 : sz;
    const VarSet* vs = emptyVs;
    if (k == K_VAR) vs = internVs({(uint32_t)c});
    if (a) vs = uni(vs, a->vs);
    if (b) vs = uni(vs, b->vs);
    if (d) vs = uni(vs, d->vs);
    e->vs = vs;
    if (k == K_TABLE) { uint64_t o = 0; for (auto x : tables[c].e) o |= x; e->kz = ~o & maskw(w); e->size = 1 + a->size; }
    else e->kz = computeKz(k, w, c, a, b, d);
    tab.emplace(key, e);
    if (e->kz == maskw(w) && k != K_CONST) { Expr* z = cst(0, w); tab[key] = z; return z; }
    // Compaction: an expression over one byte variable becomes a 256-entry table.
    if (k != K_TABLE && k != K_CONST && k != K_VAR && e->size > 24 && vs->v.size() == 1 && varExprs[vs->v[0]]->w == 8) {
      Expr* r = compact(e);
      tab[key] = r;
      return r;
    }
    return e;
  }
  Expr* compact(Expr* e) {
    uint32_t v = e->vs->v[0];
    std::vector<uint64_t> t(256);
    bool same = true;
    for (int i = 0; i < 256; i++) {
      singleVar = v; singleVal = i; epoch = newEpoch();
      t[i] = evalSingle(e);
      if (t[i] != t[0]) same = false;
    }
    if (same) return cst(t[0], e->w);
    return mk(K_TABLE, e->w, internTable(std::move(t), e->w), varExprs[v]);
  }
  uint32_t internTable(std::vector<uint64_t> t, int ew) {
    std::string key((char*)t.data(), t.size() * 8);
    key += (char)ew;
    auto it = tableIndex.find(key);
    if (it != tableIndex.end()) return it->second;
    Table tb; tb.ew = ew; tb.linear = false;
    size_t n = t.size();
    if (n >= 4 && (n & (n - 1)) == 0 && t[0] == 0) {
      tb.linear = true;
      for (size_t i = 1; i < n && tb.linear; i++) {
        size_t lb = i & (~i + 1);
        if (t[i] != (t[lb] ^ t[i ^ lb])) tb.linear = false;
      }
    }
    tb.e = std::move(t);
    tables.push_back(std::move(tb));
    tableIndex[key] = tables.size() - 1;
    return tables.size() - 1;
  }
  Expr* cst(uint64_t v, int w) { return mk(K_CONST, w, v & maskw(w)); }
  Expr* newVar(const std::string& name, int w) {
    uint32_t id = vars.size();
    vars.push_back({name, w});
    varExprs.push_back(nullptr);
    Expr* e = mk(K_VAR, w, id);
    varExprs[id] = e;
    return e;
  }
  // ---- evaluation ----
  uint32_t singleVar; uint64_t singleVal;
  uint64_t evalSingle(Expr* e) { return evalGen(e, [&](uint32_t v) { return v == singleVar ? singleVal : 0; }); }
  const std::vector<uint64_t>* model = nullptr;
  uint64_t eval(Expr* e, const std::vector<uint64_t>& m, uint64_t modelEpoch) {
    model = &m; epoch = modelEpoch;
    return evalGen(e, [&](uint32_t v) { return v < model->size() ? (*model)[v] : 0; });
  }
  static double asF(uint64_t v, int w) { if (w == 32) { float f; uint32_t x = v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
  static uint64_t fromF(double d, int w) { if (w == 32) { float f = d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t v; memcpy(&v, &d, 8); return v; }
  static uint64_t apply(Kind k, int w, uint64_t c, uint64_t x, uint64_t y, int aw, int bw) {
    uint64_t m = maskw(w);
    switch (k) {
      case K_ADD: return (x + y) & m;
      case K_SUB: return (x - y) & m;
      case K_MUL: return (x * y) & m;
      case K_UDIV: return y ? x / y : m;
      case K_UREM: return y ? x % y : x;
      case K_SDIV: { int64_t a = sextw(x, w), b = sextw(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (0 - x) & m; return (uint64_t)(a / b) & m; }
      case K_SREM: { int64_t a = sextw(x, w), b = sextw(y, w); if (!b) return x; if (b == -1) return 0; return (uint64_t)(a % b) & m; }
      case K_AND: return x & y;
      case K_OR: return x | y;
      case K_XOR: return x ^ y;
      case K_SHL: return y >= (uint64_t)w ? 0 : (x << y) & m;
      case K_LSHR: return y >= (uint64_t)w ? 0 : x >> y;
      case K_ASHR: { int64_t a = sextw(x, w); return (uint64_t)(a >> (y >= (uint64_t)w ? 63 : y)) & m; }
      case K_EQ: return x == y;
      case K_ULT: return x < y;
      case K_ULE: return x <= y;
      case K_SLT: return sextw(x, aw) < sextw(y, aw);
      case K_SLE: return sextw(x, aw) <= sextw(y, aw);
      case K_CONCAT: return (x << bw) | y;
      case K_EXTRACT: return (x >> c) & m;
      case K_ZEXT: return x;
      case K_SEXT: return (uint64_t)sextw(x, aw) & m;
      case K_FADD: if (w == 32) return fromF((float)asF(x, w) + (float)asF(y, w), w); return fromF(asF(x, w) + asF(y, w), w);
      case K_FSUB: if (w == 32) return fromF((float)asF(x, w) - (float)asF(y, w), w); return fromF(asF(x, w) - asF(y, w), w);
      case K_FMUL: if (w == 32) return fromF((float)asF(x, w) * (float)asF(y, w), w); return fromF(asF(x, w) * asF(y, w), w);
      case K_FDIV: if (w == 32) return fromF((float)asF(x, w) / (float)asF(y, w), w); return fromF(asF(x, w) / asF(y, w), w);
      case K_FEQ: return asF(x, aw) == asF(y, aw);
      case K_FLT: return asF(x, aw) < asF(y, aw);
      case K_FLE: return asF(x, aw) <= asF(y, aw);
      case K_FUNO: return std::isnan(asF(x, aw)) || std::isnan(asF(y, aw));
      case K_SITOFP: if (w == 32) return fromF((float)sextw(x, aw), w); return fromF((double)sextw(x, aw), w);
      case K_UITOFP: if (w == 32) return fromF((float)x, w); return fromF((double)x, w);
      case K_FPTOSI: return (uint64_t)(int64_t)asF(x, aw) & m;
      case K_FPTOUI: { double d = asF(x, aw); return (d >= 9223372036854775808.0 ? (uint64_t)d : (uint64_t)(int64_t)d) & m; }
      case K_FPEXT: return fromF(asF(x, aw), w);
      case K_FPTRUNC: return fromF(asF(x, aw), w);
      case K_FSQRT: return fromF(std::sqrt(asF(x, aw)), w);
      case K_FRNDZ: return fromF(std::trunc(asF(x, aw)), w);
      default: abort();
    }
  }
  template <class F> uint64_t evalGen(Expr* e, F&& var) {
    if (e->k == K_CONST) return e->c;
    if (e->ev_epoch == epoch) return e->ev_val;
    uint64_t r;
    if (e->k == K_VAR) r = var((uint32_t)e->c) & maskw(e->w);
    else if (e->k == K_ITE) r = evalGen(e->a, var) ? evalGen(e->b, var) : evalGen(e->d, var);
    else if (e->k == K_TABLE) { uint64_t i = evalGen(e->a, var); auto& t = tables[e->c].e; r = i < t.size() ? t[i] : 0; }
    else {
      uint64_t x = evalGen(e->a, var), y = e->b ? evalGen(e->b, var) : 0;
      r = apply(e->k, e->w, e->c, x, y, e->a->w, e->b ? e->b->w : 0);
    }
    e->ev_epoch = epoch; e->ev_val = r;
    return r;
  }
  bool isByteSingle(Expr* e) { return e->vs->v.size() == 1 && varExprs[e->vs->v[0]]->w == 8; }
  uint64_t* truth(Expr* e) {  // e: width 1 over a single byte variable
    if (e->tt) return e->tt;
    uint64_t* t = (uint64_t*)calloc(4, 8);
    singleVar = e->vs->v[0];
    for (int i = 0; i < 256; i++) { singleVal = i; epoch = newEpoch(); if (evalSingle(e)) t[i >> 6] |= 1ULL << (i & 63); }
    return e->tt = t;
  }
  uint64_t epochCounter = 1ULL << 40;
  uint64_t newEpoch() { return ++epochCounter; }

  // ---- constructors with simplification ----
  static bool isC(Expr* e) { return e->k == K_CONST; }
  Expr* notE(Expr* a) {
    if (isC(a)) return cst(!a->c, 1);
    if (a->k == K_XOR && isC(a->b) && a->b->c == 1) return a->a;
    if (a->k == K_ULT) return mk(K_ULE, 1, 0, a->b, a->a);
    if (a->k == K_ULE) return mk(K_ULT, 1, 0, a->b, a->a);
    if (a->k == K_SLT) return mk(K_SLE, 1, 0, a->b, a->a);
    if (a->k == K_SLE) return mk(K_SLT, 1, 0, a->b, a->a);
    return mk(K_XOR, 1, 0, a, T);
  }
  Expr* zext(Expr* a, int w) {
    if (a->w == w) return a;
    if (isC(a)) return cst(a->c, w);
    if (a->k == K_ZEXT) return zext(a->a, w);
    if (a->k == K_ITE && (isC(a->b) || isC(a->d)) && a->w > 1) return ite(a->a, zext(a->b, w), zext(a->d, w));
    return mk(K_ZEXT, w, 0, a);
  }
  Expr* sext(Expr* a, int w) {
    if (a->w == w) return a;
    if (isC(a)) return cst(sextw(a->c, a->w), w);
    if (a->kz >> (a->w - 1) & 1) return zext(a, w);
    if (a->k == K_SEXT) return sext(a->a, w);
    if (a->k == K_ITE && isC(a->b) && isC(a->d)) return ite(a->a, sext(a->b, w), sext(a->d, w));
    return mk(K_SEXT, w, 0, a);
  }
  Expr* extract(Expr* a, int lo, int w) {
    if (lo == 0 && w == a->w) return a;
    if (isC(a)) return cst(a->c >> lo, w);
    if (((a->kz >> lo) & maskw(w)) == maskw(w)) return cst(0, w);
    switch (a->k) {
      case K_EXTRACT: return extract(a->a, lo + a->c, w);
      case K_ZEXT:
        if (lo >= a->a->w) return cst(0, w);
        if (lo + w <= a->a->w) return extract(a->a, lo, w);
        return zext(extract(a->a, lo, a->a->w - lo), w);
      case K_SEXT:
        if (lo + w <= a->a->w) return extract(a->a, lo, w);
        if (lo < a->a->w) return sext(extract(a->a, lo, a->a->w - lo), w);
        break;
      case K_CONCAT:
        if (lo + w <= a->b->w) return extract(a->b, lo, w);
        if (lo >= a->b->w) return extract(a->a, lo - a->b->w, w);
        return concat(extract(a->a, 0, lo + w - a->b->w), extract(a->b, lo, a->b->w - lo));
      case K_LSHR:
        if (isC(a->b) && a->b->c < a->w) {
          uint64_t s = a->b->c;
          if (lo + s >= a->w) return cst(0, w);
          if (lo + s + w <= a->w) return extract(a->a, lo + s, w);
          return zext(extract(a->a, lo + s, a->w - lo - s), w);
        }
        break;
      case K_ASHR:
        if (isC(a->b) && a->b->c + lo + w <= a->w) return extract(a->a, lo + a->b->c, w);
        break;
      case K_SHL:
        if (isC(a->b)) {
          uint64_t s = a->b->c;
          if (lo + w <= (int)s) return cst(0, w);
          if (lo >= (int)s) return extract(a->a, lo - s, w);
        }
        break;
      case K_AND: case K_OR: case K_XOR:
        if (isC(a->b) || a->size < 40) return bin(a->k, extract(a->a, lo, w), extract(a->b, lo, w));
        break;
      case K_ADD: case K_SUB: case K_MUL:
        if (lo == 0 && (isC(a->b) || isC(a->a))) return bin(a->k, extract(a->a, 0, w), extract(a->b, 0, w));
        break;
      case K_ITE:
        if (isC(a->b) || isC(a->d) || a->size < 30) return ite(a->a, extract(a->b, lo, w), extract(a->d, lo, w));
        break;
      case K_TABLE: {
        auto& t = tables[a->c].e;
        std::vector<uint64_t> n(t.size());
        bool same = true;
        for (size_t i = 0; i < t.size(); i++) { n[i] = (t[i] >> lo) & maskw(w); if (n[i] != n[0]) same = false; }
        if (same) return cst(n[0], w);
        uint32_t id = internTable(std::move(n), w);
        return mk(K_TABLE, w, id, a->a);
      }
      default: break;
    }
    return mk(K_EXTRACT, w, lo, a);
  }
  Expr* concat(Expr* hi, Expr* lo) {
    int w = hi->w + lo->w;
    if (w > 64) abort();
    if (isC(hi) && isC(lo)) return cst(hi->c << lo->w | lo->c, w);
    if (isC(hi) && hi->c == 0) return zext(lo, w);
    if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w)
      return extract(hi->a, lo->c, w);
    if (hi->k == K_ZEXT && hi->a->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a->a == lo->a && hi->a->c == lo->c + lo->w)
      return zext(extract(lo->a, lo->c, lo->w + hi->a->w), w);
    if (hi->k == K_CONCAT && hi->b->k == K_EXTRACT && lo->k == K_EXTRACT && hi->b->a == lo->a && hi->b->c == lo->c + lo->w)
      return concat(hi->a, extract(lo->a, lo->c, lo->w + hi->b->w));
    return mk(K_CONCAT, w, 0, hi, lo);
  }
  Expr* ite(Expr* c, Expr* a, Expr* b) {
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
      if (isC(a) && isC(b)) return a->c ? c : notE(c);
      if (isC(a)) return a->c ? bin(K_OR, c, b) : bin(K_AND, notE(c), b);
      if (isC(b)) return b->c ? bin(K_OR, notE(c), a) : bin(K_AND, c, a);
    }
    if (c->k == K_XOR && isC(c->b)) return ite(c->a, b, a);
    if (a->k == K_ITE && a->a == c) a = a->b;
    if (b->k == K_ITE && b->a == c) b = b->d;
    if (a == b) return a;
    return mk(K_ITE, a->w, 0, c, a, b);
  }
  Expr* cmp(Kind k, Expr* a, Expr* b) {
    if (isC(a) && isC(b)) return cst(apply(k, 1, 0, a->c, b->c, a->w, b->w), 1);
    if (a == b) return cst(k == K_EQ || k == K_ULE || k == K_SLE, 1);
    int w = a->w;
    if (k == K_EQ) {
      if (isC(a)) std::swap(a, b);
      if (!isC(b) && a->id > b->id) std::swap(a, b);
      if (w == 1 && isC(b)) return b->c ? a : notE(a);
      if (isC(b)) {
        if (b->c & a->kz) return F;
        if (a->k == K_ZEXT) return (b->c >> a->a->w) ? F : cmp(K_EQ, a->a, cst(b->c, a->a->w));
        if (a->k == K_SEXT) { uint64_t lo = b->c & maskw(a->a->w); return ((uint64_t)sextw(lo, a->a->w) & maskw(w)) == b->c ? cmp(K_EQ, a->a, cst(lo, a->a->w)) : F; }
        if (a->k == K_ITE && (isC(a->b) || isC(a->d))) return ite(a->a, cmp(K_EQ, a->b, b), cmp(K_EQ, a->d, b));
        if (a->k == K_CONCAT) return bin(K_AND, cmp(K_EQ, a->a, cst(b->c >> a->b->w, a->a->w)), cmp(K_EQ, a->b, cst(b->c, a->b->w)));
        if (a->k == K_ADD && isC(a->b)) return cmp(K_EQ, a->a, cst(b->c - a->b->c, w));
        if (a->k == K_SUB && isC(a->a)) return cmp(K_EQ, a->b, cst(a->a->c - b->c, w));
        if (a->k == K_SUB && b->c == 0) return cmp(K_EQ, a->a, a->b);
        if (a->k == K_XOR && isC(a->b)) return cmp(K_EQ, a->a, cst(b->c ^ a->b->c, w));
        if (a->k == K_XOR && b->c == 0) return cmp(K_EQ, a->a, a->b);
        if (a->k == K_OR && b->c == 0) return bin(K_AND, cmp(K_EQ, a->a, b), cmp(K_EQ, a->b, b));
        if (a->k == K_SHL && isC(a->b) && a->b->c < (uint64_t)w && !(b->c & maskw(a->b->c)) )
          return cmp(K_EQ, extract(a->a, 0, w - a->b->c), cst(b->c >> a->b->c, w - a->b->c));
      } else {
        if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return cmp(K_EQ, a->a, b->a);
        if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return cmp(K_EQ, a->a, b->a);
        if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w)
          return bin(K_AND, cmp(K_EQ, a->a, b->a), cmp(K_EQ, a->b, b->b));
      }
      return mk(K_EQ, 1, 0, a, b);
    }
    if (k == K_ULT || k == K_ULE) {
      uint64_t amax = ~a->kz & maskw(w), bmax = ~b->kz & maskw(w);
      if (a->k == K_UREM && isC(a->b) && a->b->c) amax = std::min<uint64_t>(amax, a->b->c - 1);
      if (k == K_ULT) {
        if (a->k == K_UREM && a->b == b) return notE(cmp(K_EQ, b, cst(0, w)));
        if (isC(b) && b->c == 0) return F;
        if (isC(b) && amax < b->c) return T;
        if (isC(a) && bmax <= a->c) return F;
        if (isC(b) && b->c == 1) return cmp(K_EQ, a, cst(0, w));
      } else {
        if (isC(a) && a->c == 0) return T;
        if (isC(b) && amax <= b->c) return T;
        if (isC(a) && bmax < a->c) return F;
        if (isC(b) && b->c == 0) return cmp(K_EQ, a, b);
      }
      if (a->k == K_ZEXT && isC(b) && b->c <= maskw(a->a->w)) return cmp(k, a->a, cst(b->c, a->a->w));
      if (b->k == K_ZEXT && isC(a) && a->c <= maskw(b->a->w)) return cmp(k, cst(a->c, b->a->w), b->a);
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return cmp(k, a->a, b->a);
    } else {
      // signed: if both sign bits known zero, use unsigned
      if ((a->kz >> (w - 1) & 1) && (b->kz >> (w - 1) & 1)) return cmp(k == K_SLT ? K_ULT : K_ULE, a, b);
      if (isC(b) && (a->kz >> (w - 1) & 1) && (b->c >> (w - 1) & 1)) return F;
      if (isC(a) && (b->kz >> (w - 1) & 1) && (a->c >> (w - 1) & 1)) return T;
    }
    if (a->k == K_ITE && isC(b) && (isC(a->b) || isC(a->d))) return ite(a->a, cmp(k, a->b, b), cmp(k, a->d, b));
    if (b->k == K_ITE && isC(a) && (isC(b->b) || isC(b->d))) return ite(b->a, cmp(k, a, b->b), cmp(k, a, b->d));
    return mk(k, 1, 0, a, b);
  }
  Expr* bin(Kind k, Expr* a, Expr* b) {
    int w = a->w;
    if (isC(a) && isC(b)) return cst(apply(k, w, 0, a->c, b->c, w, w), w);
    uint64_t m = maskw(w);
    bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR;
    if (comm) { if (isC(a)) std::swap(a, b); else if (!isC(b) && a->id > b->id) std::swap(a, b); }
    switch (k) {
      case K_ADD:
        if (isC(b)) {
          if (b->c == 0) return a;
          if (a->k == K_ADD && isC(a->b)) return bin(K_ADD, a->a, cst(a->b->c + b->c, w));
          if (a->k == K_SUB && isC(a->a)) return bin(K_SUB, cst(a->a->c + b->c, w), a->b);
        }
        if (a->k == K_ADD && isC(a->b) ) return bin(K_ADD, bin(K_ADD, a->a, b), a->b);
        if (b->k == K_ADD && isC(b->b) ) return bin(K_ADD, bin(K_ADD, a, b->a), b->b);
        break;
      case K_SUB:
        if (a == b) return cst(0, w);
        if (isC(b)) return bin(K_ADD, a, cst(0 - b->c, w));
        if (a->k == K_ADD && isC(a->b)) return bin(K_ADD, bin(K_SUB, a->a, b), a->b);
        if (b->k == K_ADD && isC(b->b)) return bin(K_ADD, bin(K_SUB, a, b->a), cst(0 - b->b->c, w));
        break;
      case K_MUL:
        if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a;
          if ((b->c & (b->c - 1)) == 0) return bin(K_SHL, a, cst(__builtin_ctzll(b->c), w)); }
        break;
      case K_UDIV: if (isC(b)) { if (b->c == 1) return a; if (b->c && (b->c & (b->c - 1)) == 0) return bin(K_LSHR, a, cst(__builtin_ctzll(b->c), w)); } 
        if (isC(b) && b->c && (~a->kz & m) < b->c) return cst(0, w);
        break;
      case K_UREM: if (isC(b) && b->c) { if ((b->c & (b->c - 1)) == 0) return bin(K_AND, a, cst(b->c - 1, w)); if ((~a->kz & m) < b->c) return a; } break;
      case K_SDIV: case K_SREM:
        if ((a->kz >> (w - 1) & 1) && (b->kz >> (w - 1) & 1)) return bin(k == K_SDIV ? K_UDIV : K_UREM, a, b);
        break;
      case K_AND:
        if (a == b) return a;
        if (isC(b)) {
          if (b->c == 0) return b;
          if (b->c == m) return a;
          if ((~a->kz & m & ~b->c) == 0) return a;  // mask covers all possibly set bits
          if (a->k == K_AND && isC(a->b)) return bin(K_AND, a->a, cst(a->b->c & b->c, w));
          if ((b->c & (b->c + 1)) == 0) { int n = 64 - __builtin_clzll(b->c); return zext(extract(a, 0, n), w); }
          if (a->k == K_ZEXT) return zext(bin(K_AND, a->a, cst(b->c, a->a->w)), w);
          if (a->k == K_ITE && isC(a->b) && isC(a->d)) return ite(a->a, bin(k, a->b, b), bin(k, a->d, b));
        }
        if (w == 1) { if (a->k == K_XOR && a->b == T && a->a == b) return F; if (b->k == K_XOR && b->b == T && b->a == a) return F; }
        if ((~a->kz & ~b->kz & m) == 0) return cst(0, w);
        break;
      case K_OR:
        if (a == b) return a;
        if (isC(b)) { if (b->c == 0) return a; if (b->c == m) return b; }
        if (w == 1) { if (a->k == K_XOR && a->b == T && a->a == b) return T; if (b->k == K_XOR && b->b == T && b->a == a) return T; }
        {
          // disjoint: try to turn into concat at a byte boundary
          Expr* r = disjointOr(a, b); if (r) return r;
          r = disjointOr(b, a); if (r) return r;
        }
        break;
      case K_XOR:
        if (a == b) return cst(0, w);
        if (isC(b)) { if (b->c == 0) return a; if (a->k == K_XOR && isC(a->b)) return bin(K_XOR, a->a, cst(a->b->c ^ b->c, w)); if (w == 1) return notE(a); }
        if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return zext(bin(K_XOR, a->a, b->a), w);
        break;
      case K_SHL:
        if (isC(b)) { if (b->c == 0) return a; if (b->c >= (uint64_t)w) return cst(0, w);
          if (a->k == K_SHL && isC(a->b)) return bin(K_SHL, a->a, cst(a->b->c + b->c, w));
          if (a->k == K_LSHR && isC(a->b) && a->b->c == b->c) return bin(K_AND, a->a, cst(m << b->c, w));
          if (a->k == K_ZEXT && a->a->w + b->c <= (uint64_t)w) { Expr* cc = concat(a->a, cst(0, b->c)); return zext(cc, w); }
        }
        break;
      case K_LSHR:
        if (isC(b)) { if (b->c == 0) return a; if (b->c >= (uint64_t)w) return cst(0, w);
          return zext(extract(a, b->c, w - b->c), w); }
        break;
      case K_ASHR:
        if (isC(b)) { if (b->c == 0) return a; }
        if (a->kz >> (w - 1) & 1) return bin(K_LSHR, a, b);
        if (isC(b) && b->c < (uint64_t)w) return sext(extract(a, b->c, w - b->c), w);
        break;
      default: break;
    }
    if (isC(b) && a->k == K_ITE && isC(a->b) && isC(a->d)) return ite(a->a, bin(k, a->b, b), bin(k, a->d, b));
    return mk(k, w, 0, a, b);
  }
  // hi has low n bits known zero, lo has all bits >= n known zero -> concat
  Expr* disjointOr(Expr* hi, Expr* lo) {
    int w = hi->w;
    if (isC(hi) ) return nullptr;
    int n = 0; while (n < w && (hi->kz >> n & 1)) n++;
    if (n == 0 || n >= w) return nullptr;
    uint64_t lomax = ~lo->kz & maskw(w);
    int ln = lomax ? 64 - __builtin_clzll(lomax) : 0;
    if (ln > n) return nullptr;
    return concat(extract(hi, n, w - n), extract(lo, 0, n));
  }
  Expr* fop(Kind k, int w, Expr* a, Expr* b) {
    if (k == K_FPTRUNC && a->k == K_FPEXT && a->a->w == w) return a->a;   // exact (but for the quieting of signalling NaNs)
    if (isC(a) && (!b || isC(b))) return cst(apply(k, w, 0, a->c, b ? b->c : 0, a->w, b ? b->w : 0), w);
    return mk(k, w, 0, a, b);
  }
  Expr* table(std::vector<uint64_t> t, int ew, Expr* idx) {
    bool same = true; for (auto x : t) if (x != t[0]) { same = false; break; }
    if (same) return cst(t[0], ew);
    if (isC(idx)) return cst(idx->c < t.size() ? t[idx->c] : 0, ew);
    return mk(K_TABLE, ew, internTable(std::move(t), ew), idx);
  }
  std::string str(Expr* e, int depth = 0) {
    if (depth > 6) return "...";
    static const char* n[] = {"c","v","+","-","*","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","=","ult","ule","slt","sle","ite","concat","extract","zext","sext","table","fadd","fsub","fmul","fdiv","feq","flt","fle","funo","sitofp","uitofp","fptosi","fptoui","fpext","fptrunc","fsqrt","ftrunc"};
    if (e->k == K_CONST) { char b[40]; snprintf(b, 40, "%llu:%d", (unsigned long long)e->c, e->w); return b; }
    if (e->k == K_VAR) return vars[e->c].name;
    std::string s = std::string("(") + n[e->k];
    if (e->k == K_EXTRACT) s += "@" + std::to_string(e->c) + ":" + std::to_string(e->w);
    for (Expr* x : {e->a, e->b, e->d}) if (x) s += " " + str(x, depth + 1);
    return s + ")";
  }
};
