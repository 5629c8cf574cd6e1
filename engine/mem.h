// Copy-on-write paged memory with per-byte validity and optional symbolic bytes.
#pragma once
#include "expr.h"
#include <map>
#include <unistd.h>
#include <memory>
typedef uint64_t u64;
typedef uint8_t u8;
typedef uint32_t u32;

enum { PG = 1024, PGB = 10, FAN = 1024, FANB = 10 };

struct Page { uint32_t ref; uint32_t nsym; Expr** sym; u8 valid[PG / 8 + 8]; u8 data[PG]; };
struct Node1 { uint32_t ref; Page* p[FAN]; };
struct Node2 { uint32_t ref; Node1* n[FAN]; };
struct Root { uint32_t ref; Node2* r[FAN]; };

struct MemStats { u64 pages = 0; };
inline MemStats memStats;

inline Page* newPage(u8 fill) {
  Page* p = (Page*)malloc(sizeof(Page));
  p->ref = 1; p->sym = nullptr; p->nsym = 0; memset(p->valid, 0, sizeof p->valid); memset(p->data, fill, PG); memStats.pages++;
  return p;
}
inline void unrefPage(Page* p) { if (--p->ref == 0) { free(p->sym); free(p); memStats.pages--; } }
inline void unrefN1(Node1* n) { if (--n->ref == 0) { for (auto* p : n->p) if (p) unrefPage(p); free(n); } }
inline void unrefN2(Node2* n) { if (--n->ref == 0) { for (auto* p : n->n) if (p) unrefN1(p); free(n); } }
inline void unrefRoot(Root* n) { if (--n->ref == 0) { for (auto* p : n->r) if (p) unrefN2(p); free(n); } }

// address-range aliases (mmap): [lo,hi) maps to backing address base
struct Alias { u64 lo, hi, base; };

struct Mem {
  Root* root;
  std::vector<Alias> aliases;
  static const u64 ALIAS_LO = 0xC000000000ULL, ALIAS_HI = 0xF000000000ULL;
  static Page* zeroPage() { static Page* z = nullptr; if (!z) { z = newPage(0); memset(z->valid, 0xff, sizeof z->valid); z->ref = 1u << 30; } return z; }
  Mem() { root = (Root*)calloc(1, sizeof(Root)); root->ref = 1; }
  Mem(const Mem& o) : root(o.root), aliases(o.aliases) { root->ref++; }
  ~Mem() { unrefRoot(root); }
  Mem& operator=(const Mem&) = delete;
  // translate an address page base through aliases; returns false when unmapped
  bool translate(u64& a) const {
    if (a < ALIAS_LO || a >= ALIAS_HI) return true;
    for (auto& x : aliases) if (a >= x.lo && a < x.hi) { a = a - x.lo + x.base; return true; }
    return false;
  }
  Page* getR(u64 a) const {
    if (!translate(a)) return nullptr;
    u64 pn = a >> PGB;
    if (pn >> 30) return nullptr;
    Node2* n2 = root->r[pn >> 20]; if (!n2) return nullptr;
    Node1* n1 = n2->n[(pn >> 10) & 1023]; if (!n1) return nullptr;
    return n1->p[pn & 1023];
  }
  Page** slot(u64 pn, bool create) {
    if (root->ref > 1) {
      Root* r = (Root*)malloc(sizeof(Root)); memcpy(r, root, sizeof(Root)); r->ref = 1; root->ref--;
      for (auto* p : r->r) if (p) p->ref++;
      root = r;
    }
    Node2*& n2 = root->r[pn >> 20];
    if (!n2) { if (!create) return nullptr; n2 = (Node2*)calloc(1, sizeof(Node2)); n2->ref = 1; }
    else if (n2->ref > 1) { Node2* n = (Node2*)malloc(sizeof(Node2)); memcpy(n, n2, sizeof(Node2)); n->ref = 1; n2->ref--; for (auto* p : n->n) if (p) p->ref++; n2 = n; }
    Node1*& n1 = n2->n[(pn >> 10) & 1023];
    if (!n1) { if (!create) return nullptr; n1 = (Node1*)calloc(1, sizeof(Node1)); n1->ref = 1; }
    else if (n1->ref > 1) { Node1* n = (Node1*)malloc(sizeof(Node1)); memcpy(n, n1, sizeof(Node1)); n->ref = 1; n1->ref--; for (auto* p : n->p) if (p) p->ref++; n1 = n; }
    return &n1->p[pn & 1023];
  }
  Page* getW(u64 a, bool create, u8 fill = 0xCD) {
    if (!translate(a)) return nullptr;
    u64 pn = a >> PGB;
    if (pn >> 30) return nullptr;
    Page** s = slot(pn, create);
    if (!s) return nullptr;
    if (!*s) { if (!create) return nullptr; *s = newPage(fill); return *s; }
    if ((*s)->ref > 1) {
      Page* n = (Page*)malloc(sizeof(Page)); memcpy(n, *s, sizeof(Page)); n->ref = 1; memStats.pages++;
      if ((*s)->sym) { n->sym = (Expr**)malloc(sizeof(Expr*) * PG); memcpy(n->sym, (*s)->sym, sizeof(Expr*) * PG); }
      (*s)->ref--;
      *s = n;
    }
    return *s;
  }
  void setValid(u64 a, u64 len) {
    while (len) {
      Page* p = getW(a, true);
      u64 off = a & (PG - 1), n = std::min<u64>(len, PG - off);
      bits(p->valid, off, n, true);
      a += n; len -= n;
    }
  }
  static void bits(u8* v, u64 off, u64 n, bool on) {
    u64 e = off + n;
    while (off < e && (off & 7)) { if (on) v[off >> 3] |= 1 << (off & 7); else v[off >> 3] &= ~(1 << (off & 7)); off++; }
    if (off < e) { u64 nb = (e - off) >> 3; memset(v + (off >> 3), on ? 0xff : 0, nb); off += nb * 8; }
    while (off < e) { if (on) v[off >> 3] |= 1 << (off & 7); else v[off >> 3] &= ~(1 << (off & 7)); off++; }
  }
  // drop: release whole pages
  void setInvalid(u64 a, u64 len, bool drop) {
    while (len) {
      u64 off = a & (PG - 1), n = std::min<u64>(len, PG - off);
      if (n == PG && drop) {
        Page** s = slot(a >> PGB, false);
        if (s && *s) { unrefPage(*s); *s = nullptr; }
      } else {
        Page* p = getW(a, false);
        if (p) {
          bits(p->valid, off, n, false);
        }
      }
      a += n; len -= n;
    }
  }
  void zeroRange(u64 a, u64 len) {  // make valid and zero
    while (len) {
      u64 off = a & (PG - 1), n = std::min<u64>(len, PG - off);
      if (n == PG) {
        Page** s = slot(a >> PGB, true);
        if (*s) unrefPage(*s);
        *s = zeroPage(); zeroPage()->ref++;
      } else {
        Page* p = getW(a, true, 0);
        memset(p->data + off, 0, n);
        if (p->sym) for (u64 i = 0; i < n; i++) if (p->sym[off + i]) { p->sym[off + i] = nullptr; p->nsym--; }
        bits(p->valid, off, n, true);
      }
      a += n; len -= n;
    }
  }
  static bool isValid(Page* p, u64 off) { return p->valid[off >> 3] >> (off & 7) & 1; }
  bool validByte(u64 a) const { Page* p = getR(a); return p && isValid(p, a & (PG - 1)); }
  bool validRange(u64 a, u64 n) const {
    while (n) {
      Page* p = getR(a); if (!p) return false;
      u64 off = a & (PG - 1), m = std::min<u64>(n, PG - off);
      for (u64 i = off; i < off + m;) {
        if (!(i & 7) && i + 8 <= off + m) { if (p->valid[i >> 3] != 0xff) return false; i += 8; }
        else { if (!isValid(p, i)) return false; i++; }
      }
      a += m; n -= m;
    }
    return true;
  }
};

inline void symArr(Page* p) { if (!p->sym) p->sym = (Expr**)calloc(PG, sizeof(Expr*)); }
