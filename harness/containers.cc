// Utility containers against reference models.
#include "h.h"
#include "tkrzw_containers.h"
#ifndef KDOM
#define KDOM 3
#endif
#ifndef NOPS
#define NOPS 4
#endif
struct Id { size_t operator()(int x) const { return (size_t)x; } };
typedef LinkedHashMap<int, int, Id> M;
typedef std::vector<std::pair<int, int>> V;
static int key() { uint32_t k = 0; symx_make_symbolic(&k, 1, "key"); symx_assume(k < KDOM); return symx_concretize(k); }
static int val() { uint32_t v = 0; symx_make_symbolic(&v, 2, "val"); return v; }
static int at(V& v, int k) { for (size_t i = 0; i < v.size(); i++) if (v[i].first == k) return i; return -1; }
static void shift(V& v, int i, int mode) { auto x = v[i]; if (mode) { v.erase(v.begin() + i); if (mode == 1) v.insert(v.begin(), x); else v.push_back(x); } }
static void check(M& m, V& v) {
  CHECK(m.size() == v.size() && m.empty() == v.empty(), "the map has the model's size");
  size_t n = 0; for (auto it = m.begin(); it != m.end(); ++it, n++) { CHECK(n < v.size() && it->key == v[n].first && it->value == v[n].second, "forward order and values"); }
  CHECK(n == v.size(), "forward traversal is complete");
  auto it = m.end(); for (size_t i = 0; i < v.size(); i++) { --it; CHECK(it->key == v[v.size() - 1 - i].first, "backward order"); }
  for (int k = 0; k < KDOM; k++) { auto f = m.find(k); int i = at(v, k); CHECK((f == m.end()) == (i < 0), "find knows the keys"); if (i >= 0) CHECK(f->value == v[i].second, "find gives the value"); }
  if (!v.empty()) CHECK(m.front().key == v[0].first && m.back().key == v.back().first, "front and back");
}
static void lhm() {
  M m(2), d(1); V vm, vd; int n = 0;
  for (int s = 0; s < NOPS; s++) {
    bool second = s + 1 < NOPS && symx_choice(2, "map"); M& x = second ? d : m; V& v = second ? vd : vm; M& y = second ? m : d; V& w = second ? vm : vd;
    int k = key(), i = at(v, k);
    switch (symx_choice(s ? 9 : 3, "op")) {
      case 0: { bool ow = symx_choice(2, "overwrite"); int mode = symx_choice(3, "mode"), u = val(); auto* r = x.Set(k, u, ow, (M::MoveMode)mode);
        if (i < 0) { if (mode == 1) v.insert(v.begin(), {k, u}); else v.push_back({k, u}); CHECK(r->value == u, "Set gives the record"); }
        else if (ow) { v[i].second = u; shift(v, i, mode); CHECK(r->value == u, "Set gives the record"); } else CHECK(r->value == v[i].second, "Set gives the existing record"); break; }
      case 1: { int u = val(); x[k] = u; if (i < 0) v.push_back({k, u}); else v[i].second = u; break; }
      case 2: { M::Record r(k, val()); auto p = x.insert(r); CHECK(p.second == (i < 0) && p.first->key == k, "insert tells whether it inserted"); if (i < 0) v.push_back({k, r.value}); break; }
      case 3: { int mode = symx_choice(3, "mode"); auto* r = x.Get(k, (M::MoveMode)mode); CHECK(!!r == (i >= 0), "Get finds the record"); if (i >= 0) { CHECK(r->value == v[i].second, "Get gives the value"); shift(v, i, mode); } else CHECK(x.GetSimple(k, 77) == 77, "GetSimple gives the default"); break; }
      case 4: { bool r = symx_choice(2, "erase") ? x.erase(k) == 1 : x.Remove(k); CHECK(r == (i >= 0), "Remove tells whether it removed"); if (i >= 0) v.erase(v.begin() + i); break; }
      case 5: { int mode = symx_choice(3, "mode"); auto* r = x.Migrate(k, &y, (M::MoveMode)mode); CHECK(!!r == (i >= 0), "Migrate finds the record");
        if (i >= 0) { auto e = v[i]; v.erase(v.begin() + i); int j = at(w, k); if (j < 0) { if (mode == 1) w.insert(w.begin(), e); else w.push_back(e); } else { w[j] = e; shift(w, j, mode); } CHECK(r->value == e.second, "Migrate gives the record"); } break; }
      case 6: x.clear(); v.clear(); break;
      case 7: x.rehash(1 + symx_choice(3, "buckets")); break;
      case 8: { int u = x.GetSimple(k, 77, M::MOVE_CURRENT); CHECK(u == (i < 0 ? 77 : v[i].second), "GetSimple"); break; }
    }
    check(m, vm); check(d, vd);
  }
  symx_reach("nops");
}
struct Obj { int v; explicit Obj(int v) : v(v) {} };
static void lru() {
  LRUCache<Obj> c(2); V v; std::vector<std::pair<int, std::shared_ptr<Obj>>> held;
  for (int s = 0; s < NOPS; s++) {
    int k = key(), i = at(v, k);
    switch (symx_choice(6, "op")) {
      case 0: { int u = val(); auto p = c.Add(k, new Obj(u)); if (i < 0) { v.push_back({k, u}); CHECK(p->v == u, "Add gives the object"); } else CHECK(p->v == v[i].second, "Add gives the existing object"); break; }
      case 1: { auto p = c.Get(k); CHECK(!!p == (i >= 0), "Get finds the object"); if (p) { CHECK(p->v == v[i].second, "Get gives the object"); shift(v, i, 2); } break; }
      case 2: c.Remove(k); if (i >= 0) v.erase(v.begin() + i); break;
      case 3: { int64_t id = -1; auto p = c.RemoveLRU(&id); CHECK(!!p == !v.empty(), "RemoveLRU of an empty cache gives nothing"); if (p) { CHECK(id == v[0].first && p->v == v[0].second, "RemoveLRU takes the least recently used"); v.erase(v.begin()); held.emplace_back(id, p); } break; }
      case 4: if (!held.empty()) { auto h = held.back(); held.pop_back(); if (at(v, h.first) < 0) { int hv = h.second->v; c.GiveBack(h.first, std::move(h.second)); v.push_back({h.first, hv}); } } break;
      case 5: c.Clear(); v.clear(); break;
    }
    CHECK(c.Size() == v.size() && c.IsEmpty() == v.empty() && c.IsSaturated() == (v.size() > 2), "size and saturation");
    auto it = c.MakeIterator(); for (auto& e : v) { int64_t id = -1; auto p = it.Get(&id); CHECK(p && id == e.first && p->v == e.second, "the cache iterates from the least recent"); it.Next(); } CHECK(!it.Get(nullptr), "the iterator ends");
  }
  symx_reach("nops");
}
static void dlru() {
  DoubleLRUCache<Obj> c(1, 2); V hot, warm; std::vector<std::pair<int, std::shared_ptr<Obj>>> held;
  for (int s = 0; s < NOPS; s++) {
    int k = key(), h = at(hot, k), w = at(warm, k);
    switch (symx_choice(6, "op")) {
      case 0: { int u = val(); auto p = c.Add(k, new Obj(u)); if (h >= 0) CHECK(p->v == hot[h].second, "Add gives the existing object"); else if (w >= 0) CHECK(p->v == warm[w].second, "Add gives the existing object"); else { warm.push_back({k, u}); CHECK(p->v == u, "Add gives the object"); } break; }
      case 1: { bool pro = symx_choice(2, "promotion"); if (pro && h < 0 && w < 0) break; auto p = c.Get(k, pro); CHECK(!!p == (h >= 0 || w >= 0), "Get finds the object"); if (!p) break;
        if (h >= 0) { CHECK(p->v == hot[h].second, "Get gives the object"); shift(hot, h, 2); } else { CHECK(p->v == warm[w].second, "Get gives the object"); if (pro) { auto e = warm[w]; warm.erase(warm.begin() + w); if (hot.size() >= 1) { warm.push_back(hot[0]); hot.erase(hot.begin()); } hot.push_back(e); } else shift(warm, w, 2); } break; }
      case 2: c.Remove(k); if (h >= 0) hot.erase(hot.begin() + h); else if (w >= 0) warm.erase(warm.begin() + w); break;
      case 3: { int64_t id = -1; auto p = c.RemoveLRU(&id); V& v = warm.empty() ? hot : warm; CHECK(!!p == !v.empty(), "RemoveLRU of an empty cache gives nothing"); if (p) { CHECK(id == v[0].first && p->v == v[0].second, "RemoveLRU takes the least recently used of the warm layer first"); v.erase(v.begin()); held.emplace_back(id, p); } break; }
      case 4: if (!held.empty()) { auto x = held.back(); held.pop_back(); if (at(hot, x.first) < 0 && at(warm, x.first) < 0) { int xv = x.second->v; c.GiveBack(x.first, std::move(x.second)); warm.push_back({x.first, xv}); } } break;
      case 5: c.Clear(); hot.clear(); warm.clear(); break;
    }
    CHECK(c.Size() == hot.size() + warm.size() && c.IsEmpty() == (hot.empty() && warm.empty()) && c.IsSaturated() == (warm.size() > 2), "size and saturation");
    V all(hot); all.insert(all.end(), warm.begin(), warm.end());
    auto it = c.MakeIterator(); for (auto& e : all) { int64_t id = -1; auto p = it.Get(&id); CHECK(p && id == e.first && p->v == e.second, "the cache iterates the hot layer, then the warm one"); it.Next(); } CHECK(!it.Get(nullptr), "the iterator ends");
  }
  symx_reach("nops");
}
static void aset() {
  AtomicSet<int> a; bool in[KDOM] = {};
  for (int s = 0; s < NOPS; s++) {
    int k = key(); bool any = false; int least = 0; for (int i = KDOM - 1; i >= 0; i--) if (in[i]) { any = true; least = i; }
    switch (symx_choice(6, "op")) {
      case 0: CHECK(a.Insert(k) == !in[k], "Insert tells whether it is new"); in[k] = true; break;
      case 1: { int t = k; CHECK(a.Insert(std::move(t)) == !in[k], "Insert tells whether it is new"); in[k] = true; break; }
      case 2: CHECK(a.Remove(k) == in[k], "Remove tells whether it was there"); in[k] = false; break;
      case 3: CHECK(a.Pop() == (any ? least : 0), "Pop takes an element"); if (any) in[least] = false; break;
      case 4: a.Clear(); for (auto& x : in) x = false; break;
      case 5: CHECK(a.Check(k) == in[k], "Check"); break;
    }
    any = false; for (bool x : in) any |= x; CHECK(a.IsEmpty() == !any, "IsEmpty"); for (int i = 0; i < KDOM; i++) CHECK(a.Check(i) == in[i], "membership");
  }
  symx_reach("nops");
}
static void heap() {
  size_t cap = 1 + symx_choice(3, "capacity"), n = symx_choice(NOPS + 1, "n"); std::vector<std::pair<int, int>> h, all;
  for (size_t i = 0; i < n; i++) { signed char c; symx_make_symbolic(&c, 1, "cost"); int p = symx_choice(2, "payload"); HeapByCostAdd((int)c, p, cap, &h); all.push_back({c, p}); }
  HeapByCostFinish(&h); size_t want = n < cap ? n : cap; CHECK(h.size() == want, "the heap keeps up to its capacity");
  for (size_t i = 1; i < h.size(); i++) CHECK(!(h[i] < h[i - 1]), "the heap is finished in ascending order");
  for (size_t i = 1; i < all.size(); i++) for (size_t j = i; j > 0 && all[j] < all[j - 1]; j--) std::swap(all[j], all[j - 1]);
  for (size_t i = 0; i < want; i++) CHECK(h[i] == all[i], "the heap keeps the least elements");
  symx_reach("nops");
}
extern "C" void symx_main() { PART(); symx_reach("end"); }
