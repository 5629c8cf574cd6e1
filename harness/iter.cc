// Iterators: MODE 1 positions and steps of ordered databases against a sorted map, MODE 2 whole traversals with updates in between,
// MODE 3 jumps of unordered databases.
#include "ops.h"
#ifndef MODE
#define MODE 1
#endif
#ifndef MOVES
#define MOVES 0x1FF
#endif
#ifndef MUTS
#define MUTS 0xF
#endif
static std::unique_ptr<DBM::Iterator> it;
static Model::Rec* lower(string_view k, bool inc) { Model::Rec* b = nullptr; for (auto& r : m.r) if ((inc ? !(r.k > k) : r.k < k) && (!b || b->k < r.k)) b = &r; return b; }
static Model::Rec* upper(string_view k, bool inc) { Model::Rec* b = nullptr; for (auto& r : m.r) if ((inc ? !(r.k < k) : r.k > k) && (!b || b->k > r.k)) b = &r; return b; }
static Model::Rec* edge(bool last) { Model::Rec* b = nullptr; for (auto& r : m.r) if (!b || (last ? b->k < r.k : b->k > r.k)) b = &r; return b; }

// ---- MODE 1 ----
// The iterator stands at pos; when the record there was removed from outside it may have moved on already (pos2).
static bool at = false; static string pos, pos2; static bool end2 = false;
static void stand(Model::Rec* r) { at = r; end2 = false; if (r) pos = pos2 = r->k; }
static void get() {
  string k = "?", v = "?"; Status s = it->Get(&k, &v);
  Model::Rec *a = at ? upper(pos, true) : nullptr, *b = at && !end2 ? upper(pos2, true) : nullptr;
  if (is(s, Status::NOT_FOUND_ERROR)) { CHECK(!a || !b, "the iterator finds the record it stands on"); at = false; return; }
  CHECK(is(s, Status::SUCCESS), "Get of an iterator succeeds or reports the end");
  CHECK(a || b, "an iterator beyond the end finds nothing");
  Model::Rec* r = a && same(a->k, k) ? a : b && same(b->k, k) ? b : nullptr;
  CHECK(r != nullptr, "the iterator stands on the record the sorted map gives");
  if (r) CHECK(same(r->v, v), "the iterator yields the stored value");
  stand(r);
}
static void mutate(int w) {
  if (w == 0 || w == 1) { string k = mkkey(), v = mkval(); OK(d->Set(k, v), "Set succeeds"); m.set(k, v); }
  else if (w == 2) {
    string k = symx_choice(2, "here") && at ? pos : mkkey(); bool had = m.find(k);
    Status s = d->Remove(k); CHECK(is(s, had ? Status::SUCCESS : Status::NOT_FOUND_ERROR), "Remove reports whether the record existed"); m.del(k);
    if (at && !end2 && same(k, pos2)) { auto* r = upper(k, false); if (r) pos2 = r->k; else end2 = true; }
  } else if (w == 3) {   // through the iterator
    bool rm = symx_choice(2, "rm"); string v = mkval(), k = "?", o = "?";
    Model::Rec *a = at ? upper(pos, true) : nullptr, *b = at && !end2 ? upper(pos2, true) : nullptr;
    Status s = rm ? it->Remove(&k, &o) : it->Set(v, &k, &o);
    if (is(s, Status::NOT_FOUND_ERROR)) { CHECK(!a || !b, "the iterator updates the record it stands on"); at = false; return; }
    CHECK(is(s, Status::SUCCESS), "an update through the iterator succeeds");
    Model::Rec* r = a && same(a->k, k) ? a : b && same(b->k, k) ? b : nullptr; CHECK(r != nullptr, "an update through the iterator meets the record the sorted map gives");
    if (!r) return;
    CHECK(same(r->v, o), "an update through the iterator hands out the old value");
    if (rm) { m.del(k); stand(upper(k, true)); if (!at) { at = false; } } else { r->v = v; stand(r); }
  }
}
static void move(int w) {
  string k; if (w >= 2 && w <= 6) k = mkkey();
  switch (w) {
    case 0: OK(it->First(), "First succeeds"); stand(edge(false)); break;
    case 1: OK(it->Last(), "Last succeeds"); stand(edge(true)); break;
    case 2: OK(it->Jump(k), "Jump of an ordered database succeeds"); stand(upper(k, true)); break;
    case 3: case 4: OK(it->JumpLower(k, w == 4), "JumpLower succeeds"); stand(lower(k, w == 4)); break;
    case 5: case 6: OK(it->JumpUpper(k, w == 6), "JumpUpper succeeds"); stand(upper(k, w == 6)); break;
    case 7: case 8: {
      bool nx = w == 7; Status s = nx ? it->Next() : it->Previous();
      if (!at) { CHECK(is(s, Status::NOT_FOUND_ERROR), "stepping from the end reports NOT_FOUND"); return; }
      if (is(s, Status::NOT_FOUND_ERROR)) { CHECK(end2 || !upper(pos, true), "stepping from a record succeeds"); at = false; return; }
      CHECK(is(s, Status::SUCCESS), "stepping from a record succeeds");
      // from a removed record: to the neighbour of the place where it was
      Model::Rec* r = nx ? upper(pos, false) : lower(pos, false);
      bool gone = !m.find(pos);
      if (gone && nx && !end2 && !same(pos2, pos)) { Model::Rec* q = upper(pos2, true); at = r; if (r) { pos = r->k; pos2 = q ? q->k : r->k; } else at = false; end2 = false; }
      else if (gone && !nx) { Model::Rec* q = end2 ? edge(true) : lower(pos2, false); at = r || q; if (r) { pos = r->k; pos2 = q ? q->k : r->k; } else if (q) pos = pos2 = q->k; end2 = false; }
      else stand(r);
      break;
    }
  }
}
static int pick(unsigned mask, const char* nm) { int c = 0, sel[32]; for (int i = 0; i < 32; i++) if (mask >> i & 1) sel[c++] = i; return sel[symx_choice(c, nm)]; }
static void machine() {
  it = d->MakeIterator();
  if (!ORDERED) { CHECK(is(it->Last(), Status::NOT_IMPLEMENTED_ERROR), "Last of an unordered database is not implemented"); return; }
  get();
  for (int i = 0; i < NOPS; i++) {
    move(pick(i ? MOVES : MOVES & 0x7F, "move"));
    if (MUTS && symx_choice(2, "mutate")) mutate(pick(MUTS, "mut"));
    if (symx_choice(2, "get")) get();
  }
  get(); if (!ORDERED) return;
  if (at) { OK(it->Next(), "Next succeeds"); stand(upper(pos, false)); get(); }
}
// ---- MODE 2 ----
struct Seen { string k; int n; bool touched; };
static std::vector<Seen> seen;
static Seen* sk(string_view k) { for (auto& s : seen) if (same(s.k, k)) return &s; return nullptr; }
static void touch(string_view k) { if (auto* s = sk(k)) s->touched = true; }
#ifndef BACK
#define BACK 0
#endif
static void traverse() {
  for (auto& r : m.r) seen.push_back({r.k, 0, false});
  bool back = ORDERED && BACK; it = d->MakeIterator();
  if (back) OK(it->Last(), "Last succeeds"); else OK(it->First(), "First succeeds");
  int budget = NOPS; string last; bool any = false;
  for (int step = 0; step < (int)m.r.size() + NOPS + 4; step++) {
    string k, v; Status s = it->Get(&k, &v); bool advance = true;
    if (s == Status::SUCCESS) {
      auto* r = m.find(k); CHECK(r != nullptr, "a traversal returns no removed record"); if (!r) return;
      CHECK(same(r->v, v), "a traversal returns the current value");
      auto* q = sk(k); if (!q) { seen.push_back({k, 0, true}); q = &seen.back(); }
      q->n++; CHECK(q->n == 1 || (q->touched && ORDERED), "a traversal returns no record twice");
      if (ORDERED && any && !q->touched) CHECK(back ? k < last : last < k, "a traversal of an ordered database keeps the order");
      last = k; any = true;
      if (budget > 0 && symx_choice(2, "mutate")) {
        budget--; symx_reach("mutated");
        int w = pick(MUTS, "mut");
        if (w == 0) { string nk = mkkey(), nv = mkval(); OK(d->Set(nk, nv), "Set succeeds"); if (!m.find(nk)) { touch(nk); if (!sk(nk)) seen.push_back({nk, 0, true}); } m.set(nk, nv); }
        else if (w == 1) { string nv = mkval(); OK(d->Set(k, nv), "Set of the current record succeeds"); m.set(k, nv); }
        else if (w == 2) { string rk = symx_choice(2, "here") ? k : mkkey(); bool had = m.find(rk); Status t = d->Remove(rk); CHECK(is(t, had ? Status::SUCCESS : Status::NOT_FOUND_ERROR), "Remove reports whether the record existed"); m.del(rk); touch(rk); }
        else if (w == 3) { string nv = mkval(); OK(it->Set(nv), "Set of an iterator succeeds"); m.set(k, nv); }
        else if (w == 4) { OK(it->Remove(), "Remove of an iterator succeeds"); m.del(k); touch(k); advance = false; if (back) OK(it->JumpLower(k, false), "JumpLower succeeds"); }
      }
    } else CHECK(is(s, Status::NOT_FOUND_ERROR), "Get of an iterator succeeds or reports NOT_FOUND");
    if (!advance) continue;
    Status t = back ? it->Previous() : it->Next();
    if (!is(t, Status::SUCCESS)) { CHECK(is(t, Status::NOT_FOUND_ERROR), "stepping succeeds or reports NOT_FOUND"); if (s != Status::SUCCESS || !m.find(k)) break; else { CHECK(false, "stepping from an existing record succeeds"); } }
  }
  for (auto& s : seen) if (!s.touched) CHECK(s.n == 1, "a traversal returns every untouched record once");
}
// ---- MODE 3 ----
static void jumps() {
  it = d->MakeIterator();
  for (int i = 0; i < NOPS; i++) {
    string k = mkkey(), gk = "?", gv = "?"; auto* x = m.find(k);
    Status s = it->Jump(k);
    CHECK(is(s, x ? Status::SUCCESS : Status::NOT_FOUND_ERROR), "Jump of an unordered database finds exactly the stored keys");
    s = it->Get(&gk, &gv);
    if (x) { CHECK(is(s, Status::SUCCESS) && same(gk, k) && same(gv, x->v), "after a jump the iterator stands on the record"); }
    else CHECK(is(s, Status::NOT_FOUND_ERROR), "after a failed jump the iterator stands nowhere");
    if (x) { // the rest of the traversal repeats nothing
      std::vector<string> ks{k};
      for (int j = 0; j <= (int)m.r.size(); j++) {
        if (!is(it->Next(), Status::SUCCESS)) break;
        if (!is(it->Get(&gk, &gv), Status::SUCCESS)) break;
        for (auto& o : ks) CHECK(!same(o, gk), "a traversal from a jump returns no record twice");
        auto* y = m.find(gk); CHECK(y && same(y->v, gv), "a traversal from a jump returns stored records");
        ks.push_back(gk);
      }
    }
    if (symx_choice(2, "rm")) { Status t = d->Remove(k); CHECK(is(t, x ? Status::SUCCESS : Status::NOT_FOUND_ERROR), "Remove"); m.del(k); }
  }
}
#ifndef BACK
#define BACK 0
#endif
extern "C" void symx_main(void) {
  d = make(); OK(open_db(d.get()), "opening a new database succeeds");
  prefill(NPRE);
#if KIND == K_SKIP
  OK(d->Synchronize(false), "Synchronize succeeds");
#endif
  if (MODE == 1) machine(); else if (MODE == 2) traverse(); else jumps();
  it.reset();
#if KIND != K_SKIP
  audit(d.get(), m);
#endif
  symx_observe_int("count", m.r.size());
  OK(d->Close(), "Close succeeds"); symx_reach("end");
}
