// The process is killed at any store into a file during any operation; reopening must restore what was stored.
// WIN operations run inside the window; the records they touch may hold their old or new value afterwards.
#include "ops.h"
#ifndef NWIN
#define NWIN 1
#endif
#ifndef CO
#define CO 0x7
#endif
#ifndef NBEFORE
#define NBEFORE 0
#endif
#ifndef LOSSY
#define LOSSY 0      // number of records that may be lost (in-place updating: the one being modified)
#endif
#ifndef TORN
#define TORN 0      // also kill the process in the middle of a larger store
#endif
#ifndef RMODES
#define RMODES 0
#endif
static Model pre, post, synced;    // content before and after the operation under way, and at the last synchronization
static bool all_lost = false, in_sync = false;
static std::vector<string> touched; // keys the operation under way works on
static string tk(const string& k) { touched.push_back(k); return k; }
static bool is_touched(const string& k) { for (auto& t : touched) if (same(t, k)) return true; return all_lost; }
static bool opt_same(Model::Rec* a, Model::Rec* b) { return !a == !b && (!a || same(a->v, b->v)); }
static int rmode;
#if KIND == K_HASH || KIND == K_TREE
#define DEFRM , p.restore_mode = rmode
#else
#define DEFRM
#endif
static Status reopen_db(DB* d) {
#if KIND == K_HASH
  HashDBM::TuningParameters p; TUNE; p.restore_mode = rmode; return d->OpenAdvanced(PATH, true, File::OPEN_DEFAULT, p);
#elif KIND == K_TREE
  TreeDBM::TuningParameters p; TUNE; p.restore_mode = rmode; return d->OpenAdvanced(PATH, true, File::OPEN_DEFAULT, p);
#elif KIND == K_SKIP
  SkipDBM::TuningParameters p; TUNE; p.restore_mode = rmode; return d->OpenAdvanced(PATH, true, File::OPEN_DEFAULT, p);
#else
  return open_db(d);
#endif
}
static void sync_done() { synced = post; }
static void one() {
  opfn dummy = nullptr; (void)dummy;
  int sel[16], c = 0; for (int i = 0; i < 16; i++) if (CO >> i & 1) sel[c++] = i;
  pre = post; in_sync = false; touched.clear(); Status s(Status::SUCCESS);
  switch (sel[symx_choice(c, "op")]) {
    case 0: { string k = tk(mkkey()), v = mkval();
#if KIND == K_SKIP
      symx_assume(!post.find(k));
#endif
      post.set(k, v); s = d->Set(k, v); break; }
    case 1: { string k = tk(mkkey()); bool had = post.find(k); post.del(k); s = d->Remove(k); if (!had && is(s, Status::NOT_FOUND_ERROR)) s = Status(Status::SUCCESS); break; }
    case 2: { string k = tk(mkkey()), v = mkval(); auto* x = post.find(k); if (x) x->v += v; else post.set(k, v); s = d->Append(k, v); break; }
    case 3: { string a = tk(mkkey()), b = tk(mkkey()), v = mkval(); post.set(a, v); post.set(b, v); std::map<string_view, string_view> recs{{a, v}, {b, v}}; s = d->SetMulti(recs, true); break; }
    case 4: { string a = tk(mkkey()), b = tk(mkkey()); symx_assume(a != b); auto* x = post.find(a); if (x) { string v = x->v; post.del(a); post.set(b, v); } bool had = pre.find(a); s = d->Rekey(a, b); if (!had && is(s, Status::NOT_FOUND_ERROR)) s = Status(Status::SUCCESS); break; }
    case 5: { in_sync = true; s = d->Synchronize(symx_choice(2, "hard")); if (is(s, Status::SUCCESS)) sync_done(); break; }
    case 6: { in_sync = true; s = d->Rebuild(); if (is(s, Status::SUCCESS)) sync_done(); break; }
    case 7: { all_lost = true; post.r.clear(); s = d->Clear(); all_lost = false; if (KIND <= K_SKIP) sync_done(); break; }
    case 8: { in_sync = true; s = d->Close(); if (is(s, Status::SUCCESS)) { sync_done(); s = open_db(d.get(), true, OPENOPT & ~File::OPEN_TRUNCATE); } break; }
    case 9: { string nv = mkval(); for (auto& r : post.r) { tk(r.k); r.v = nv; }
      struct P : DBM::RecordProcessor { string nv; string_view ProcessFull(string_view, string_view) override { return nv; } } p; p.nv = nv; s = d->ProcessEach(&p, true); break; }
    case 10: { string nv = mkval(), k; auto it = d->MakeIterator(); it->First(); bool rm = symx_choice(2, "rm"); if (is(it->Get(&k), Status::SUCCESS)) { tk(k); if (rm) post.del(k); else post.set(k, nv); s = rm ? it->Remove() : it->Set(nv); } break; }
  }
  CHECK(is(s, Status::SUCCESS), "an operation succeeds");
}
static void window(void*) {
  symx_crash_arm(TORN ? 1 : 2);
  for (int i = 0; i < NWIN; i++) one();
#ifdef CRASH_AT_END
  symx_crash_point();
#endif
  symx_crash_arm(0);
}
static std::vector<std::pair<string, string>> dump(DB* d) {
  std::vector<std::pair<string, string>> r;
  struct P : DBM::RecordProcessor { std::vector<std::pair<string, string>>* r; string_view ProcessFull(string_view k, string_view v) override { r->emplace_back(string(k), string(v)); return NOOP; } } p; p.r = &r;
  OK(d->ProcessEach(&p, false), "ProcessEach succeeds"); return r;
}
extern "C" void symx_main(void) {
  d = make(); OK(open_db(d.get()), "opening a new database succeeds"); prefill(NPRE);
  if (NBEFORE) run_ops(NBEFORE, OPS);
#if KIND == K_HASH || KIND == K_SKIP
  OK(d->SetDatabaseType(7), "SetDatabaseType succeeds"); OK(d->SetOpaqueMetadata("opaque"), "SetOpaqueMetadata succeeds");
#endif
#ifndef NOSYNC
  OK(d->Synchronize(false), "Synchronize succeeds");
#endif
  pre = post = m; 
#ifdef NOSYNC
  synced.r.clear();
#else
  synced = m;
#endif
  static const int rms[] = {RMODES}; rmode = rms[symx_choice(sizeof rms / sizeof *rms, "rmode")];
  int killed = symx_try(window, nullptr);
#ifdef CRASH_AT_END
  killed = 1;
#endif
  if (!killed) { symx_silent_end(); }
  (void)d.release(); rt_fs_process_exit();
  auto dbg = [&] {
#ifdef DBG
  symx_print("file"); char b[48]; for (int h = 0; h < 2; h++) { if (rt_file_size(PATH) < 4096 * h + 48) break; rt_file_get(PATH, h*4096, b, 48); for (int i = 0; i < 48; i++) if (b[i] || symx_bytes_symbolic(b+i,1)) symx_print_int(std::to_string(i+4096*h).c_str(), (unsigned char)b[i]); }
#endif
  };
#ifdef RECRASH
  static DB* half; int dead = symx_try([](void*) { symx_crash_arm(2); auto h = make(); half = h.release(); OK(reopen_db(half), "reopening after the process was killed succeeds"); symx_crash_arm(0); }, nullptr);
  if (!dead) symx_silent_end();
  rt_fs_process_exit();
#endif
  dbg(); auto r = make(); Status os = reopen_db(r.get());
#ifdef DBG
  symx_print(std::string(os.GetMessage()).c_str()); symx_print_int("code", os.GetCode());
#endif
  OK(os, "reopening after the process was killed succeeds");
  CHECK(r->IsOpen() && r->IsWritable(), "the restored database is open and writable");
#if KIND == K_HASH || KIND == K_TREE || KIND == K_SKIP
  CHECK(r->IsHealthy(), "the restored database is healthy");
#endif
#if (KIND == K_HASH || KIND == K_SKIP) && !defined NOSYNC
  CHECK(r->GetDatabaseType() == 7 && same(r->GetOpaqueMetadata().substr(0, 6), "opaque"), "the synchronized metadata survives the crash");
#endif
  auto got = dump(r.get());
#ifdef DBG
  for (auto& g : got) symx_print(g.first.c_str()); symx_print_int("size", rt_file_size(PATH)); { char b[48]; for (int h = 0; h < 2; h++) { if (rt_file_size(PATH) < 4096 * h + 48) break; rt_file_get(PATH, h*4096, b, 48); for (int i = 0; i < 48; i++) if (b[i] || symx_bytes_symbolic(b+i,1)) symx_print_int(std::to_string(i+4096*h).c_str(), (unsigned char)b[i]); } }
#endif
  for (size_t i = 0; i < got.size(); i++) for (size_t j = 0; j < i; j++) CHECK(!same(got[i].first, got[j].first), "a restored record is there once");
  bool exact = false;
#if KIND == K_HASH || KIND == K_TREE
  exact = (rmode & 0xffff) == HashDBM::RESTORE_SYNC;
#endif
#ifdef WEAK
  for (auto& g : got) { bool ok = false; auto *a = pre.find(g.first), *b = post.find(g.first), *c = synced.find(g.first); ok = (a && same(a->v, g.second)) || (b && same(b->v, g.second)) || (c && same(c->v, g.second)); CHECK(ok, "no record appears that was never stored"); }
#else
#ifdef ATSYNC
  // only what was synchronised is kept: exactly the state of the last synchronization, or of the one under way
  auto eq = [&](Model& x) { if (got.size() != x.r.size()) return false; for (auto& g : got) { auto* a = x.find(g.first); if (!a || !same(a->v, g.second)) return false; } return true; };
  CHECK(eq(synced) || (in_sync && eq(pre)) || (all_lost && (got.empty() || eq(pre))), "exactly the state of the last synchronization is restored");
#else
  if (exact) {
    auto eq = [&](Model& x) { if (got.size() != x.r.size()) return false; for (auto& g : got) { auto* a = x.find(g.first); if (!a || !same(a->v, g.second)) return false; } return true; };
    CHECK(eq(synced) || (in_sync && eq(pre)) || (all_lost && got.empty()), "restoring to the last synchronization gives exactly that state");
  } else {
    int lost = 0;
    Model all = pre; for (auto& x : post.r) if (!all.find(x.k)) all.set(x.k, x.v);
    for (auto& x : all.r) {
      auto *a = pre.find(x.k), *b = post.find(x.k); string v; Status s = r->Get(x.k, &v); bool here = is(s, Status::SUCCESS);
      CHECK(here || is(s, Status::NOT_FOUND_ERROR), "Get works on the restored database");
      bool in = false; for (auto& g : got) if (same(g.first, x.k)) { in = true; if (here) CHECK(same(g.second, v), "iteration gives the restored value"); }
      CHECK(in == here, "iteration and Get agree on the restored database");
      if (!is_touched(x.k)) { CHECK(here, "a record not being modified survives the crash"); CHECK(same(v, a->v), "a record not being modified keeps its value"); continue; }
      if (here) CHECK((a && same(v, a->v)) || (b && same(v, b->v)), "the record being modified has its old or new value");
      else if (a && b) { lost++; CHECK(LOSSY || all_lost, "the record being modified is not lost"); }
    }
    CHECK(lost <= LOSSY || all_lost, "at most the record being modified is lost");
    for (auto& g : got) CHECK(all.find(g.first) != nullptr, "no record appears that was never stored");
  }
#endif
#endif
  // the restored database is usable
  string v; OK(r->Set("~new~", "new"), "the restored database can be updated");
#if KIND == K_SKIP
  OK(r->Synchronize(false), "Synchronize succeeds");
#endif
  OK(r->Get("~new~", &v), "Get finds the new record"); CHECK(v == "new", "Get returns the new value");
  OK(r->Remove("~new~"), "Remove succeeds");
#if KIND == K_SKIP
  OK(r->Synchronize(false), "Synchronize succeeds");
#endif
  for (auto& g : got) if (g.first != "~new~") { OK(r->Get(g.first, &v), "restored records stay"); CHECK(same(v, g.second), "restored records keep their values"); }
  OK(r->Close(), "Close succeeds"); r = make(); OK(open_db(r.get(), true, OPENOPT & ~File::OPEN_TRUNCATE), "reopening succeeds");
#if KIND == K_HASH || KIND == K_TREE || KIND == K_SKIP
  CHECK(r->IsHealthy() && !r->IsAutoRestored(), "a restored database that was closed is healthy");
#endif
  auto again = dump(r.get()); size_t n = 0; for (auto& g : got) n += g.first != "~new~"; CHECK(again.size() == n, "the restored records are there after reopening"); OK(r->Close(), "Close succeeds");
  symx_observe_int("records", got.size()); symx_reach("recovered");
}
