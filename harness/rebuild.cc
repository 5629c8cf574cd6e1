// Rebuilding, possibly with other parameters, between arbitrary operations: the records, the type and the opaque metadata stay.
#include "ops.h"
#ifndef NBEFORE
#define NBEFORE 1
#endif
#ifndef NAFTER
#define NAFTER 1
#endif
#ifndef OPS2
#define OPS2 OPS
#endif
#ifdef AGAIN
#define SKIPB symx_choice(2, "skip_broken")
#else
#define SKIPB false
#endif
#ifndef RETUNE
#define RETUNE
#endif
#define FILEDB (KIND == K_HASH || KIND == K_TREE || KIND == K_SKIP)
#if KIND == K_TREE
#define OPAQUE 10
#else
#define OPAQUE 64
#endif
static void rebuild() {
  bool tobe = false; OK(d->ShouldBeRebuilt(&tobe), "ShouldBeRebuilt succeeds");
#if KIND == K_HASH
  HashDBM::TuningParameters p; RETUNE; OK(d->RebuildAdvanced(p, SKIPB), "rebuilding succeeds");
#elif KIND == K_TREE
  TreeDBM::TuningParameters p; RETUNE; OK(d->RebuildAdvanced(p, SKIPB), "rebuilding succeeds");
#elif KIND == K_SKIP
  SkipDBM::TuningParameters p; RETUNE; OK(d->RebuildAdvanced(p, SKIPB), "rebuilding succeeds");
#elif KIND == K_TINY
  OK(d->RebuildAdvanced(symx_choice(4, "buckets") * 3 - 1), "rebuilding succeeds");
#elif KIND == K_CACHE
  OK(d->RebuildAdvanced(symx_choice(2, "cap") ? 5000 : -1, symx_choice(2, "mem") ? 20000000 : -1), "rebuilding succeeds");
#elif KIND == K_POLY || KIND == K_SHARD
  std::map<string, string> p; RETUNE; OK(d->RebuildAdvanced(p), "rebuilding succeeds");
#else
  OK(d->Rebuild(), "rebuilding succeeds");
#endif
  OK(d->ShouldBeRebuilt(&tobe), "ShouldBeRebuilt succeeds");
  CHECK(d->IsOpen() && d->IsWritable() && d->IsHealthy(), "a rebuilt database is open and healthy");
}
#if KIND == K_SKIP
static void work(int n, unsigned mask) {
  for (int i = 0; i < n; i++) {
    string k = mkkey();
    if (symx_choice(2, "op")) { string v = mkval(); OK(d->Set(k, v), "Set succeeds"); m.set(k, v); }
    else { Status s = d->Remove(k); CHECK(is(s, Status::SUCCESS) || is(s, Status::NOT_FOUND_ERROR), "Remove succeeds or finds nothing"); m.del(k); OK(d->Synchronize(false), "Synchronize succeeds"); }
    OK(d->SynchronizeAdvanced(false, nullptr, SkipDBM::ReduceToLast), "Synchronize succeeds");
  }
}
#else
static void work(int n, unsigned mask) { run_ops(n, mask); }
#endif
extern "C" void symx_main(void) {
  d = make(); OK(open_db(d.get()), "opening a new database succeeds"); prefill(NPRE);
#if KIND == K_SKIP
  OK(d->Synchronize(false), "Synchronize succeeds");
#endif
  string op; int type = 0;
#if FILEDB
  op = string(OPAQUE, 'o'); symx_make_symbolic(&op[0], 1, "opaque"); symx_make_symbolic(&op[OPAQUE - 1], 1, "opaque"); type = symx_int(0, 255, "type");
  OK(d->SetOpaqueMetadata(op), "setting the opaque metadata succeeds"); OK(d->SetDatabaseType(type), "setting the type succeeds");
#endif
  work(NBEFORE, OPS);
  int files = -1; (void)files;
  rebuild(); audit(d.get(), m);
#ifndef NOITER
  audit_iter(d.get(), m);
#endif
  work(NAFTER, OPS2);
#ifdef AGAIN
  rebuild();
#endif
  audit(d.get(), m);
#if FILEDB
  CHECK(same(d->GetOpaqueMetadata().substr(0, OPAQUE), op) && d->GetDatabaseType() == type, "rebuilding keeps the type and the opaque metadata");
#endif
  OK(d->Close(), "Close succeeds");
  auto r = make(); OK(r->Open(PATH, true), "reopening succeeds"); CHECK(r->IsHealthy(), "the reopened database is healthy"); audit(r.get(), m);
#if FILEDB
  CHECK(same(r->GetOpaqueMetadata().substr(0, OPAQUE), op) && r->GetDatabaseType() == type, "rebuilding keeps the type and the opaque metadata");
#endif
  OK(r->Close(), "Close succeeds");
  std::vector<string> ch; OK(ReadDirectory("/tmp", &ch), "ReadDirectory succeeds"); int extra = 0; for (auto& c : ch) extra += c.find(".tmp") != string::npos;
  CHECK(extra == 0, "rebuilding leaves no temporary file behind");
  symx_observe_int("count", m.r.size()); symx_reach("end");
}
