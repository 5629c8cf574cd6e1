// Creates the database under test: KIND selects the class, TUNE is a statement list over `p`.
#pragma once
#include "h.h"
#define K_HASH 1
#define K_TREE 2
#define K_SKIP 3
#define K_TINY 4
#define K_BABY 5
#define K_CACHE 6
#define K_STDHASH 7
#define K_STDTREE 8
#define K_POLY 9
#define K_SHARD 10
#ifndef TUNE
#define TUNE
#endif
#ifndef FILECLS
#define FILECLS MemoryMapParallelFile
#endif
#ifndef OPENOPT
#define OPENOPT File::OPEN_DEFAULT
#endif
#if KIND == K_HASH
#include "tkrzw_dbm_hash.h"
typedef HashDBM DB;
static const bool ORDERED = false;
static const char* PATH = "/tmp/a.tkh";
static std::unique_ptr<DB> make() { return std::make_unique<HashDBM>(std::make_unique<FILECLS>()); }
static Status open_db(DB* d, bool w = true, int o = OPENOPT) { HashDBM::TuningParameters p; TUNE; return d->OpenAdvanced(PATH, w, o, p); }
#elif KIND == K_TREE
#include "tkrzw_dbm_tree.h"
typedef TreeDBM DB;
static const bool ORDERED = true;
static const char* PATH = "/tmp/a.tkt";
static std::unique_ptr<DB> make() { return std::make_unique<TreeDBM>(std::make_unique<FILECLS>()); }
static Status open_db(DB* d, bool w = true, int o = OPENOPT) { TreeDBM::TuningParameters p; TUNE; return d->OpenAdvanced(PATH, w, o, p); }
#elif KIND == K_SKIP
#include "tkrzw_dbm_skip.h"
typedef SkipDBM DB;
static const bool ORDERED = true;
static const char* PATH = "/tmp/a.tks";
static std::unique_ptr<DB> make() { return std::make_unique<SkipDBM>(std::make_unique<FILECLS>()); }
static Status open_db(DB* d, bool w = true, int o = OPENOPT) { SkipDBM::TuningParameters p; TUNE; return d->OpenAdvanced(PATH, w, o, p); }
#elif KIND == K_TINY
#include "tkrzw_dbm_tiny.h"
typedef TinyDBM DB;
static const bool ORDERED = false;
static const char* PATH = "/tmp/a.tkmt";
#ifndef NB
#define NB 2
#endif
static std::unique_ptr<DB> make() { return std::make_unique<TinyDBM>(std::make_unique<FILECLS>(), NB); }
static Status open_db(DB* d, bool w = true, int o = OPENOPT) { return d->Open(PATH, w, o); }
#elif KIND == K_BABY
#include "tkrzw_dbm_baby.h"
typedef BabyDBM DB;
static const bool ORDERED = true;
static const char* PATH = "/tmp/a.tkmb";
static std::unique_ptr<DB> make() { return std::make_unique<BabyDBM>(std::make_unique<FILECLS>()); }
static Status open_db(DB* d, bool w = true, int o = OPENOPT) { return d->Open(PATH, w, o); }
#elif KIND == K_CACHE
#include "tkrzw_dbm_cache.h"
typedef CacheDBM DB;
static const bool ORDERED = false;
static const char* PATH = "/tmp/a.tkmc";
#ifndef CAPREC
#define CAPREC 4096
#endif
#ifndef CAPMEM
#define CAPMEM 10000000
#endif
static std::unique_ptr<DB> make() { return std::make_unique<CacheDBM>(std::make_unique<FILECLS>(), CAPREC, CAPMEM); }
static Status open_db(DB* d, bool w = true, int o = OPENOPT) { return d->Open(PATH, w, o); }
#elif KIND == K_STDHASH
#include "tkrzw_dbm_std.h"
typedef StdHashDBM DB;
static const bool ORDERED = false;
static const char* PATH = "/tmp/a.tksh";
static std::unique_ptr<DB> make() { return std::make_unique<StdHashDBM>(std::make_unique<FILECLS>(), 2); }
static Status open_db(DB* d, bool w = true, int o = OPENOPT) { return d->Open(PATH, w, o); }
#elif KIND == K_STDTREE
#include "tkrzw_dbm_std.h"
typedef StdTreeDBM DB;
static const bool ORDERED = true;
static const char* PATH = "/tmp/a.tkst";
static std::unique_ptr<DB> make() { return std::make_unique<StdTreeDBM>(std::make_unique<FILECLS>()); }
static Status open_db(DB* d, bool w = true, int o = OPENOPT) { return d->Open(PATH, w, o); }
#elif KIND == K_POLY
#include "tkrzw_dbm_poly.h"
typedef PolyDBM DB;
#ifndef POLYPATH
#define POLYPATH "/tmp/a.tkh"
#endif
#ifndef POLYORD
#define POLYORD false
#endif
static const bool ORDERED = POLYORD;
static const char* PATH = POLYPATH;
static std::unique_ptr<DB> make() { return std::make_unique<PolyDBM>(); }
static Status open_db(DB* d, bool w = true, int o = OPENOPT) { std::map<string, string> p; TUNE; return d->OpenAdvanced(PATH, w, o, p); }
#elif KIND == K_SHARD
#include "tkrzw_dbm_shard.h"
typedef ShardDBM DB;
#ifndef POLYPATH
#define POLYPATH "/tmp/a.tkh"
#endif
#ifndef POLYORD
#define POLYORD false
#endif
static const bool ORDERED = POLYORD;
static const char* PATH = POLYPATH;
static std::unique_ptr<DB> make() { return std::make_unique<ShardDBM>(); }
static Status open_db(DB* d, bool w = true, int o = OPENOPT) { std::map<string, string> p; TUNE; return d->OpenAdvanced(PATH, w, o, p); }
#endif

// Everything observable about the content must be what the model says.
static void audit(DBM* d, Model& m, const char* absent = nullptr) {
  int64_t n = -1;
  OK(d->Count(&n), "Count succeeds");
  CHECK(n == (int64_t)m.r.size(), "Count equals the number of records of the model");
  for (auto& x : m.r) {
    string v = "*";
    OK(d->Get(x.k, &v), "a stored key is found");
    CHECK(same(v, x.v), "Get returns the last stored value");
  }
  Collect c;
  OK(d->ProcessEach(&c, false), "ProcessEach succeeds");
  CHECK(c.recs.size() == m.r.size(), "ProcessEach visits each record exactly once");
  for (auto& x : m.r) {
    int hits = 0;
    for (auto& y : c.recs) if (same(y.first, x.k)) { hits++; CHECK(same(y.second, x.v), "ProcessEach passes the stored value"); }
    CHECK(hits == 1, "ProcessEach visits each key exactly once");
  }
}
static void audit_iter(DBM* d, Model& m) {
  auto it = d->MakeIterator();
  OK(it->First(), "Iterator::First succeeds");
  std::vector<std::pair<string, string>> got;
  for (size_t i = 0; i <= m.r.size() + 1; i++) {
    string k, v;
    Status s = it->Get(&k, &v);
    if (s != Status::SUCCESS) { CHECK(s == Status::NOT_FOUND_ERROR, "Iterator::Get reports only the end"); break; }
    got.emplace_back(k, v);
    OK(it->Next(), "Iterator::Next succeeds");
  }
  CHECK(got.size() == m.r.size(), "an iteration yields each record exactly once");
  for (auto& x : m.r) {
    int hits = 0;
    for (auto& y : got) if (same(y.first, x.k)) { hits++; CHECK(same(y.second, x.v), "an iteration yields the stored value"); }
    CHECK(hits == 1, "an iteration yields each key exactly once");
  }
  if (ORDERED) {
    for (size_t i = 1; i < got.size(); i++) CHECK(got[i - 1].first < got[i].first, "an iteration of an ordered database ascends");
    OK(it->Last(), "Iterator::Last succeeds");
    for (size_t i = got.size(); i > 0; i--) {
      string k, v;
      CHECK(it->Get(&k, &v) == Status::SUCCESS && same(k, got[i - 1].first) && same(v, got[i - 1].second), "a backward iteration yields the same records reversed");
      OK(it->Previous(), "Iterator::Previous succeeds");
    }
    CHECK(is(it->Get(), Status::NOT_FOUND_ERROR), "a backward iteration ends before the first record");
  }
}
