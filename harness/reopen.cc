// Sessions over one file: every session opens with some file class, checks everything, updates, closes.
#include "ops.h"
#ifndef NSESS
#define NSESS 2
#endif
#ifndef CLASSES
#define CLASSES 4
#endif
static std::unique_ptr<File> mkfile(int c) {
  switch (c) {
    case 0: return std::make_unique<MemoryMapParallelFile>();
    case 1: return std::make_unique<PositionalParallelFile>();
    case 2: return std::make_unique<MemoryMapAtomicFile>();
    case 3: return std::make_unique<PositionalAtomicFile>();
    default: return std::make_unique<StdFile>();
  }
}
static const char* volatiles[] = {"path", "timestamp", "cyclic_magic", "closure_flags", "file_size", "healthy", "auto_restored", "updated", "removed", "max_cached_pages", "mem_usage", "sort_mem_size", "insert_in_order", "root_id", "first_id", "last_id", "num_leaf_nodes", "num_inner_nodes", "tree_level", "num_records", "eff_data_size", "db_type", "hash_num_records", "hash_eff_data_size"};
static bool isvol(const string& n) { for (auto x : volatiles) if (n == x) return true; return false; }
static std::map<string, string> tuning() {
  std::map<string, string> r;
  for (auto& x : d->Inspect()) if (!isvol(x.first)) r[x.first] = x.second;
  return r;
}
#define FILEDB (KIND == K_HASH || KIND == K_TREE || KIND == K_SKIP)
#if KIND == K_TREE
#define OPAQUE 10
#else
#define OPAQUE 64
#endif
extern "C" void symx_main() {
  std::map<string, string> tun; string opaque; uint32_t type = 0; bool hasmeta = false;
  int64_t eff = -1;
  for (int s = 0; s <= NSESS; s++) {
    bool last = s == NSESS, w = !last || symx_choice(2, "writable");
    int fc = symx_choice(CLASSES, "class");
#if KIND == K_TINY
    d = std::make_unique<DB>(mkfile(fc), NB);
#elif KIND == K_CACHE
    d = std::make_unique<DB>(mkfile(fc), CAPREC, CAPMEM);
#elif KIND == K_STDHASH
    d = std::make_unique<DB>(mkfile(fc), 2);
#else
    d = std::make_unique<DB>(mkfile(fc));
#endif
    if (s == 0) OK(open_db(d.get()), "opening a new database succeeds");
    else OK(d->Open(PATH, w), "reopening succeeds");
    CHECK(d->IsOpen() && d->IsWritable() == w && d->IsHealthy(), "the reopened database is open and healthy");
    string pth; OK(d->GetFilePath(&pth), "GetFilePath succeeds"); CHECK(pth == PATH, "GetFilePath gives the path");
    audit(d.get(), m);
#ifndef NOITER
    if (last) audit_iter(d.get(), m);
#endif
#if FILEDB
    CHECK(!d->IsAutoRestored(), "a cleanly closed database is not restored");
    if (s > 0) {
#ifndef META
      CHECK(tuning() == tun, "the tuning recorded in the file survives");
#endif
      CHECK(d->GetEffectiveDataSize() == eff, "the effective data size survives");
      if (hasmeta) {
        CHECK((uint32_t)d->GetDatabaseType() == type, "the database type survives");
        string o = d->GetOpaqueMetadata();
        CHECK(o.size() >= opaque.size() && same(o.substr(0, opaque.size()), opaque), "the opaque metadata survives");
      }
    }
#ifndef META
    else tun = tuning();
#endif
    if (!last) {
#ifdef META
      type = symx_int(0, 0xFFFFFFFF, "type"); opaque = symstr(symx_choice(2, "olen") ? OPAQUE : 3, "opaque"); hasmeta = true;
      OK(d->SetDatabaseType(type), "SetDatabaseType succeeds"); OK(d->SetOpaqueMetadata(opaque), "SetOpaqueMetadata succeeds");
#endif
    }
#endif
    if (!last) {
      if (s == 0) prefill(NPRE);
      run_ops(NOPS, OPS);
#if FILEDB
      // the key and value bytes of the records
#if KIND == K_SKIP
      OK(d->Synchronize(false), "Synchronize succeeds");
#endif
      eff = d->GetEffectiveDataSize();
      int64_t sum = 0; for (auto& x : m.r) sum += x.k.size() + x.v.size();
      CHECK(eff == sum, "the effective data size is the total of the keys and values");
#endif
    }
    OK(d->Close(), "Close succeeds");
    CHECK(!d->IsOpen(), "a closed database is not open");
    CHECK(rt_open_fds() == 0 && rt_open_maps() == 0, "Close releases descriptors and mappings");
    CHECK(rt_held_lock(PATH) == 0, "Close releases the lock");
    d.reset();
  }
  symx_observe_int("count", m.r.size());
  symx_reach("end");
}
