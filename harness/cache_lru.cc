// CacheDBM over capacity: what it keeps is always the most recently used records with their latest values.
#define KIND K_CACHE
#include "dbms.h"
#ifndef NOPS
#define NOPS 4
#endif
static std::unique_ptr<DB> d;
static Model m;   // oldest use first
static string mkkey() {
  uint64_t x = symx_int(0, KDOM - 1, "key");
#ifndef KSYM
  x = symx_concretize(x);   // every value, as one path each
#endif
  return string(1, (char)x);
}
static string mkval() { string v(symx_choice(2, "vlen") ? 3 : 20, 'v'); symx_make_symbolic(&v[0], 1, "val"); return v; }
static void touch(const string& k) { auto* x = m.find(k); if (!x) return; auto c = *x; m.del(k); m.r.push_back(c); }
static void prune(size_t cap, bool memcap) {
  int64_t n = -1; OK(d->Count(&n), "Count succeeds");
  CHECK(n <= (int64_t)cap + 1, "the record count stays within the capacity");
  CHECK(n <= (int64_t)m.r.size(), "no record appears by itself");
  if (!memcap) CHECK(n >= (int64_t)std::min(m.r.size(), cap), "no record is dropped below the capacity");
  if (!m.r.empty()) CHECK(n >= 1, "the most recently used record stays");
  while ((int64_t)m.r.size() > n) m.r.erase(m.r.begin());   // the least recently used ones are gone
}
extern "C" void symx_main() {
  d = make();
  OK(open_db(d.get()), "opening a new database succeeds");
  size_t cap = CAPREC; bool mem = CAPMEM < 1000000;
  for (int i = 0; i < NPRE; i++) { string k(1, (char)i), v(4, (char)i); OK(d->Set(k, v), "Set succeeds"); m.set(k, v); touch(k); prune(cap, mem); }
  for (int i = 0; i < NOPS; i++) {
    int op = symx_choice(7, "op");
    string k = mkkey();
    if (op == 0) { string v = mkval(); OK(d->Set(k, v), "Set succeeds"); m.set(k, v); touch(k); }
    else if (op == 1) { string v; Status s = d->Get(k, &v); auto* x = m.find(k); CHECK(is(s, x ? Status::SUCCESS : Status::NOT_FOUND_ERROR), "Get finds exactly the kept records"); if (x) CHECK(same(v, x->v), "Get returns the latest value"); touch(k); }
    else if (op == 2) { Status s = d->Remove(k); CHECK(is(s, m.find(k) ? Status::SUCCESS : Status::NOT_FOUND_ERROR), "Remove finds exactly the kept records"); m.del(k); }
    else if (op == 3) { auto* x = m.find(k); OK(d->Append(k, "++", ""), "Append succeeds"); if (x) x->v += "++"; else m.set(k, "++"); touch(k); }
    else if (op == 4) { Collect c; OK(d->ProcessEach(&c, symx_choice(2, "writable")), "ProcessEach succeeds"); CHECK(c.recs.size() == m.r.size(), "ProcessEach visits the kept records"); }
    else if (op == 5) { cap = 1 + symx_choice(3, "newcap"); OK(d->RebuildAdvanced(cap, -1), "Rebuild succeeds"); }
    else { auto* x = m.find(k); Status s = d->Set(k, "n", false); CHECK(is(s, x ? Status::DUPLICATION_ERROR : Status::SUCCESS), "Set without overwriting stores only new keys"); if (!x) m.set(k, "n"); touch(k); }
    prune(cap, mem);
    Collect c; OK(d->ProcessEach(&c, false), "ProcessEach succeeds");   // does not count as a use
    CHECK(c.recs.size() == m.r.size(), "exactly the most recently used records are kept");
    for (auto& x : m.r) {
      int hits = 0;
      for (auto& y : c.recs) if (same(y.first, x.k)) { hits++; CHECK(same(y.second, x.v), "a kept record has its latest value"); }
      CHECK(hits == 1, "exactly the most recently used records are kept");
    }
  }
  audit(d.get(), m); audit_iter(d.get(), m);
  OK(d->Close(), "Close succeeds");
  symx_reach("end");
}
