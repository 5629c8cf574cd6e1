// Update sequences of SkipDBM with synchronizations at any point: published records against a multimap.
#define KIND K_SKIP
#include "dbms.h"
#ifndef NOPS
#define NOPS 3
#endif
#ifndef OPS
#define OPS 0x7
#endif
#ifndef KDOM
#define KDOM 3
#endif
#ifndef VLENS
#define VLENS 1
#endif
#ifndef REDS
#define REDS 0
#endif
#ifndef NPRE
#define NPRE 0
#endif
static std::unique_ptr<DB> d;
typedef std::pair<string, string> KV;
struct Pend { string k, v; bool rem; };
static std::vector<KV> pub;          // published, in order
static std::vector<Pend> pend;       // not yet synchronized, in order
static int nmerged; static string lastk; static bool haslast;
static string mkkey() {
  string k(1, 'k');
#ifdef KSYM
  symx_make_symbolic(&k[0], 1, "key");
#else
  k[0] = (char)symx_choice(KDOM, "key");
#endif
#ifdef LONGKEY
  k = string(LONGKEY, 'x') + k;
#endif
  return k;
}
static string mkval() {
  static const int vl[] = {VLENS}; int n = vl[symx_choice(sizeof vl / sizeof *vl, "vlen")]; string v(n, 'v');
#ifdef VDIGIT
  for (auto& c : v) c = '0' + symx_choice(3, "digit");
#elif defined(VSYM)
  if (n) symx_make_symbolic(&v[0], VSYM < n ? VSYM : n, "val");
#else
  if (n) { symx_make_symbolic(&v[n - 1], 1, "val"); v[0] = v[n - 1]; }
#endif
  return v;
}
static const KV* pfind(const string& k) { for (auto& x : pub) if (same(x.first, k)) return &x; return nullptr; }
static std::vector<string> reduce(int r, const std::vector<string>& v) {
  string s; uint64_t t = 0; int64_t n = 0;
  switch (r) {
    case 0: return v;
    case 1: return {v.front()};
    case 2: return {v.size() > 1 ? v[1] : v[0]};
    case 3: return {v.back()};
    case 4: for (auto& x : v) s += x; return {s};
    case 5: case 6: case 7: for (size_t i = 0; i < v.size(); i++) { if (i) s += r == 5 ? '\0' : r == 6 ? '\t' : '\n'; s += v[i]; } return {s};
    case 8: for (auto& x : v) n += StrToInt(x); return {ToString(n)};
    default: for (auto& x : v) t += StrToIntBigEndian(x); return {IntToStrBigEndian(t)};
  }
}
static SkipDBM::ReducerType reducers[] = {nullptr, SkipDBM::ReduceToFirst, SkipDBM::ReduceToSecond, SkipDBM::ReduceToLast, SkipDBM::ReduceConcat, SkipDBM::ReduceConcatWithNull, SkipDBM::ReduceConcatWithTab, SkipDBM::ReduceConcatWithLine, SkipDBM::ReduceToTotal, SkipDBM::ReduceToTotalBigEndian};
static void publish(int r) {
  std::vector<string> keys;
  auto addk = [&](const string& k) { for (auto& x : keys) if (same(x, k)) return; keys.push_back(k); };
  for (auto& x : pub) addk(x.first);
  for (auto& x : pend) addk(x.k);
  for (size_t i = 1; i < keys.size(); i++) for (size_t j = i; j > 0 && keys[j] < keys[j - 1]; j--) std::swap(keys[j], keys[j - 1]);
  std::vector<KV> out;
  for (auto& k : keys) {
    std::vector<string> v;
    for (auto& x : pub) if (same(x.first, k)) v.push_back(x.second);
    for (auto& x : pend) if (same(x.k, k)) { if (x.rem) v.clear(); else v.push_back(x.v); }
    if (v.empty()) continue;
    for (auto& y : reduce(r, v)) out.emplace_back(k, y);
  }
  pub.swap(out); pend.clear(); nmerged = 0; haslast = false;
}
static void audit_skip() {
  int64_t n = -1, eff = 0;
  OK(d->Count(&n), "Count succeeds");
#ifdef INORDER
  bool counted = pend.empty();   // what is inserted in order counts at once
#else
  bool counted = true;
#endif
  if (counted) CHECK(n == (int64_t)pub.size(), "Count equals the number of published records");
  Collect c; OK(d->ProcessEach(&c, false), "ProcessEach succeeds");
  CHECK(c.recs.size() == pub.size(), "ProcessEach visits the published records");
  for (size_t i = 0; i < c.recs.size() && i < pub.size(); i++) {
    CHECK(same(c.recs[i].first, pub[i].first) && same(c.recs[i].second, pub[i].second), "ProcessEach yields the published records in order");
    string k, v; OK(d->GetByIndex(i, &k, &v), "GetByIndex succeeds");
    CHECK(same(k, pub[i].first) && same(v, pub[i].second), "GetByIndex gives the record at that place");
    string g; OK(d->Get(pub[i].first, &g), "a published key is found");
    CHECK(same(g, pfind(pub[i].first)->second), "Get gives the first value of the key");
    eff += k.size() + v.size();
  }
  { string k, v; CHECK(is(d->GetByIndex(pub.size(), &k, &v), Status::NOT_FOUND_ERROR), "GetByIndex beyond the end reports NOT_FOUND"); }
  if (counted) CHECK(d->GetEffectiveDataSize() == eff, "the effective data size is the total of the keys and values");
  auto it = d->MakeIterator(); OK(it->First(), "First succeeds");
  for (size_t i = 0; i <= pub.size(); i++) {
    string k, v; Status s = it->Get(&k, &v);
    if (i == pub.size()) { CHECK(is(s, Status::NOT_FOUND_ERROR), "the iterator ends after the last record"); break; }
    CHECK(is(s, Status::SUCCESS) && same(k, pub[i].first) && same(v, pub[i].second), "the iterator yields the published records in order");
    it->Next();
  }
  OK(it->Last(), "Last succeeds");
  for (size_t i = pub.size(); i > 0; i--) {
    string k, v; Status s = it->Get(&k, &v);
    CHECK(is(s, Status::SUCCESS) && same(k, pub[i - 1].first) && same(v, pub[i - 1].second), "the iterator yields the published records backwards");
    Status p = it->Previous(); CHECK(is(p, Status::SUCCESS), "Previous succeeds");
  }
  { string k; CHECK(is(it->Get(&k), Status::NOT_FOUND_ERROR), "the iterator ends before the first record"); }
}
static string okey() {   // ascending keys where the database was promised that
  string k = mkkey();
#ifdef INORDER
  if (haslast) symx_assume(lastk <= k);
  lastk = k; haslast = true;
#endif
  return k;
}
static void op_set() { string k = okey(), v = mkval(); OK(d->Set(k, v), "Set succeeds"); pend.push_back({k, v, false}); }
static void op_remove() { string k = okey(); OK(d->Remove(k), "Remove succeeds"); pend.push_back({k, "", true}); }
static void op_sync() { int r = REDS ? symx_choice(10, "reducer") : 0; OK(d->SynchronizeAdvanced(false, nullptr, reducers[r]), "Synchronize succeeds"); publish(r); symx_reach("sync"); audit_skip(); }
static void op_get() {
  string k = mkkey(), v = "?"; auto* x = pfind(k); Status s = d->Get(k, &v);
  CHECK(is(s, x ? Status::SUCCESS : Status::NOT_FOUND_ERROR), "Get finds exactly the published keys"); if (x) CHECK(same(v, x->second), "Get gives the published value");
}
static void op_setold() {
  string k = okey(), v = mkval(), old = "?"; auto* x = pfind(k); bool ow = symx_choice(2, "ow");
  Status s = d->Set(k, v, ow, &old);
  if (x) CHECK(same(old, x->second), "Set hands out the published value");
  if (x && !ow) { CHECK(is(s, Status::DUPLICATION_ERROR), "Set without overwriting reports a duplicate"); return; }
  CHECK(is(s, Status::SUCCESS), "Set succeeds"); pend.push_back({k, v, false});
}
static void op_removeold() {
  string k = okey(), old = "?"; auto* x = pfind(k); Status s = d->Remove(k, &old);
  if (!x) { CHECK(is(s, Status::NOT_FOUND_ERROR), "Remove of an absent key reports NOT_FOUND"); return; }
  CHECK(is(s, Status::SUCCESS) && same(old, x->second), "Remove hands out the published value"); pend.push_back({k, "", true});
}
static void op_append() {
  string k = okey(), v = mkval(); auto* x = pfind(k); OK(d->Append(k, v, ","), "Append succeeds");
  pend.push_back({k, x ? x->second + "," + v : v, false});
}
static void op_reopen() {
  OK(d->Close(), "Close succeeds"); OK(open_db(d.get(), true, OPENOPT & ~File::OPEN_TRUNCATE), "reopening succeeds"); CHECK(d->IsHealthy(), "healthy"); publish(0); symx_reach("reopen"); audit_skip();
}
static void op_rebuild() {
  SkipDBM::TuningParameters p; int c = symx_choice(3, "rb"); if (c == 1) { p.step_unit = 2; p.max_level = 1; p.offset_width = 3; } if (c == 2) { p.step_unit = 3; p.max_level = 5; p.offset_width = 5; }
  OK(d->RebuildAdvanced(p), "Rebuild succeeds"); publish(0); symx_reach("rebuild"); audit_skip();
}
static void op_revert() { OK(d->Revert(), "Revert succeeds"); pend.clear(); nmerged = 0; haslast = false; audit_skip(); }
static void op_clear() { OK(d->Clear(), "Clear succeeds"); pub.clear(); pend.clear(); nmerged = 0; haslast = false; audit_skip(); }
static void op_merge() {
  static int nmerge; const string path = SPrintF("/tmp/b%d.tks", nmerge++);
  { SkipDBM s; SkipDBM::TuningParameters p; p.step_unit = 2; p.max_level = 2; OK(s.OpenAdvanced(path, true, File::OPEN_TRUNCATE, p), "opening another database succeeds");
    string a = mkkey(), v = mkval(); OK(s.Set(a, v), "Set succeeds"); string w = "mm"; OK(s.Set("B", w), "Set succeeds"); OK(s.Close(), "Close succeeds");
    OK(d->MergeSkipDatabase(path), "MergeSkipDatabase succeeds");
    // merged records come before the pending ones of the same key
    pend.insert(pend.begin() + nmerged++, Pend{a, v, false}); pend.insert(pend.begin() + nmerged++, Pend{"B", w, false});
  }
}
static void op_each() {
  int act = symx_choice(2, "act"); string nv = mkval();
  struct P : DBM::RecordProcessor { int act; string nv; string_view ProcessFull(string_view k, string_view v) override { return act ? string_view(nv) : REMOVE; } string_view ProcessEmpty(string_view) override { return NOOP; } } p; p.act = act; p.nv = nv;
#ifdef INORDER
  if (haslast && !pub.empty()) symx_assume(lastk <= pub[0].first);
  if (!pub.empty()) { lastk = pub.back().first; haslast = true; }
#endif
  OK(d->ProcessEach(&p, true), "ProcessEach for update succeeds");
  for (auto& x : pub) pend.push_back({x.first, act ? nv : "", !act});
}
static void op_pop() {
  string k = "?", v = "?";
#ifdef INORDER
  if (haslast && !pub.empty()) symx_assume(lastk <= pub[0].first);
  if (!pub.empty()) { lastk = pub[0].first; haslast = true; }
#endif
  Status s = d->PopFirst(&k, &v);
  if (pub.empty()) { CHECK(is(s, Status::NOT_FOUND_ERROR), "PopFirst on an empty database reports NOT_FOUND"); return; }
  CHECK(is(s, Status::SUCCESS) && same(k, pub[0].first) && same(v, pub[0].second), "PopFirst hands out the first record"); pend.push_back({pub[0].first, "", true});
}
static void op_jump() {
  string k = mkkey(); int kind = symx_choice(5, "jump"); auto it = d->MakeIterator(); Status s; int at = -1;
  if (kind == 0) { s = it->Jump(k); for (size_t i = 0; i < pub.size(); i++) if (!(pub[i].first < k)) { at = i; break; } }
  if (kind == 1 || kind == 2) { bool inc = kind == 2; s = it->JumpLower(k, inc); for (size_t i = 0; i < pub.size(); i++) if (inc ? !(k < pub[i].first) : pub[i].first < k) at = i; }
  if (kind == 3 || kind == 4) { bool inc = kind == 4; s = it->JumpUpper(k, inc); for (size_t i = pub.size(); i-- > 0;) if (inc ? !(pub[i].first < k) : k < pub[i].first) at = i; }
  CHECK(is(s, Status::SUCCESS), "a jump succeeds");
  string gk, gv; Status g = it->Get(&gk, &gv);
  if (at < 0) CHECK(is(g, Status::NOT_FOUND_ERROR), "a jump without a matching record leaves no record");
  else CHECK(is(g, Status::SUCCESS) && same(gk, pub[at].first), "a jump stands on the record an ordered search gives");
}
typedef void (*opfn)();
static const opfn opz[] = {op_set, op_remove, op_sync, op_get, op_setold, op_removeold, op_append, op_reopen, op_rebuild, op_revert, op_clear, op_merge, op_each, op_pop, op_jump};
extern "C" void symx_main() {
  d = make(); OK(open_db(d.get()), "opening a new database succeeds");
#ifdef BUILDIT
  // a published database of NPRE records
  for (int i = 0; i < NPRE; i++) { string k = SPrintF("%02d", i), v(i % 3 + 1, 'p'); OK(d->Set(k, v), "Set"); pend.push_back({k, v, false}); }
  OK(d->Synchronize(false), "Synchronize succeeds"); publish(0);
#else
  for (int i = 0; i < NPRE; i++) { string k(1, "BKmz"[i]), v(i + 1, 'p'); OK(d->Set(k, v), "Set"); pend.push_back({k, v, false}); }
  if (NPRE) { OK(d->Synchronize(false), "Synchronize succeeds"); publish(0); }
#endif
  opfn sel[32]; int n = 0;
  for (int i = 0; i < (int)(sizeof opz / sizeof *opz); i++) if (OPS >> i & 1) sel[n++] = opz[i];
  for (int i = 0; i < NOPS; i++) sel[symx_choice(n, "op")]();
  audit_skip();       // pending updates are not visible
  op_sync();
  symx_observe_int("count", pub.size());
  OK(d->Close(), "Close succeeds"); CHECK(rt_open_fds() == 0 && rt_open_maps() == 0, "Close releases descriptors and mappings");
  CHECK(!rt_file_exists("/tmp/a.tks.tmp.sorted") && !rt_file_exists("/tmp/a.tks.tmp.00000"), "no temporary file is left");
  symx_reach("end");
}
