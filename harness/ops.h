// Operations over symbolic keys and values, each checked against the model map m.
#pragma once
#include "dbms.h"
#ifndef NOPS
#define NOPS 3
#endif
#ifndef OPS
#define OPS 0xFFFF
#endif
#ifndef KLEN
#define KLEN 1
#endif
#ifndef NPRE
#define NPRE 0
#endif
#ifndef VLENS
#define VLENS 1, 12
#endif
static const int vlens[] = {VLENS};
static const int nvl = sizeof vlens / sizeof *vlens;
static int klen() {
#ifdef KLENS
  static const int kl[] = {KLENS}; return kl[symx_choice(sizeof kl / sizeof *kl, "klen")];
#else
  return KLEN;
#endif
}
static string mkkey() {
#ifdef KSET
  { static const char ks[] = {KSET}; return string(1, ks[symx_choice(sizeof ks, "key")]); }
#endif
  int n = klen(); string k(n, 'k');
  if (n) symx_make_symbolic(&k[n - 1], 1, "key");
#ifdef KDOM
  if (n) symx_assume((unsigned char)k[n - 1] < KDOM);
#ifdef KCONC
  if (n) k[n - 1] = (char)symx_concretize((unsigned char)k[n - 1]);   // every value, as one path each
#endif
#endif
#ifdef KDIGIT
  if (n) { symx_assume((unsigned char)k[n - 1] >= '0'); symx_assume((unsigned char)k[n - 1] <= '9'); }
#endif
  return k;
}
static string mkval() {
#ifdef VCONC
  { static char ser = 'A'; return string(vlens[symx_choice(nvl, "vlen")], ser++); }
#endif
  int n = vlens[symx_choice(nvl, "vlen")]; string v(n, 'v');
  if (n) { symx_make_symbolic(&v[n - 1], 1, "val"); if (n > 1) v[0] = v[n - 1]; }
  return v;
}
static std::unique_ptr<DB> d;
static Model m;

static void op_set() { string k = mkkey(), v = mkval(); OK(d->Set(k, v), "Set succeeds"); m.set(k, v); }
static void op_setno() {
  string k = mkkey(), v = mkval(), old = "?"; auto* x = m.find(k);
  Status s = d->Set(k, v, false, &old);
  if (x) { CHECK(is(s, Status::DUPLICATION_ERROR), "Set without overwriting reports a duplicate"); CHECK(same(old, x->v), "Set hands out the old value"); }
  else { CHECK(is(s, Status::SUCCESS), "Set without overwriting stores a new key"); m.set(k, v); }
}
static void op_remove() {
  string k = mkkey(), old = "?"; auto* x = m.find(k);
  Status s = d->Remove(k, &old);
  if (x) { CHECK(is(s, Status::SUCCESS), "Remove of a stored key succeeds"); CHECK(same(old, x->v), "Remove hands out the old value"); m.del(k); }
  else CHECK(is(s, Status::NOT_FOUND_ERROR), "Remove of an absent key reports NOT_FOUND");
}
static void op_append() {
  string k = mkkey(), v = mkval(); auto* x = m.find(k);
  string dl = symx_choice(2, "delim") ? "" : "::";
  OK(d->Append(k, v, dl), "Append succeeds");
  if (x) x->v += dl + v; else m.set(k, v);
}
static void op_get() {
  string k = mkkey(), v = "?"; auto* x = m.find(k);
  Status s = d->Get(k, &v);
  if (x) { CHECK(is(s, Status::SUCCESS), "Get finds a stored key"); CHECK(same(v, x->v), "Get returns the stored value"); }
  else { CHECK(is(s, Status::NOT_FOUND_ERROR), "Get of an absent key reports NOT_FOUND"); CHECK(v == "?", "Get leaves the output alone when nothing is found"); }
}
static void op_cas() {
  string k = mkkey(), nv = mkval(); auto* x = m.find(k);
  int e = symx_choice(4, "expected"), ds = symx_choice(3, "desired");
  string ev = x && e == 2 ? x->v : "zz";
  string_view exp = e == 0 ? string_view() : e == 1 ? DBM::ANY_DATA : string_view(ev);
  string_view des = ds == 0 ? string_view() : ds == 1 ? DBM::ANY_DATA : string_view(nv);
  string act = "?"; bool found = !x;
  bool ok = e == 0 ? !x : e == 1 ? !!x : (x && same(x->v, ev));
  Status s = d->CompareExchange(k, exp, des, &act, &found);
  CHECK(is(s, ok ? Status::SUCCESS : Status::INFEASIBLE_ERROR), "CompareExchange succeeds exactly when the expectation holds");
  CHECK(found == !!x, "CompareExchange tells whether the record exists");
  if (x) CHECK(same(act, x->v), "CompareExchange hands out the actual value");
  if (ok) { if (ds == 0) m.del(k); else if (ds == 2) m.set(k, nv); }
}
static void op_incr() {
  string k = mkkey(); auto* x = m.find(k);
  int64_t inc = (int64_t)symx_int(0, 255, "inc") - 128, cur = 0;
  int64_t base = x ? (int64_t)StrToIntBigEndian(x->v) : 5;
  OK(d->Increment(k, inc, &cur, 5), "Increment succeeds");
  CHECK(cur == (int64_t)((uint64_t)base + (uint64_t)inc), "Increment returns the sum");
  m.set(k, IntToStrBigEndian((uint64_t)base + (uint64_t)inc));
}
static void op_casmulti() {
  string k1 = mkkey(), k2 = mkkey(), v = mkval();
  auto *x = m.find(k1), *y = m.find(k2);
  int e = symx_choice(3, "expected");
  string ev = x ? x->v : "q";
  string_view exp = e == 0 ? string_view() : e == 1 ? DBM::ANY_DATA : string_view(ev);
  bool ok = e == 0 ? !x : !!x;
  std::vector<std::pair<string_view, string_view>> ex{{k1, exp}}, de{{k2, symx_choice(2, "desired") ? string_view(v) : string_view()}, {k1, v}};
  Status s = d->CompareExchangeMulti(ex, de);
  CHECK(is(s, ok ? Status::SUCCESS : Status::INFEASIBLE_ERROR), "CompareExchangeMulti succeeds exactly when every expectation holds");
  if (ok) { if (de[0].second.data()) m.set(k2, v); else m.del(k2); m.set(k1, v); }
  (void)y;
}
static void op_rekey() {
  string a = mkkey(), b = mkkey(); bool ow = symx_choice(2, "overwrite"), cp = symx_choice(2, "copying");
  auto *x = m.find(a), *y = m.find(b); string v = "?";
  Status s = d->Rekey(a, b, ow, cp, &v);
  if (!x && !ow && y) { CHECK(is(s, Status::DUPLICATION_ERROR) || is(s, Status::NOT_FOUND_ERROR), "Rekey of an absent key onto an existing one fails"); return; }
  if (!ow && y) { CHECK(is(s, Status::DUPLICATION_ERROR), "Rekey onto an existing key is refused"); return; }
  if (!x) { CHECK(is(s, Status::NOT_FOUND_ERROR), "Rekey of an absent key reports NOT_FOUND"); return; }
  CHECK(is(s, Status::SUCCESS), "Rekey succeeds");
  CHECK(same(v, x->v), "Rekey hands out the value");
  string xv = x->v; if (!cp) m.del(a); m.set(b, xv);
}
static void op_popfirst() {
  string k = "?", v = "?";
  Status s = d->PopFirst(&k, &v);
  if (m.r.empty()) { CHECK(is(s, Status::NOT_FOUND_ERROR), "PopFirst on an empty database reports NOT_FOUND"); return; }
  CHECK(is(s, Status::SUCCESS), "PopFirst succeeds");
  if (ORDERED) { for (auto& r : m.r) CHECK(!(r.k < k), "PopFirst takes the first record of an ordered database"); }
  auto* x = m.find(k); CHECK(x != nullptr, "PopFirst takes an existing record");
  if (x) { CHECK(same(v, x->v), "PopFirst hands out the value"); m.del(k); }
}
static void op_each() {
  // removes or rewrites the records whose last key byte is below a bound
  unsigned char bound = symx_int(0, 255, "bound"); int act = symx_choice(2, "act"); string nv = mkval();
  struct P : DBM::RecordProcessor {
    unsigned char b; int act; string nv; int n = 0;
    string_view ProcessFull(string_view k, string_view v) override { n++; if (!k.empty() && (unsigned char)k.back() < b) return act ? string_view(nv) : REMOVE; return NOOP; }
    string_view ProcessEmpty(string_view k) override { return NOOP; }
  } p; p.b = bound; p.act = act; p.nv = nv;
  OK(d->ProcessEach(&p, true), "ProcessEach for update succeeds");
  CHECK(p.n == (int)m.r.size(), "ProcessEach for update visits each record once");
  for (size_t i = 0; i < m.r.size();) {
    if (!m.r[i].k.empty() && (unsigned char)m.r[i].k.back() < bound) { if (act) { m.r[i].v = nv; i++; } else m.r.erase(m.r.begin() + i); } else i++;
  }
}
static void op_clear() { OK(d->Clear(), "Clear succeeds"); m.r.clear(); }
static void op_rebuild() { OK(d->Rebuild(), "Rebuild succeeds"); symx_reach("rebuild"); }
static void op_sync() { OK(d->Synchronize(false), "Synchronize succeeds"); }
static void op_reopen() {
  OK(d->Close(), "Close succeeds"); OK(open_db(d.get(), true, OPENOPT & ~File::OPEN_TRUNCATE), "reopening succeeds"); CHECK(d->IsHealthy(), "a cleanly closed database is healthy"); symx_reach("reopen");
}
static void op_iterset() {
  // an iterator that rewrites or removes the record it stands on, then moves on
  auto it = d->MakeIterator(); int act = symx_choice(2, "act"); string nv = mkval(), k, v;
  OK(it->First(), "First succeeds");
  if (symx_choice(2, "skip")) { Status s = it->Next(); CHECK(m.r.empty() ? is(s, Status::NOT_FOUND_ERROR) : is(s, Status::SUCCESS), "Next"); }
  Status s = act ? it->Set(nv, &k, &v) : it->Remove(&k, &v);
  if (!is(s, Status::SUCCESS)) { CHECK(is(s, Status::NOT_FOUND_ERROR), "an iterator at the end reports NOT_FOUND"); CHECK(m.r.size() < 2, "the iterator finds the record"); return; }
  auto* x = m.find(k); CHECK(x != nullptr, "the iterator stands on an existing record");
  if (!x) return;
  CHECK(same(v, x->v), "the iterator hands out the stored value");
  if (act) x->v = nv; else m.del(k);
}
static void op_multi() {
  string a = mkkey(), b = mkkey(), v = mkval();
  std::map<string_view, string_view> recs{{a, v}, {b, v}};
  OK(d->SetMulti(recs, true), "SetMulti succeeds"); m.set(a, v); m.set(b, v);
  string c = mkkey(); std::map<string, string> got; std::vector<string_view> keys{a, c};
  auto* x = m.find(c);
  Status s = d->GetMulti(keys, &got);
  CHECK(is(s, x ? Status::SUCCESS : Status::NOT_FOUND_ERROR), "GetMulti reports a missing key");
  CHECK(got.size() == (x ? (same(a, c) ? 1 : 2) : 1), "GetMulti returns the records that exist");
  CHECK(same(got[a], v), "GetMulti returns the value");
  std::vector<string_view> rk{c};
  s = d->RemoveMulti(rk);
  CHECK(is(s, x ? Status::SUCCESS : Status::NOT_FOUND_ERROR), "RemoveMulti reports a missing key"); m.del(c);
}
static void op_procmulti() {
  string a = mkkey(), b = mkkey(), v = mkval(); string sa, sb; int fa = 0, fb = 0;
  auto* x = m.find(a); bool hx = x, hy = m.find(b); string xv = x ? x->v : "";
  struct P : DBM::RecordProcessor {
    int full = 0, empty = 0; string got, key; string_view ret;
    string_view ProcessFull(string_view k, string_view v) override { full++; key = string(k); got = string(v); return ret; }
    string_view ProcessEmpty(string_view k) override { empty++; key = string(k); return ret.data() == DBM::RecordProcessor::REMOVE.data() ? NOOP : ret; }
  } p, q; 
  int ra = symx_choice(3, "ra");
  p.ret = ra == 0 ? DBM::RecordProcessor::NOOP : ra == 1 ? DBM::RecordProcessor::REMOVE : string_view(v);
  q.ret = symx_choice(2, "rb") ? string_view(v) : DBM::RecordProcessor::NOOP;
  std::vector<std::pair<string_view, DBM::RecordProcessor*>> pr{{a, &p}, {b, &q}};
  OK(d->ProcessMulti(pr, true), "ProcessMulti succeeds");
  CHECK(p.full == hx && p.empty == !hx && same(p.key, a), "ProcessMulti calls each processor once with the record state");
  if (hx) CHECK(same(p.got, xv), "ProcessMulti passes the stored value");
  if (ra == 1) m.del(a); else if (ra == 2) m.set(a, v);
  auto* y = m.find(b);
  CHECK(q.full == !!y && q.empty == !y && same(q.key, b), "a later processor of ProcessMulti sees the effect of an earlier one");
  if (y) CHECK(same(q.got, y->v), "a later processor of ProcessMulti sees the value an earlier one wrote");
  if (q.ret.data() == v.data()) m.set(b, v);
  (void)hy; (void)fa; (void)fb;
}
static void op_process() {
  string k = mkkey(), v = mkval(); auto* x = m.find(k); bool hx = x;
  struct P : DBM::RecordProcessor {
    int full = 0, empty = 0; string got; string_view ret;
    string_view ProcessFull(string_view k, string_view v) override { full++; got = string(v); return ret; }
    string_view ProcessEmpty(string_view k) override { empty++; return ret; }
  } p; int ra = symx_choice(4, "ra");
  p.ret = ra == 1 ? DBM::RecordProcessor::REMOVE : ra == 2 ? string_view(v) : DBM::RecordProcessor::NOOP;
  OK(d->Process(k, &p, ra != 3), "Process succeeds");
  CHECK(p.full == hx && p.empty == !hx, "Process calls the processor once");
  if (hx) CHECK(same(p.got, x->v), "Process passes the stored value");
  if (ra == 1) m.del(k); else if (ra == 2) m.set(k, v);
}
static void op_pushlast() {
  string v = mkval(), k;
  OK(d->PushLast(v, 1.5 + symx_choice(2, "wt"), &k), "PushLast succeeds");
  CHECK(k.size() == 8 && m.find(k) == nullptr, "PushLast creates a new key"); m.set(k, v);
}
typedef void (*opfn)();
static const opfn ops[] = {op_set, op_setno, op_remove, op_append, op_get, op_cas, op_incr, op_casmulti, op_rekey, op_popfirst, op_each, op_clear, op_rebuild, op_sync, op_reopen, op_iterset, op_multi, op_procmulti, op_process, op_pushlast};
// the operations selected by a mask, at random positions of a forked sequence
static void run_ops(int n, unsigned mask) {
  opfn sel[32]; int c = 0;
  for (int i = 0; i < (int)(sizeof ops / sizeof *ops); i++) if (mask >> i & 1) sel[c++] = ops[i];
  for (int i = 0; i < n; i++) sel[symx_choice(c, "op")]();
}
static void prefill(int n) {
  for (int i = 0; i < n; i++) { string k(1, "mBzK0aTq"[i]), v(i + 1, 'p'); OK(d->Set(k, v), "Set succeeds"); m.set(k, v); }
}
