// Update logs: the updates seen by a logger, applied to a copy of the earlier content, give the later content.
// LOG 1: the logger that updates another database; 2: the message queue logger, replayed from its files; 3: the text logger, decoded here.
#include "ops.h"
#include "tkrzw_dbm_ulog.h"
#include "tkrzw_message_queue.h"
#include "tkrzw_dbm_tiny.h"
#ifndef LOG
#define LOG 1
#endif
#ifndef SERVER
#define SERVER 3, 300
#endif
static void skip_ops() {
#if KIND == K_SKIP
  for (int i = 0; i < NOPS; i++) {
    string k = mkkey();
    switch (symx_choice(4, "op")) {
      case 0: { string v = mkval(); OK(d->Set(k, v), "Set succeeds"); m.set(k, v); break; }
      case 1: { Status s = d->Remove(k); CHECK(is(s, Status::SUCCESS) || is(s, Status::NOT_FOUND_ERROR), "Remove succeeds or finds nothing"); OK(d->Synchronize(false), "Synchronize succeeds"); m.del(k); break; }
      case 2: OK(d->Clear(), "Clear succeeds"); m.r.clear(); break;
      case 3: OK(d->Rebuild(), "Rebuild succeeds"); break;
    }
    OK(d->SynchronizeAdvanced(false, nullptr, SkipDBM::ReduceToLast), "Synchronize succeeds");
  }
#endif
}
extern "C" void symx_main(void) {
  d = make(); OK(open_db(d.get()), "opening a new database succeeds"); prefill(NPRE);
#if KIND == K_SKIP
  OK(d->Synchronize(false), "Synchronize succeeds");
#endif
  auto mir = std::make_unique<TinyDBM>(std::make_unique<MemoryMapParallelFile>(), 2);
  for (auto& r : m.r) mir->Set(r.k, r.v);
  Model mt = m;
  std::unique_ptr<MessageQueue> mq; std::unique_ptr<DBM::UpdateLogger> ul;
#if LOG == 1
  ul = std::make_unique<DBMUpdateLoggerDBM>(mir.get());
#elif LOG == 2
  static const int ids[] = {SERVER}; int sid = ids[symx_choice(sizeof ids / sizeof *ids, "server")], idx = sid == 3 ? 0 : 7;
  MakeDirectory("/tmp/q"); mq = std::make_unique<MessageQueue>(); OK(mq->Open("/tmp/q/ul", 80), "opening the message queue succeeds");
  ul = std::make_unique<DBMUpdateLoggerMQ>(mq.get(), sid, idx, 1000);
#else
  ul = std::make_unique<DBMUpdateLoggerStrDeque>("\t");
#endif
  d->SetUpdateLogger(ul.get()); CHECK(d->GetUpdateLogger() == ul.get(), "the update logger is attached");
#if KIND == K_SKIP
  skip_ops();
#else
  run_ops(NOPS, OPS);
#endif
  d->SetUpdateLogger(nullptr);
  audit(d.get(), m);
#if LOG == 1
  audit(mir.get(), m);
#elif LOG == 2
  OK(mq->Close(), "Close succeeds");
  // another server's or another database's updates are not applied; then all are
  auto other = std::make_unique<TinyDBM>(std::make_unique<MemoryMapParallelFile>(), 2);
  for (auto& r : mt.r) other->Set(r.k, r.v);
  OK(DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(other.get(), "/tmp/q/ul", 0, -sid, idx), "replaying other servers' updates succeeds");
  OK(DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(other.get(), "/tmp/q/ul", 0, sid, idx + 1), "replaying updates of another database succeeds");
  OK(DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(other.get(), "/tmp/q/ul", 1001, sid, idx), "replaying later updates succeeds");
  audit(other.get(), mt);
  int how = symx_choice(2, "how");
  if (how == 0) OK(DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(mir.get(), "/tmp/q/ul", 0, sid, idx), "replaying the log succeeds");
  else OK(DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(mir.get(), "/tmp/q/ul", 1000), "replaying the whole log succeeds");
  audit(mir.get(), m);
  (void)0;
#else
  auto* sd = (DBMUpdateLoggerStrDeque*)ul.get(); string t; int64_t n = sd->GetSize();
  for (int64_t i = 0; i < n; i++) {
    CHECK(sd->PopFront(&t), "the text log gives its entries");
    int kl = 1;
#if defined(PUSHKEYS)
    kl = 8;
#endif
    if (t.size() >= 4 && t.substr(0, 4) == "SET\t") { CHECK((int)t.size() >= 5 + kl && t[4 + kl] == '\t', "an entry tells key and value"); mt.set(t.substr(4, kl), t.substr(5 + kl)); }
    else if (t.size() >= 7 && t.substr(0, 7) == "REMOVE\t") mt.del(t.substr(7));
    else { CHECK(t == "CLEAR", "an entry is one of SET, REMOVE and CLEAR"); mt.r.clear(); }
  }
  CHECK(!sd->PopFront(&t), "the text log ends");
  CHECK(mt.r.size() == m.r.size(), "replaying the text log gives the same number of records");
  for (auto& r : m.r) { auto* x = mt.find(r.k); CHECK(x && same(x->v, r.v), "replaying the text log gives the same records"); }
#endif
  OK(d->Close(), "Close succeeds"); symx_observe_int("count", m.r.size()); symx_reach("end");
}
