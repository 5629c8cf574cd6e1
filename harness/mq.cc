// The message queue.  MODE 1: sequences of writes, reads and reopenings against a list of messages; MODE 2: cut-off tails;
// MODE 3: removal of old files; MODE 4: the queue process is killed without closing and the queue is opened again.
#include "h.h"
#include "tkrzw_message_queue.h"
#ifndef MODE
#define MODE 1
#endif
#ifndef NOPS
#define NOPS 3
#endif
#ifndef NPRE
#define NPRE 2
#endif
#ifndef MAXSIZE
#define MAXSIZE 60
#endif
#ifndef LENS
#define LENS 0, 3, 20
#endif
#ifndef TSN
#define TSN 8
#endif
static const char* PFX = "/tmp/q/mq";
struct Msg { int64_t ts; string s; int file; };
static std::vector<Msg> log_;
static int64_t now = 0; static int file_id = 0; static int64_t fsize = 32;   // what the queue should hold
static std::unique_ptr<MessageQueue> q;
static void q_open(int opt = 0) { q = std::make_unique<MessageQueue>(); OK(q->Open(PFX, MAXSIZE, opt), "opening the message queue succeeds"); }
static int64_t mkts() {
#ifdef TSCONC
  return symx_choice(TSN, "ts");
#else
  return (int64_t)symx_int(0, TSN - 1, "ts");
#endif
}
static string mkmsg() {
  static const int l[] = {LENS}; int n = l[symx_choice(sizeof l / sizeof *l, "len")];
  string s(n, 'm'); if (n) symx_make_symbolic(&s[n - 1], 1, "byte"); if (n > 1) symx_make_symbolic(&s[0], 1, "byte"); return s;
}
static void write() {
  int64_t ts = mkts(); string s = mkmsg();
  OK(q->Write(ts, s), "Write succeeds");
  if (fsize >= MAXSIZE) { file_id++; fsize = 32; }
  if (now < ts) now = ts;
  log_.push_back({now, s, file_id}); fsize += 12 + s.size();
}
struct R { std::unique_ptr<MessageQueue::Reader> r; int64_t min; size_t pos; };
static std::vector<R> readers;
static void read(R& r) {
  while (r.pos < log_.size() && log_[r.pos].ts < r.min) r.pos++;
  int64_t ts = -7; string s = "?"; Status st = r.r->Read(&ts, &s, 0);
  if (r.pos < log_.size()) {
    OK(st, "a reader gets the next message"); CHECK(same(s, log_[r.pos].s), "a reader gets the message as it was written"); CHECK(ts == log_[r.pos].ts, "a reader gets the timestamp of the message");
    r.pos++;
  } else { CHECK(is(st, Status::INFEASIBLE_ERROR), "a reader at the end reports that there is nothing"); CHECK(ts == now, "a reader at the end learns the latest timestamp"); }
}
static void mkreader() { int64_t min = mkts(); readers.push_back({q->MakeReader(min), min, 0}); }
static void reopen() {
  readers.clear(); OK(q->Close(), "Close succeeds"); q_open(); CHECK(q->GetTimestamp() == now, "the latest timestamp survives reopening");
}
static void drain(int64_t min, size_t from = 0) {
  R r{q->MakeReader(min), min, from};
  for (size_t i = 0; i <= log_.size() - from; i++) read(r);
}
#ifndef OPSEL
#define OPSEL 0xFF
#endif
static int pick(unsigned mask, const char* nm) { int c = 0, sel[32]; for (int i = 0; i < 32; i++) if (mask >> i & 1) sel[c++] = i; return sel[symx_choice(c, nm)]; }
static void history() {
  q_open();
  for (int i = 0; i < NPRE; i++) write();
  for (int i = 0; i < NOPS; i++) {
    switch (pick(OPSEL, "op")) {
      case 0: write(); break;
      case 1: if (readers.empty()) mkreader(); else read(readers[0]); break;
      case 2: if (readers.size() < 2) mkreader(); else read(readers[1]); break;
      case 3: reopen(); break;
      case 4: OK(q->Synchronize(false), "Synchronize succeeds"); break;
      case 5: { int64_t t = mkts(); OK(q->UpdateTimestamp(t), "UpdateTimestamp succeeds"); if (now < t) now = t; CHECK(q->GetTimestamp() == now, "UpdateTimestamp raises the timestamp"); break; }
      case 6: { MessageQueue ro; if (!is(ro.Open(PFX, MAXSIZE, MessageQueue::OPEN_READ_ONLY), Status::SUCCESS)) break;
        // another session sees what was synchronised, in order and without gaps
        auto r = ro.MakeReader(0); int64_t ts; string s; size_t n = 0;
        while (n < log_.size() && r->Read(&ts, &s, 0) == Status::SUCCESS) { CHECK(same(s, log_[n].s) && ts == log_[n].ts, "a read-only session gets the messages in order"); n++; }
        r.reset(); OK(ro.Close(), "Close succeeds"); break; }
    }
  }
  CHECK(q->GetTimestamp() == now, "the queue knows its latest timestamp");
  for (auto& r : readers) { while (r.pos < log_.size()) read(r); read(r); }
  drain(mkts());
  readers.clear(); OK(q->Close(), "Close succeeds");
  q_open(MessageQueue::OPEN_READ_ONLY);
  auto r = q->MakeReader(0); int64_t ts; string s;
  for (auto& m : log_) { OK(r->Read(&ts, &s, 0), "a read-only queue gives every message"); CHECK(same(s, m.s) && ts == m.ts, "a read-only queue gives the messages as written"); }
  CHECK(is(r->Read(&ts, &s, 0), Status::NOT_FOUND_ERROR), "a read-only queue ends after the last message");
  r.reset(); OK(q->Close(), "Close succeeds");
  std::vector<string> paths; OK(MessageQueue::FindFiles(PFX, &paths), "FindFiles succeeds"); CHECK((int)paths.size() == file_id + 1, "a new file is made whenever the size limit is reached");
  for (size_t i = 0; i < paths.size(); i++) { int64_t id, t, sz; OK(MessageQueue::ReadFileMetadata(paths[i], &id, &t, &sz), "ReadFileMetadata succeeds"); CHECK(id == (int64_t)i && sz == rt_file_size(paths[i].c_str()), "the metadata of a closed file is right"); for (auto& m : log_) if (m.file == (int)i) CHECK(t >= m.ts, "the timestamp of a file covers its messages"); }
}
static int last_start() { int n = 32; for (auto& m : log_) if (m.file == file_id) n += 12 + m.s.size(); return n - 12 - (int)log_.back().s.size(); }
static void cut() {
  q_open(); for (int i = 0; i < NPRE; i++) write();
  bool closed = symx_choice(2, "closed");
  if (closed) OK(q->Close(), "Close succeeds"); else OK(q->Synchronize(false), "Synchronize succeeds");
  string path = string(PFX) + ".000000000" + char('0' + file_id);
  int64_t sz = rt_file_size(path.c_str()); int a = last_start(), n = a + (int)symx_choice(sz - a, "cut");
  std::vector<char> b(n + 40); rt_file_get(path.c_str(), 0, b.data(), n);
  int zeros = n == a && symx_choice(2, "zeros") ? 40 : 0;   // the file system may have left zeros where data was never written
  if (!closed) { q.reset(); }
  rt_file_put(path.c_str(), b.data(), n + zeros);
  log_.pop_back(); fsize = a;
  // A clean cut is repaired by itself, a torn message only on demand.
  q = std::make_unique<MessageQueue>(); Status s = q->Open(PFX, MAXSIZE, 0);
  if (n == a) CHECK(is(s, Status::SUCCESS), "a queue cut between messages opens");
  else CHECK(is(s, Status::BROKEN_DATA_ERROR) || is(s, Status::SUCCESS), "a torn tail is reported");
  if (!is(s, Status::SUCCESS)) { q.reset(); q_open(MessageQueue::OPEN_IGNORE_BROKEN); }
  CHECK(rt_file_size(path.c_str()) == a || n == a, "a torn tail is dropped");
  now = q->GetTimestamp(); for (auto& m : log_) CHECK(now >= m.ts, "the timestamp of a repaired queue covers its messages");
  drain(0); write(); write(); drain(0); drain(mkts());
  OK(q->Close(), "Close succeeds"); q_open(); drain(0); OK(q->Close(), "Close succeeds");
}
static void old() {
  q_open(); for (int i = 0; i < NPRE; i++) write();
  OK(q->Close(), "Close succeeds");
  int64_t th = mkts(); bool ex = symx_choice(2, "exclude");
  OK(MessageQueue::RemoveOldFiles(PFX, th, ex), "RemoveOldFiles succeeds");
  std::vector<string> paths; OK(MessageQueue::FindFiles(PFX, &paths), "FindFiles succeeds");
  size_t first = paths.empty() ? file_id + 1 : MessageQueue::GetFileID(paths[0]);
  for (auto& m : log_) if (m.ts >= th) CHECK(m.file >= (int)first, "removal of old files keeps every newer message");
  if (ex) CHECK(!paths.empty(), "the latest file is kept on demand");
  for (auto& m : log_) if (m.file < (int)first) CHECK(m.ts < th, "only older files go");
  { int64_t last = -1; for (auto& m : log_) if (m.file == (int)first) last = m.ts; if (!paths.empty() && last >= 0 && !(ex && (int)first == file_id)) CHECK(now >= th || last >= th, "older files are removed"); }
  size_t skip = 0; while (skip < log_.size() && log_[skip].file < (int)first) skip++;
  if (paths.empty()) { file_id = 0; fsize = 32; now = 0; log_.clear(); skip = 0; }
  q_open(); drain(0, skip); write(); drain(0, skip); OK(q->Close(), "Close succeeds");
}
static void badmeta() {
  // The metadata of the last file is half-written: its two magic bytes differ, or its file ID is wrong.
  q_open(); for (int i = 0; i < NPRE; i++) write();
  OK(q->Close(), "Close succeeds"); string path = string(PFX) + ".000000000" + char('0' + file_id);
  static const int offs[] = {9, 15, 31}; int o = offs[symx_choice(3, "at")];
  unsigned char c = 0, d = (unsigned char)symx_int(0, 255, "byte"); rt_file_get(path.c_str(), o, &c, 1); symx_assume(c != d); rt_file_poke(path.c_str(), o, &d, 1);
  q = std::make_unique<MessageQueue>(); CHECK(is(q->Open(PFX, MAXSIZE, 0), Status::BROKEN_DATA_ERROR), "inconsistent metadata are reported");
  q_open(MessageQueue::OPEN_IGNORE_BROKEN); CHECK(q->GetTimestamp() == now, "the timestamp survives");
  write(); drain(0); OK(q->Close(), "Close succeeds"); q_open(); drain(mkts()); OK(q->Close(), "Close succeeds");
}
static void kill_(void*) { }
static void killed() {
  // Killed before any synchronisation of the last file: complete messages are all there.
  q_open(); for (int i = 0; i < NPRE; i++) write();
  if (symx_choice(2, "sync")) { OK(q->Synchronize(false), "Synchronize succeeds"); write(); }
  q.release(); rt_fs_process_exit();
  q_open(); int64_t t = q->GetTimestamp(); for (auto& m : log_) CHECK(t >= m.ts, "the timestamp of a reopened queue covers its messages");
  now = t; drain(0); write(); write(); drain(0); drain(mkts()); OK(q->Close(), "Close succeeds");
  q_open(); drain(mkts()); OK(q->Close(), "Close succeeds");
}
extern "C" void symx_main(void) {
  MakeDirectory("/tmp/q");
  if (MODE == 1) history(); else if (MODE == 2) cut(); else if (MODE == 3) old(); else if (MODE == 5) badmeta(); else killed();
  q.reset(); (void)kill_; symx_observe_int("messages", log_.size()); symx_reach("end");
}
