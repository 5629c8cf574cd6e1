// Shared helpers of the harnesses.
#pragma once
#include <string>
#include <string_view>
#include <vector>
#include <map>
#include <memory>
#include <cstring>
#include <algorithm>
#include "symx.h"
#include "tkrzw_sys_config.h"
#include "tkrzw_lib_common.h"
#include "tkrzw_str_util.h"
#include "tkrzw_file.h"
#include "tkrzw_file_mmap.h"
#include "tkrzw_file_pos.h"
#include "tkrzw_file_std.h"
#include "tkrzw_file_util.h"
#include "tkrzw_dbm.h"
using namespace tkrzw;
using std::string;
using std::string_view;

// A property obligation, named after the observable that is compared.
#define CHECK(c, msg) symx_assert((c) ? 1 : 0, msg)
#define OK(expr, msg) do { const Status st_ = (expr); CHECK(st_ == Status::SUCCESS, msg); } while (0)

static inline string symstr(size_t n, const char* name) {
  string s(n, '\0');
  if (n) symx_make_symbolic(&s[0], n, name);
  return s;
}
// byte-wise equality without early exit (one formula instead of a fork per byte)
static inline bool same(string_view a, string_view b) { return a.size() == b.size() && (a.empty() || __builtin_memcmp(a.data(), b.data(), a.size()) == 0); }

struct Model {
  struct Rec { string k, v; };
  std::vector<Rec> r;
  Rec* find(string_view k) { for (auto& x : r) if (same(x.k, k)) return &x; return nullptr; }
  void set(string_view k, string_view v) { Rec* x = find(k); if (x) x->v = string(v); else r.push_back({string(k), string(v)}); }
  bool del(string_view k) { for (size_t i = 0; i < r.size(); i++) if (same(r[i].k, k)) { r.erase(r.begin() + i); return true; } return false; }
  void sort() { // insertion sort on byte order; forks only where the order is undecided
    for (size_t i = 1; i < r.size(); i++) for (size_t j = i; j > 0 && r[j].k < r[j - 1].k; j--) std::swap(r[j], r[j - 1]);
  }
};
static inline bool is(const Status& s, Status::Code c) { return s.GetCode() == c; }

// copies everything the iterator yields
struct Collect : public DBM::RecordProcessor {
  std::vector<std::pair<string, string>> recs; int empties = 0;
  string_view ProcessFull(string_view k, string_view v) override { recs.emplace_back(string(k), string(v)); return NOOP; }
  string_view ProcessEmpty(string_view k) override { empties++; return NOOP; }
};
