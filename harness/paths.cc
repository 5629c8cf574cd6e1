// Path utilities over all short paths, whole-file helpers over sequences of operations.
#include "h.h"
#ifndef PART
#define PART norm
#endif
#ifndef L
#define L 5
#endif
#ifndef LENS
#define LENS 1
#endif
#ifndef NOPS
#define NOPS 3
#endif
typedef std::vector<string> Elems;
static string path(int n, const char* nm) {   // every path of up to n characters out of / . a b (and any other byte)
  int len = symx_choice(n + 1, "len"); string s = symstr(len, nm);
#ifdef ELEMS
  s.clear(); if (symx_choice(2, "abs")) s = "/";
  for (int i = 0; i < len; i++) { static const char* const al[] = {"..", "a", ".", "b.c", "..."}; s += (i ? "/" : "") + string(al[symx_choice(5, "elem")]); }
  if (len && symx_choice(2, "trail")) s += "/";
#elif !defined(ANYBYTE)
  for (auto& c : s) { static const char al[] = "/.ab"; c = al[symx_choice(4, "char")]; }
#else
  for (auto& c : s) symx_assume(c != 0);
#endif
  return s;
}
static void norm() {
  string p = path(L, "path"), n = NormalizePath(p); bool abs = !p.empty() && p[0] == '/'; Elems st;
  for (size_t i = 0; i < p.size();) {
    size_t e = i; while (e < p.size() && p[e] != '/') e++;
    string x = p.substr(i, e - i); i = e + 1;
    if (x.empty() || x == ".") continue;
    if (x == "..") { if (!st.empty() && st.back() != "..") st.pop_back(); else if (!abs) st.push_back(x); } else st.push_back(x);
  }
  string want = abs ? "/" : ""; for (size_t i = 0; i < st.size(); i++) { if (i) want += "/"; want += st[i]; }
  CHECK(n == want, "NormalizePath resolves every element lexically"); CHECK(NormalizePath(n) == n, "a normalized path stays as it is");
}
static void split() {
  string p = path(L, "path"), b = PathToBaseName(p), d = PathToDirectoryName(p), x = PathToExtension(p);
  size_t e = p.size(); while (e > 1 && p[e - 1] == '/') e--;
  string t = p.substr(0, e), wb, wd; int64_t s = -1; for (size_t i = 0; i < t.size(); i++) if (t[i] == '/') s = i;
  if (t == "/") { wb = "/"; wd = "/"; } else { wb = t.substr(s + 1); wd = s < 0 ? "." : s == 0 ? "/" : t.substr(0, s); }
  CHECK(b == wb, "PathToBaseName gives the last element"); CHECK(d == wd, "PathToDirectoryName gives what is before the last element");
  int64_t dot = -1; for (size_t i = 0; i < wb.size(); i++) if (wb[i] == '.') dot = i;
  CHECK(x == (dot < 0 ? "" : wb.substr(dot + 1)), "PathToExtension gives what is after the last dot of the base name");
  if (s > 0 && t[s - 1] != '/') CHECK(JoinPath(d, b) == t, "joining the directory and base names gives the path back");
}
static void join() {
  string a = path(L / 2 + 1, "base"), c = path(L / 2, "child"), j = JoinPath(a, c), want = c.empty() ? a : c[0] == '/' ? c : a.empty() ? "/" + c : a.back() == '/' ? a + c : a + "/" + c;
  CHECK(j == want, "JoinPath puts one separator in between");
}
// ---- files ----
struct Node { string path; bool dir; string data; };
static std::vector<Node> fs;
static Node* at(const string& p) { for (auto& n : fs) if (n.path == p) return &n; return nullptr; }
static void drop(const string& p) { for (size_t i = 0; i < fs.size(); i++) if (fs[i].path == p) { fs.erase(fs.begin() + i); return; } }
static const string R = "/tmp/w";
static string pick(const char* nm) { static const char* const names[] = {"/f", "/g", "/d", "/d/h", "/no/x"}; return R + names[symx_choice(5, nm)]; }
static bool parent(const string& p) { string d = p.substr(0, p.rfind('/')); if (d == R) return true; auto* n = at(d); return n && n->dir; }
static void put(const string& p, const string& data) { if (auto* n = at(p)) n->data = data; else fs.push_back({p, false, data}); }
static bool haskids(const string& p) { for (auto& n : fs) if (n.path.size() > p.size() && n.path.compare(0, p.size() + 1, p + "/") == 0) return true; return false; }
static string data() { static const int ls[] = {LENS}; int n = ls[symx_choice(sizeof ls / sizeof *ls, "n")]; string s(n, 'w'); if (n) { symx_make_symbolic(&s[0], 1, "first"); symx_make_symbolic(&s[n - 1], 1, "last"); } return s; }
static void audit() {
  for (const char* s : {"/f", "/g", "/d", "/d/h", "/no/x", "/f.tmp", "/g.tmp", "/d/h.tmp", "/d.tmp", "/t"}) {
    string p = R + s; auto* n = at(p); FileStatus st; Status r = ReadFileStatus(p, &st);
    CHECK(is(r, n ? Status::SUCCESS : Status::NOT_FOUND_ERROR), "ReadFileStatus finds exactly what exists");
    CHECK(PathIsFile(p) == (n && !n->dir) && PathIsDirectory(p) == (n && n->dir), "PathIsFile and PathIsDirectory tell the kind");
    CHECK(GetFileSize(p) == (n && !n->dir ? (int64_t)n->data.size() : -1), "GetFileSize gives the size of files only");
    if (n && !n->dir) { string c = "?"; OK(ReadFile(p, &c), "ReadFile succeeds"); CHECK(same(c, n->data), "ReadFile gives the content"); CHECK(st.is_file && !st.is_directory && st.file_size == (int64_t)n->data.size(), "the status describes the file"); }
    else if (!n) { string c; CHECK(is(ReadFile(p, &c), Status::NOT_FOUND_ERROR), "ReadFile of a missing file reports NOT_FOUND"); CHECK(ReadFileSimple(p, "dflt") == "dflt", "ReadFileSimple gives the default"); }
  }
  std::vector<string> kids{"junk"}; OK(ReadDirectory(R, &kids), "ReadDirectory succeeds"); size_t top = 0; for (auto& n : fs) top += n.path.rfind('/') == R.size(); CHECK(kids.size() == top, "ReadDirectory lists every child once");
  for (auto& k : kids) CHECK(at(R + "/" + k) != nullptr, "ReadDirectory lists children only");
}
static void files() {
  OK(MakeDirectory(R), "MakeDirectory succeeds"); OK(WriteFile(R + "/f", "first"), "WriteFile succeeds"); put(R + "/f", "first");
  if (symx_choice(2, "sub")) { OK(MakeDirectory(R + "/d"), "MakeDirectory succeeds"); fs.push_back({R + "/d", true, ""}); OK(WriteFile(R + "/d/h", "sub"), "WriteFile succeeds"); put(R + "/d/h", "sub"); }
  for (int i = 0; i < NOPS; i++) {
    string p = pick("path"); auto* n = at(p); bool isdir = n && n->dir;
    switch (symx_choice(9, "op")) {
      case 0: { string c = data(); Status s = WriteFile(p, c); bool ok = parent(p) && !isdir; CHECK((s == Status::SUCCESS) == ok, "WriteFile succeeds exactly when the file can exist"); if (ok) put(p, c); break; }
      case 1: { string c = data(); bool tmp = symx_choice(2, "tmp"); Status s = WriteFileAtomic(p, c, tmp ? R + "/t" : ""); bool ok = parent(p) && !isdir; CHECK((s == Status::SUCCESS) == ok, "WriteFileAtomic succeeds exactly when the file can exist"); if (ok) put(p, c); break; }
      case 2: { string c = "?"; int64_t max = symx_choice(4, "max") * 2; Status s = ReadFile(p, &c, max); if (n && !isdir) CHECK(is(s, Status::SUCCESS) && same(c, n->data.substr(0, max)), "ReadFile gives up to the maximum size"); else CHECK(s != Status::SUCCESS || (isdir && max == 0), "ReadFile of what is no file fails"); break; }
      case 3: { int64_t z = symx_choice(4, "size") * 3; Status s = TruncateFile(p, z); bool ok = n && !isdir; CHECK((s == Status::SUCCESS) == ok, "TruncateFile succeeds exactly on files"); if (ok) n->data.resize(z, '\0'); break; }
      case 4: { Status s = RemoveFile(p); bool ok = n && !isdir; CHECK((s == Status::SUCCESS) == ok, "RemoveFile succeeds exactly on files"); if (!n) CHECK(is(s, Status::NOT_FOUND_ERROR), "RemoveFile of a missing file reports NOT_FOUND"); if (ok) drop(p); break; }
      case 5: { string q = pick("dest"); auto* m = at(q); if (p == q || (isdir && q.compare(0, p.size(), p) == 0) || (isdir && m)) break; Status s = RenameFile(p, q); bool ok = n && parent(q) && !(m && m->dir != n->dir); CHECK((s == Status::SUCCESS) == ok, "RenameFile succeeds exactly when it can");
        if (ok) { Node x = *n; if (m) drop(q); drop(p); fs.push_back({q, x.dir, x.data}); if (x.dir) for (auto& k : fs) if (k.path.size() > p.size() && k.path.compare(0, p.size() + 1, p + "/") == 0) k.path = q + k.path.substr(p.size()); } break; }
      case 6: { string q = pick("dest"); auto* m = at(q); if (p == q) break; Status s = CopyFileData(p, q); bool ok = n && !isdir && parent(q) && !(m && m->dir); if (!isdir) CHECK((s == Status::SUCCESS) == ok, "CopyFileData succeeds exactly when it can"); if (isdir) { if (parent(q) && !(m && m->dir)) symx_silent_end(); break; } if (ok) { string c = n->data; put(q, c); } break; }
      case 7: { bool rec = symx_choice(2, "rec"); string q = rec && symx_choice(2, "deep") ? p + "/../" + p.substr(p.rfind('/') + 1) : p; Status s = MakeDirectory(q, rec); bool ok = rec ? !(n && !isdir) && (parent(p) || p == R + "/no/x" || (p == R + "/d/h" && !at(R + "/d"))) : !n && parent(p); CHECK((s == Status::SUCCESS) == ok, "MakeDirectory succeeds exactly when it can");
        if (ok && !n) { string d = p.substr(0, p.rfind('/')); if (d != R && !at(d)) fs.push_back({d, true, ""}); fs.push_back({p, true, ""}); } break; }
      case 8: { bool rec = symx_choice(2, "rec"); Status s = RemoveDirectory(p, rec); bool ok = isdir && (rec || !haskids(p)); CHECK((s == Status::SUCCESS) == ok, "RemoveDirectory succeeds exactly when it can"); if (ok) { for (size_t k = fs.size(); k-- > 0;) if (fs[k].path == p || fs[k].path.compare(0, p.size() + 1, p + "/") == 0) fs.erase(fs.begin() + k); } break; }
    }
  }
  audit(); CHECK(rt_open_fds() == 0, "no descriptor is left open");
}
static void big() {   // contents around the sizes of the buffers
  static const int ls[] = {8191, 8192, 8193, 65535, 65536, 65537, 131073}; int n = ls[symx_choice(7, "n")]; OK(MakeDirectory(R), "MakeDirectory");
  string c(n, 0); for (int i = 0; i < n; i++) c[i] = i * 7 + (i >> 8); symx_make_symbolic(&c[n - 1], 1, "last"); symx_make_symbolic(&c[n / 2], 1, "middle"); bool over = symx_choice(2, "over"); if (over) OK(WriteFile(R + "/g", string(200000, 'o')), "WriteFile");
  OK(WriteFile(R + "/f", c), "WriteFile succeeds"); OK(CopyFileData(R + "/f", R + "/g"), "CopyFileData succeeds"); put(R + "/f", c); put(R + "/g", c); audit();
  string d; OK(ReadFile(R + "/g", &d, n - 1), "ReadFile succeeds"); CHECK(same(d, string_view(c).substr(0, n - 1)), "ReadFile stops at the maximum size");
}
static void tempdir() {
  string p; bool clean = symx_choice(2, "cleanup");
  { TemporaryDirectory t(clean, "pre-", symx_choice(2, "base") ? "/tmp" : ""); OK(t.CreationStatus(), "creating succeeds"); p = t.Path(); CHECK(PathIsDirectory(p) && p.compare(0, 9, "/tmp/pre-") == 0, "the directory is under the base with the prefix");
    string a = t.MakeUniquePath("a", ".x"), b = t.MakeUniquePath("a", ".x"); CHECK(a != b && PathToDirectoryName(a) == p && PathToExtension(a) == "x", "unique paths differ");
    OK(WriteFile(a, "1"), "WriteFile"); if (symx_choice(2, "sub")) { OK(MakeDirectory(b), "MakeDirectory"); OK(WriteFile(b + "/z", "2"), "WriteFile"); }
    if (symx_choice(2, "now")) { OK(t.CleanUp(), "CleanUp succeeds"); std::vector<string> k; OK(ReadDirectory(p, &k), "the directory remains"); CHECK(k.empty(), "CleanUp removes every child"); } }
  CHECK(PathIsDirectory(p) == !clean, "the directory is removed at the end exactly when asked");
}
extern "C" void symx_main() { PART(); symx_reach("end"); }
