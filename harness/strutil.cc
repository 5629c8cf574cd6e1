// Text encodings, number parsing and string functions against their plain definitions.
#include "h.h"
#ifndef RKP
#define RKP 2
#endif
#ifndef RKMORE
#define RKMORE 0
#endif
#ifndef L
#define L 4
#endif
#ifndef PL
#define PL 3
#endif
typedef std::vector<int32_t> Pos;
typedef std::vector<string> Strs;
static string any(int max, const char* n, int min = 0) { return symstr(min + symx_choice(max - min + 1, "len"), n); }
static bool alnum(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static char lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static char upper(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static string lower(string_view s) { string r; for (char c : s) r += lower(c); return r; }
static string upper(string_view s) { string r; for (char c : s) r += upper(c); return r; }

// ---- C12
static void esc_c() {
  string s = any(L, "s"); bool na = symx_choice(2, "nonasc");
  string e = StrEscapeC(s, na);
  CHECK(same(StrUnescapeC(e), s), "StrUnescapeC undoes StrEscapeC");
  for (unsigned char c : e) CHECK(c >= ' ' && c != 0x7f && (!na || c < 0x80), "an escaped string has no control characters");
}
static void base64() {
  string s = any(L, "s"); string e = StrEncodeBase64(s);
  CHECK(e.size() == (s.size() + 2) / 3 * 4, "four characters per three bytes");
  CHECK(same(StrDecodeBase64(e), s), "StrDecodeBase64 undoes StrEncodeBase64");
  static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  for (size_t i = 0; i < e.size(); i++) { // the sextets of RFC 4648
    size_t bit = i * 6, by = bit / 8; unsigned w = (by < s.size() ? (unsigned char)s[by] << 8 : 0) | (by + 1 < s.size() ? (unsigned char)s[by + 1] : 0);
    char want = bit >= s.size() * 8 ? '=' : t[(w >> (10 - bit % 8)) & 63];
    CHECK(e[i] == want, "each character is its sextet of RFC 4648");
  }
  string sp; for (size_t i = 0; i < e.size(); i++) { sp += e[i]; if (i % 2) sp += "\r\n"; }
  CHECK(same(StrDecodeBase64(sp), s), "line breaks are ignored by decoding");
}
static void url() {
  string s = any(L, "s"); string e = StrEncodeURL(s);
  CHECK(same(StrDecodeURL(e), s), "StrDecodeURL undoes StrEncodeURL");
  for (unsigned char c : e) CHECK(alnum(c) || c == '%' || c == '-' || c == '_' || c == '.' || c == '~', "an encoded string has only unreserved characters");
  CHECK(same(StrDecodeURL(upper(e)), upper(s)) || !s.empty(), "empty"); 
}
static void tsv() {
  string s = any(L, "s"); bool keep = symx_choice(2, "keep"); string e = StrTrimForTSV(s, keep);
  CHECK(e.size() == s.size(), "trimming keeps the length");
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = s[i]; bool ctl = c <= ' ' || c == 0x7f;
    CHECK(e[i] == (char)(ctl && !(keep && c == '\t') ? ' ' : c), "control characters become spaces, others stay");
  }
}
static void intdec() {  // optional blanks, sign, blanks, digits, rest
  int64_t v = 0; string s; int n = symx_choice(6, "ndigits"); if (n == 5) n = 7;
  int sg = symx_choice(3, "sign"), bl = symx_choice(3, "blank");
  if (bl) { char b; symx_make_symbolic(&b, 1, "blank"); symx_assume((unsigned char)b <= ' '); s += b; }
  if (sg) s += sg == 1 ? '-' : '+';
  if (bl == 2) s += ' ';
  for (int i = 0; i < n; i++) { char d; symx_make_symbolic(&d, 1, "digit"); symx_assume(d >= '0' && d <= '9'); s += d; v = v * 10 + (d - '0'); }
  if (symx_choice(2, "rest")) { char c; symx_make_symbolic(&c, 1, "rest"); symx_assume(!(c >= '0' && c <= '9')); if (!n) symx_assume((unsigned char)c > ' ' && c != '-' && c != '+'); s += c; s += "7"; if (!n) { } }
  if (sg == 1) v = -v;
  if (n) { CHECK(StrToInt(s, 99) == v, "StrToInt gives the denoted number"); }
  else CHECK(StrToInt(s, 99) == 99, "StrToInt of no number gives the default");
}
static void intlimits() {
  CHECK(StrToInt("9223372036854775807") == INT64MAX && StrToInt("-9223372036854775808") == INT64MIN, "the limits parse");
  CHECK(same(ToString(INT64MAX), "9223372036854775807") && same(ToString(INT64MIN), "-9223372036854775808") && same(ToString(UINT64MAX), "18446744073709551615"), "the limits print");
  int16_t v; symx_make_symbolic(&v, 2, "v"); v = symx_concretize(v & 0x3ff) * (symx_choice(2, "neg") ? -31 : 7);
  CHECK(StrToInt(ToString(v)) == v && StrToDouble(ToString(v)) == v && StrToIntMetric(ToString(v)) == v, "decimal formatting parses back");
  CHECK(StrToIntOrBool(ToString(v)) == v && StrToBool("true") && StrToBool("1") && StrToBool("yes") && !StrToBool("false", true) && !StrToBool("no", true), "booleans");
  const string_view null; CHECK(StrToInt(null, 3) == 3 && StrToIntMetric(null, 3) == 3 && StrToIntHex(null, 3) == 3 && StrToIntOct(null, 3) == 3 && StrToDouble(null, 3) == 3 && !StrToBool(null), "null views have the default value");
}
static void inthex() {
  string s; uint64_t v = 0; int n = 1 + symx_choice(5, "n"); if (n == 5) n = 16; bool x = symx_choice(2, "0x");
  if (x) s = symx_choice(2, "X") ? "0X" : "0x";
  for (int i = 0; i < n; i++) { char d; symx_make_symbolic(&d, 1, "digit"); int h = d >= '0' && d <= '9' ? d - '0' : d >= 'a' && d <= 'f' ? d - 'a' + 10 : d >= 'A' && d <= 'F' ? d - 'A' + 10 : -1; symx_assume(h >= 0); if (n == 16) symx_assume(d < 'a' && (i % 2 ? d <= '9' : d >= 'A')); s += d; v = v * 16 + h; }
  if (symx_choice(2, "rest")) s += "g1";
  CHECK(StrToIntHex(s, 5) == v, "StrToIntHex gives the denoted number");
  CHECK(StrToIntHex("g", 5) == 5 && StrToIntHex("0x", 5) == 5, "no hexadecimal number");
}
static void intoct() {
  string s; uint64_t v = 0; int n = 1 + symx_choice(5, "n"); if (n == 5) n = 21;
  for (int i = 0; i < n; i++) { char d; symx_make_symbolic(&d, 1, "digit"); symx_assume(d >= '0' && d <= '7'); s += d; v = v * 8 + (d - '0'); }
  if (symx_choice(2, "rest")) { char c; symx_make_symbolic(&c, 1, "rest"); symx_assume(!(c >= '0' && c <= '7')); s += c; s += "1"; }
  CHECK(StrToIntOct(s, 5) == v, "StrToIntOct gives the denoted number");
  CHECK(StrToIntOct("8", 5) == 5 && StrToIntOct("", 5) == 5, "no octal number");
}
static void metric() {
  string s; int64_t v = 0; int n = 1 + symx_choice(2, "n"), neg = symx_choice(2, "neg"); if (neg) s = "-";
  for (int i = 0; i < n; i++) { char d; symx_make_symbolic(&d, 1, "digit"); symx_assume(d >= '0' && d <= '9'); d = symx_concretize(d); s += d; v = v * 10 + (d - '0'); }
  static const char* suf = "kmgtpe"; int k = symx_choice(7, "suffix"); bool bin = k < 6 && symx_choice(2, "i"), up = k < 6 && symx_choice(2, "up");
  if (symx_choice(2, "space")) s += ' ';
  if (k == 5 && bin && v == 8 && !neg) return;  // 2^63: the result depends on the width of long double, which is 64 bits here
  uint64_t m = 1; bool sat = false;
  if (k < 6) { s += up ? suf[k] - 32 : suf[k]; if (bin) s += up ? 'I' : 'i'; for (int i = 0; i <= k; i++) m *= bin ? 1024 : 1000; }
  if (v && (uint64_t)v > (1ULL << 63) / m) sat = true;
  uint64_t w = v * m; if (w == 1ULL << 63 && !neg) sat = true;
  int64_t want = sat ? (neg ? INT64MIN : INT64MAX) : neg ? -(int64_t)w : (int64_t)w;
  CHECK(StrToIntMetric(s, 7) == want, "StrToIntMetric gives the denoted number, saturated");
  CHECK(StrToIntMetric("1.5k") == 1500 && StrToIntMetric("0.5Ki") == 512 && StrToIntMetric("k", 7) == 7 && StrToIntMetric("", 7) == 7, "fractions and defaults");
}
static void dbl() {
  string s; int n = 1 + symx_choice(3, "n"), f = symx_choice(3, "f"), neg = symx_choice(2, "neg"), ex = symx_choice(4, "exp"); double v = 0; if (neg) s = "-";
  for (int i = 0; i < n; i++) { char d = '0' + symx_choice(i ? 10 : 3, "d"); s += d; v = v * 10 + (d - '0'); }
  if (f) { s += '.'; double b = 1; for (int i = 0; i < f; i++) { char d = i ? '5' : "05"[symx_choice(2, "fd")]; if (i == 0) { s += d; b /= 10; v += (d - '0') * 0.1; } else s += '0'; } }
  if (neg) v = -v;
  if (ex == 1) { s += "e2"; v *= 100; } else if (ex == 2) { s += "E+1"; v *= 10; }
  CHECK(StrToDouble(s) == v, "StrToDouble gives the denoted number");
  CHECK(StrToDouble("inf") > 1e308 && StrToDouble("-INF") < -1e308 && StrToDouble("nan") != StrToDouble("nan") && StrToDouble("x", 2.5) == 2.5, "special values");
}

// ---- C13
static int32_t plain(string_view t, string_view p, size_t from = 0) {
  for (size_t i = from; i + p.size() <= t.size(); i++) if (same(t.substr(i, p.size()), p)) return i;
  return -1;
}
static Pos whole(string_view t, string_view p, size_t max) {
  Pos r; for (size_t i = 0; i + p.size() <= t.size() && i < t.size(); i++) if (same(t.substr(i, p.size()), p)) { r.push_back(i); if (max && r.size() == max) break; }
  return r;
}
#ifdef ALPHA
static string text(int max, const char* n, int min = 0) { static const unsigned char a[] = {ALPHA}; string s(min + symx_choice(max - min + 1, "len"), 0); for (auto& c : s) { symx_make_symbolic(&c, 1, n); int ok = 0; for (unsigned char x : a) ok |= (unsigned char)c == x; symx_assume(ok); } return s; }
#else
#define text any
#endif
static void search() {
  string t = text(L, "text"), p = text(PL, "pattern"); int32_t want = plain(t, p);
  switch (symx_choice(8, "algorithm")) {
    case 0: CHECK(StrSearch(t, p) == want, "StrSearch finds the first occurrence"); CHECK(StrContains(t, p) == (want >= 0), "StrContains"); break;
    case 1: CHECK(StrSearchDoubleLoop(t, p) == want, "StrSearchDoubleLoop finds the first occurrence"); break;
    case 2: CHECK(StrSearchMemchr(t, p) == want, "StrSearchMemchr finds the first occurrence"); break;
    case 3: CHECK(StrSearchMemmem(t, p) == want, "StrSearchMemmem finds the first occurrence"); break;
    case 4: CHECK(StrSearchKMP(t, p) == want, "StrSearchKMP finds the first occurrence"); break;
    case 5: CHECK(StrSearchBM(t, p) == want, "StrSearchBM finds the first occurrence"); break;
    case 6: CHECK(StrSearchRK(t, p) == want, "StrSearchRK finds the first occurrence"); break;
    case 7: CHECK(StrSearchZ(t, p) == want, "StrSearchZ finds the first occurrence"); break;
  }
}
static void searchwhole() {
  string t = text(L, "text"), p = text(PL, "pattern"); size_t max = symx_choice(3, "max"); Pos want = whole(t, p, max);
  switch (symx_choice(4, "algorithm")) {
    case 0: CHECK(StrSearchWhole(t, p, max) == want, "StrSearchWhole finds every occurrence"); break;
    case 1: CHECK(StrSearchWholeKMP(t, p, max) == want, "StrSearchWholeKMP finds every occurrence"); break;
    case 2: CHECK(StrSearchWholeBM(t, p, max) == want, "StrSearchWholeBM finds every occurrence"); break;
    case 3: CHECK(StrSearchWholeRK(t, p, max) == want, "StrSearchWholeRK finds every occurrence"); break;
  }
}
// rolling hashes may collide: only real occurrences count
static void rkcoll() {
  static const char* const pats[] = {"xyz", "\xff\x01q", "pqrs", "abcab"};
  string p = pats[symx_choice(RKP, "pattern")], t(p.size() + symx_choice(RKMORE + 1, "more"), 0); symx_make_symbolic(&t[0], t.size(), "text");
  std::vector<int32_t> all; for (size_t i = 0; i + p.size() <= t.size(); i++) if (memcmp(t.data() + i, p.data(), p.size()) == 0) all.push_back(i);
  switch (symx_choice(3, "fn")) {
    case 0: CHECK(StrSearchRK(t, p) == (all.empty() ? -1 : all[0]), "StrSearchRK finds the first occurrence"); break;
    case 1: CHECK(StrSearchWholeRK(t, p, 0) == all, "StrSearchWholeRK finds every occurrence"); break;
    case 2: CHECK(StrSearchBatchRK(t, {p, "x"}, 0)[0] == all, "StrSearchBatchRK finds every occurrence of every pattern"); break;
  }
}
static void batch() {
  string t = text(L, "text"); Strs ps{text(PL, "pattern"), text(PL, "pattern")}; size_t max = symx_choice(2, "max"); std::vector<Pos> want{whole(t, ps[0], max), whole(t, ps[1], max)};
  CHECK(StrContainsBatch(t, ps) == (plain(t, ps[0]) >= 0 || plain(t, ps[1]) >= 0), "StrContainsBatch");
  switch (symx_choice(4, "algorithm")) {
    case 0: CHECK(StrSearchBatch(t, ps, max) == want, "StrSearchBatch finds every occurrence of every pattern"); break;
    case 1: CHECK(StrSearchBatchKMP(t, ps, max) == want, "StrSearchBatchKMP finds every occurrence of every pattern"); break;
    case 2: CHECK(StrSearchBatchBM(t, ps, max) == want, "StrSearchBatchBM finds every occurrence of every pattern"); break;
    case 3: CHECK(StrSearchBatchRK(t, ps, max) == want, "StrSearchBatchRK finds every occurrence of every pattern"); break;
  }
}
static bool wordat(string_view t, string_view p, size_t i) {
  if (!same(t.substr(i, p.size()), p)) return false;
  if (i > 0 && alnum(t[i - 1]) && alnum(t[i])) return false;
  size_t e = i + p.size();
  return !(e < t.size() && alnum(t[e]) && alnum(t[e - 1]));
}
static int32_t word(string_view t, string_view p) { if (p.empty()) return 0; for (size_t i = 0; i + p.size() <= t.size(); i++) if (wordat(t, p, i)) return i; return -1; }
static void words() {
  string t = text(L, "text"), p = text(PL, "pattern"), tl = lower(t), pl = lower(p);
  switch (symx_choice(4, "f")) {
    case 0: CHECK(StrCaseSearch(t, p) == plain(tl, pl), "StrCaseSearch is a search over lower-cased strings"); CHECK(StrCaseContains(t, p) == (plain(tl, pl) >= 0) && StrCaseContainsBatch(t, {"Qqqqq", p}) == (plain(tl, pl) >= 0), "StrCaseContains"); break;
    case 1: CHECK(StrWordSearch(t, p) == word(t, p), "StrWordSearch finds the first occurrence at word boundaries"); CHECK(StrWordContains(t, p) == (word(t, p) >= 0) && StrWordContainsBatch(t, {"Qqqqq", p}) == (word(t, p) >= 0), "StrWordContains"); break;
    case 2: CHECK(StrCaseWordSearch(t, p) == word(tl, pl), "StrCaseWordSearch finds the first occurrence at word boundaries"); CHECK(StrCaseWordContains(t, p) == (word(tl, pl) >= 0) && StrCaseWordContainsBatch(t, {"Qqqqq", p}) == (word(tl, pl) >= 0), "StrCaseWordContains"); break;
    case 3: CHECK(StrCaseWordContainsBatchLower(t, {"qqqqq", pl}) == (word(tl, pl) >= 0), "StrCaseWordContainsBatchLower"); break;
  }
}
static void affix() {
  string t = any(L, "text"), p = any(PL, "pattern");
  CHECK(StrBeginsWith(t, p) == (p.size() <= t.size() && same(string_view(t).substr(0, p.size()), p)), "StrBeginsWith");
  CHECK(StrEndsWith(t, p) == (p.size() <= t.size() && same(string_view(t).substr(t.size() - p.size()), p)), "StrEndsWith");
}
static void cases() {
  string t = any(L, "text"), p = any(L, "other");
  string u(t), l(t); StrUpperCase(&u); StrLowerCase(&l);
  CHECK(same(StrUpperCase(t), upper(t)) && same(u, upper(t)), "StrUpperCase"); CHECK(same(StrLowerCase(t), lower(t)) && same(l, lower(t)), "StrLowerCase");
  int c = StrCaseCompare(t, p), w = lower(t).compare(lower(p)); CHECK((c < 0) == (w < 0) && (c > 0) == (w > 0), "StrCaseCompare is the order of the lower-cased strings");
}
static void strip() {
  string t = any(L, "text"); auto sp = [](unsigned char c) { return c <= ' '; };
  size_t b = 0, e = t.size(); while (b < e && sp(t[b])) b++; while (e > b && sp(t[e - 1])) e--;
  string st = t.substr(b, e - b), sq; for (size_t i = 0; i < st.size(); i++) if (!(sp(st[i]) && i && sp(st[i - 1]))) sq += st[i];
  CHECK(same(StrStripSpace(t), st), "StrStripSpace removes blanks at both ends");
  CHECK(same(StrSqueezeAndStripSpace(t), sq), "StrSqueezeAndStripSpace keeps one blank of each run");
  e = t.size(); while (e && (t[e - 1] == '\n' || t[e - 1] == '\r')) e--;
  string u(t); StrStripLine(&u); CHECK(same(StrStripLine(t), t.substr(0, e)) && same(u, t.substr(0, e)), "StrStripLine removes line ends at the end");
}
static Strs splitref(string_view t, std::vector<std::pair<size_t, size_t>> cuts, bool skip) {
  Strs r; size_t b = 0; for (auto& c : cuts) { if (!skip || c.first > b) r.emplace_back(t.substr(b, c.first - b)); b = c.second; }
  if (!skip || b < t.size()) r.emplace_back(t.substr(b)); return r;
}
static void split() {
  string t = any(L, "text"), d = any(2, "delim"); bool skip = symx_choice(2, "skip"); std::vector<std::pair<size_t, size_t>> c1, cs, ca;
  switch (symx_choice(3, "f")) {
    case 0: if (d.size() == 1) { for (size_t i = 0; i < t.size(); i++) if (t[i] == d[0]) c1.emplace_back(i, i + 1); CHECK(StrSplit(t, d[0], skip) == splitref(t, c1, skip), "StrSplit by a character"); CHECK(skip || same(StrJoin(StrSplit(t, d[0]), d), t), "StrJoin undoes StrSplit"); } break;
    case 1: { if (d.empty()) { Strs one; for (char c : t) one.push_back(string(1, c)); CHECK(StrSplit(t, "", skip) == one, "StrSplit by nothing gives the characters"); break; }
      size_t i = 0; while (i + d.size() <= t.size()) { if (same(string_view(t).substr(i, d.size()), d)) { cs.emplace_back(i, i + d.size()); i += d.size(); } else i++; }
      CHECK(StrSplit(t, d, skip) == splitref(t, cs, skip), "StrSplit by a string"); CHECK(skip || same(StrJoin(StrSplit(t, d), d), t), "StrJoin undoes StrSplit"); break; }
    case 2: for (size_t i = 0; i < t.size(); i++) { bool m = false; for (char c : d) if (c == t[i]) m = true; if (m) ca.emplace_back(i, i + 1); } CHECK(StrSplitAny(t, d, skip) == splitref(t, ca, skip), "StrSplitAny"); break;
  }
}
static void splitmap() {
  string t = any(L, "text"); std::map<string, string> want; size_t b = 0;
  for (size_t i = 0; i <= t.size(); i++) if (i == t.size() || t[i] == ',') { string r = t.substr(b, i - b); b = i + 1; int q = plain(r, "="); if (q >= 0) want.emplace(r.substr(0, q), r.substr(q + 1)); }
  CHECK(StrSplitIntoMap(t, ",", "=") == want, "StrSplitIntoMap");
}
static void replace() {
  string t = any(L, "text"), b = any(2, "before"), a = any(2, "after"); string want; size_t i = 0;
  if (symx_choice(2, "f")) {
    while (i < t.size()) { if (!b.empty() && i + b.size() <= t.size() && same(string_view(t).substr(i, b.size()), b)) { want += a; i += b.size(); } else want += t[i++]; }
    CHECK(same(StrReplace(t, b, a), want), "StrReplace replaces every occurrence from the left");
  } else {
    for (char c : t) { size_t j = 0; while (j < b.size() && b[j] != c) j++; if (j == b.size()) want += c; else if (j < a.size()) want += a[j]; }
    string u(t); StrReplaceCharacters(&u, b, a); CHECK(same(u, want), "StrReplaceCharacters translates characters");
  }
}
static int lev(string_view a, string_view b) {  // by recursion on the last characters
  if (a.empty()) return b.size(); if (b.empty()) return a.size();
  string_view x = a.substr(0, a.size() - 1), y = b.substr(0, b.size() - 1);
  int r = lev(x, y) + (a.back() != b.back()), d = lev(x, b) + 1, i = lev(a, y) + 1; if (d < r) r = d; if (i < r) r = i; return r;
}
static void dist() {
  string a = any(L, "a"), b = any(L, "b");
  CHECK(EditDistanceLev<string_view>(a, b) == lev(a, b), "EditDistanceLev is the least number of edits");
  if (symx_choice(2, "ucs")) { std::vector<uint32_t> x, y; for (char c : a) x.push_back((unsigned char)c * 0x10001u); for (char c : b) y.push_back((unsigned char)c * 0x10001u); CHECK(EditDistanceLev(x, y) == lev(a, b), "EditDistanceLev of UCS-4"); }
}
static void utf8() {
  std::vector<uint32_t> u; int n = symx_choice(3, "n"); size_t len = 0;
  for (int i = 0; i < n; i++) { uint32_t c; symx_make_symbolic(&c, 4, "ucs"); symx_assume(c < 0x80000000u); u.push_back(c); }
  string s = ConvertUCS4ToUTF8(u);
  for (uint32_t c : u) len += c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : 6;
  CHECK(s.size() == len, "the shortest UTF-8 form");
  CHECK(ConvertUTF8ToUCS4(s) == u, "UCS-4 survives UTF-8");
  std::wstring w = ConvertUTF8ToWide(s); CHECK(w.size() == u.size(), "wide length"); for (size_t i = 0; i < u.size(); i++) CHECK((uint32_t)w[i] == u[i], "UTF-8 to wide characters");
  CHECK(same(ConvertWideToUTF8(w), s), "wide characters to UTF-8");
}
static void utf8any() {  // any bytes: no memory error, and valid text survives
  string s = any(L, "bytes"); std::vector<uint32_t> u = ConvertUTF8ToUCS4(s); std::wstring w = ConvertUTF8ToWide(s);
  CHECK(u.size() <= s.size() && w.size() == u.size(), "at most one character per byte");
  for (size_t i = 0; i < u.size(); i++) CHECK((uint32_t)w[i] == u[i], "both conversions agree");
}
extern "C" void symx_main() { PART(); symx_reach("end"); }
