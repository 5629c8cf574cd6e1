// Key comparators: consistent total orders with their meaning.
#include "h.h"
#include "tkrzw_key_comparators.h"
#ifndef CMP
#define CMP LexicalKeyComparator
#endif
#ifndef L
#define L 2
#endif
#ifndef ORDER
#define ORDER lex
#endif
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
// the orders they are named for, written independently
static int lex(string_view a, string_view b) { for (size_t i = 0; i < a.size() && i < b.size(); i++) if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; return a.size() < b.size() ? -1 : a.size() > b.size(); }
static int lexcase(string_view a, string_view b) { string x(a), y(b); for (auto& c : x) if (c >= 'A' && c <= 'Z') c += 32; for (auto& c : y) if (c >= 'A' && c <= 'Z') c += 32; return lex(x, y); }
static int64_t decval(string_view s) { size_t i = 0; bool n = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) n = s[i++] == '-'; int64_t v = 0; for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; i++) v = v * 10 + (s[i] - '0'); return n ? -v : v; }
static int dec(string_view a, string_view b) { int64_t x = decval(a), y = decval(b); return x < y ? -1 : x > y; }
static int64_t hexval(string_view s) { int64_t v = 0; for (char c : s) v = v * 16 + (c <= '9' ? c - '0' : (c & 15) + 9); return v; }
static int hex(string_view a, string_view b) { int64_t x = hexval(a), y = hexval(b); return x < y ? -1 : x > y; }
static int64_t bigval(string_view s) { size_t n = s.size() < 8 ? s.size() : 8; uint64_t v = 0; for (size_t i = 0; i < n; i++) v = v << 8 | (unsigned char)s[i]; if (s.size() == 1) v = (int8_t)v; if (s.size() == 2) v = (int16_t)v; if (s.size() == 4) v = (int32_t)v; return v; }
static int big(string_view a, string_view b) { int64_t x = bigval(a), y = bigval(b); return x < y ? -1 : x > y; }
static int real(string_view a, string_view b) { return dec(a, b); }
#ifdef WIDTH
static double fval(string_view s) { uint64_t v = 0; for (unsigned char c : s) v = v << 8 | c; if (s.size() == 8) { double d; memcpy(&d, &v, 8); return d; } float f; uint32_t w = v; memcpy(&f, &w, 4); return f; }
static int flt(string_view a, string_view b) { double x = fval(a), y = fval(b); if (x != x) return y != y ? 0 : -1; if (y != y) return 1; return x < y ? -1 : x > y; }
#endif
#ifdef KEYCHARS
static int keychar(unsigned char c) { static const char* k = KEYCHARS; int ok = 0; for (const char* p = k; *p; p++) ok |= c == (unsigned char)*p; return ok; }
#endif
static string key(const char* n) {
#ifdef WIDTH
  static const int w[] = {WIDTH}; return symstr(w[symx_choice(sizeof w / sizeof *w, "width")], n);
#else
  string s = symstr(symx_choice(L + 1, "len"), n);
#ifdef KEYCHARS
  for (unsigned char c : s) symx_assume(keychar(c));
#ifdef KEYDIGITS
  for (size_t i = 0; i < s.size(); i++) if (i) symx_assume(s[i] != '-' && s[i] != '+');
#endif
#endif
  return s;
#endif
}
static int cmp(string_view a, string_view b) { return sgn(CMP(a, b)); }
static void total() {  // over every byte string of the length
  string a = key("a"), b = key("b"), c = key("c");
  int ab = cmp(a, b), ba = cmp(b, a), bc = cmp(b, c), ac = cmp(a, c);
  CHECK(cmp(a, a) == 0, "reflexive"); CHECK(ab == -ba, "antisymmetric");
  CHECK(!(ab <= 0 && bc <= 0) || ac <= 0, "transitive"); CHECK(!(ab < 0 && bc <= 0) || ac < 0, "strictly transitive"); CHECK(!(ab == 0) || ac == bc, "equal keys compare alike");
}
static void meaning() { string a = key("a"), b = key("b"); CHECK(cmp(a, b) == ORDER(a, b), "the order is the one it is named for"); }
static void special() {
  static const char* k[] = {"", "nan", "NaN!", "inf", "-inf", "0", "-0", "1", "x", "-1", "1e2", "0.5", ".", "+", "- 1"};
  string a = k[symx_choice(15, "a")], b = k[symx_choice(15, "b")], c = k[symx_choice(15, "c")]; if (symx_choice(2, "x")) { char z; symx_make_symbolic(&z, 1, "z"); c += z; }
  int ab = cmp(a, b), ba = cmp(b, a), bc = cmp(b, c), ac = cmp(a, c);
  CHECK(cmp(c, c) == 0, "reflexive"); CHECK(ab == -ba, "antisymmetric"); CHECK(!(ab <= 0 && bc <= 0) || ac <= 0, "transitive"); CHECK(!(ab == 0) || ac == bc, "equal keys compare alike");
  CHECK(cmp(string_view(), a) == cmp("", a), "a null view is an empty key");
}
#ifdef PAIR
static void pairs() {
  string a = key("a"), b = key("b"), x = symstr(symx_choice(2, "len"), "x"), y = symstr(symx_choice(2, "len"), "y");
  int k = CMP(a, b) < 0 ? -1 : CMP(a, b) > 0, v = lex(x, y), want = k ? k : v;
  CHECK(sgn(PAIR(SerializeStrPair(a, x), SerializeStrPair(b, y))) == want, "pairs are ordered by the first element, then by the bytes of the second");
}
#endif
extern "C" void symx_main() { PART(); symx_reach("end"); }
