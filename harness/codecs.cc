// Binary encodings: every value and every small container decodes to itself, with the announced size.
#include "h.h"
static uint64_t u64() { uint64_t x; symx_make_symbolic(&x, 8, "num"); return x; }
static void varnum() {
  uint64_t x = u64(); unsigned char b[16]; memset(b, 0xee, sizeof b);
  size_t n = WriteVarNum(b, x);
  CHECK(n == SizeVarNum(x), "SizeVarNum announces the written size");
  CHECK(n >= 1 && n <= 10, "a number takes 1 to 10 bytes");
  // the documented meaning: big-endian groups of 7 bits, all but the last with the top bit
  uint64_t y = 0; for (size_t i = 0; i < n; i++) { CHECK(!!(b[i] & 0x80) == (i + 1 < n), "only the last byte has a clear top bit"); y = (y << 7) | (b[i] & 0x7f); }
  CHECK(y == x, "the groups denote the number");
  CHECK(n == 1 || b[0] != 0x80, "the shortest form is used");
  for (size_t i = n; i < sizeof b; i++) CHECK(b[i] == 0xee, "nothing is written beyond the announced size");
  uint64_t z = 1, w = 1;
  CHECK(ReadVarNum(b, n, &z) == n && z == x, "ReadVarNum gives the number back");
  CHECK(ReadVarNum(b, &w) == n && w == x, "unbounded ReadVarNum gives the number back");
  size_t k = symx_choice(10, "cut");
  if (k < n) { CHECK(ReadVarNum(b, k, &z) == 0 && z == 0, "a truncated number is reported"); }
}
static void fixnum() {
  uint64_t x = u64(); int w = 1 + symx_choice(8, "width"); unsigned char b[10]; memset(b, 0xee, sizeof b);
  uint64_t m = w == 8 ? ~0ULL : (1ULL << (8 * w)) - 1;
  WriteFixNum(b, x, w);
  for (int i = 0; i < w; i++) CHECK(b[i] == (unsigned char)(x >> (8 * (w - 1 - i))), "fixed-width numbers are big-endian");
  for (int i = w; i < 10; i++) CHECK(b[i] == 0xee, "only the width is written");
  CHECK(ReadFixNum(b, w) == (x & m), "ReadFixNum gives the number back");
  string s = IntToStrBigEndian(x, w);
  CHECK((int)s.size() == w && !memcmp(s.data(), b, w), "IntToStrBigEndian is the fixed-width form");
  CHECK(StrToIntBigEndian(s) == (x & m), "StrToIntBigEndian gives the number back");
  CHECK(same(IntToStrBigEndian(x), IntToStrBigEndian(x, 8)) && IntToStrBigEndian(x, 0).empty() && StrToIntBigEndian("") == 0, "default and empty widths");
  CHECK(StrToIntBigEndian(IntToStrBigEndian(x, 8) + "zz") == x, "only eight bytes count");
  uint64_t h = HostToNet64(x); CHECK(NetToHost64(h) == x, "HostToNet64 round-trips"); CHECK(((unsigned char*)&h)[0] == (x >> 56), "network order is big-endian");
  uint32_t h4 = HostToNet32((uint32_t)x); CHECK(NetToHost32(h4) == (uint32_t)x && ((unsigned char*)&h4)[0] == (unsigned char)(x >> 24), "HostToNet32");
  uint16_t h2 = HostToNet16((uint16_t)x); CHECK(NetToHost16(h2) == (uint16_t)x && ((unsigned char*)&h2)[0] == (unsigned char)(x >> 8), "HostToNet16");
}
static void delta() {
  uint64_t x = u64(); bool z = symx_choice(2, "zigzag");
  string s = IntToStrDelta(x, z);
  CHECK(StrToIntDelta(s, z) == x, "StrToIntDelta gives the number back");
  if (z) { int64_t v = (int64_t)x; CHECK((int64_t)s.size() == (int64_t)SizeVarNum(v < 0 ? ((uint64_t)~v << 1) | 1 : (uint64_t)v << 1), "zigzag numbers of small magnitude are short"); }
}
template <class T> static void ivec() {
  int n = symx_choice(3, "n"); bool z = std::is_signed<T>::value; std::vector<T> v;
  for (int i = 0; i < n; i++) { T x; symx_make_symbolic(&x, sizeof x, "elem"); v.push_back(x); }
  string s = SerializeIntVectorDelta(v, z);
  std::vector<T> w = DeserializeIntVectorDelta<T>(s, z);
  CHECK(w.size() == v.size(), "the delta vector keeps its length");
  for (size_t i = 0; i < v.size(); i++) CHECK(w[i] == v[i], "the delta vector keeps its elements");
}
template <class T> static void ivec0() {  // non-negative values without zigzag
  int n = symx_choice(3, "n"); std::vector<T> v;
  for (int i = 0; i < n; i++) { T x; symx_make_symbolic(&x, sizeof x, "elem"); symx_assume(x >= 0); v.push_back(x); }
  std::vector<T> w = DeserializeIntVectorDelta<T>(SerializeIntVectorDelta(v, false), false);
  CHECK(w.size() == v.size(), "the delta vector keeps its length");
  for (size_t i = 0; i < v.size(); i++) CHECK(w[i] == v[i], "the delta vector keeps its elements");
}
template <class T> static void basic() {
  int n = symx_choice(3, "n"); std::vector<T> v;
  for (int i = 0; i < n; i++) { T x; symx_make_symbolic(&x, sizeof x, "elem"); v.push_back(x); }
  string s = SerializeBasicVector(v);
  CHECK(s.size() == sizeof(T) * v.size(), "a basic vector takes its elements' sizes");
  std::vector<T> w = DeserializeBasicVector<T>(s);
  CHECK(w.size() == v.size(), "the basic vector keeps its length");
  for (size_t i = 0; i < v.size(); i++) {
    CHECK(w[i] == v[i], "the basic vector keeps its elements");
    for (size_t k = 0; k < sizeof(T); k++) CHECK(s[i * sizeof(T) + k] == ((char*)&v[i])[sizeof(T) - 1 - k], "basic values are big-endian");
    string one = SerializeBasicValue(v[i]);
    CHECK(one.size() == sizeof(T) && same(one, string_view(s).substr(i * sizeof(T), sizeof(T))), "a basic value is encoded as in a vector");
    CHECK(DeserializeBasicValue<T>(one) == v[i], "a basic value round-trips");
  }
  if (n) CHECK(DeserializeBasicValue<T>(string_view(s).substr(0, sizeof(T) - 1)) == 0 || sizeof(T) == 1, "a short value is zero");
}
template <class T> static void floats() {
  T x; symx_make_symbolic(&x, sizeof x, "f");
  string s = SerializeBasicValue(x); T y = DeserializeBasicValue<T>(s);
  CHECK(!__builtin_memcmp(&x, &y, sizeof x), "a floating value round-trips bit for bit");
  for (size_t k = 0; k < sizeof(T); k++) CHECK(s[k] == ((char*)&x)[sizeof(T) - 1 - k], "floating values are big-endian");
  symx_assume(x == x);
  string t = FloatToStrBigEndian(x, sizeof(T));
  CHECK(t.size() == sizeof(T) && same(t, s), "FloatToStrBigEndian writes the same bytes");
  T z = (T)StrToFloatBigEndian(t);
  CHECK(z == x, "StrToFloatBigEndian gives the number back");
}
static string any(const char* nm, int maxn) {
  static const int L[] = {0, 1, 2, 127, 128, 300}; int n = L[symx_choice(maxn, "len")]; string s(n, 'x');
  if (n) { symx_make_symbolic(&s[n - 1], 1, nm); if (n > 1) symx_make_symbolic(&s[0], 1, nm); }
  return s;
}
static void strs() {
  string a = any("a", 6), b = any("b", 6); string p = SerializeStrPair(a, b); string_view x, y;
  CHECK(p.size() == SizeVarNum(a.size()) + a.size() + SizeVarNum(b.size()) + b.size(), "a pair takes the announced size");
  DeserializeStrPair(p, &x, &y);
  CHECK(same(x, a) && same(y, b), "a pair round-trips");
  CHECK(same(GetFirstFromSerializedStrPair(p), a), "the first of a pair is extracted");
  std::vector<string> v; int n = symx_choice(4, "n"); if (n > 0) v.push_back(a); if (n > 1) v.push_back(b); if (n > 2) v.push_back(a);
  std::vector<string> w = DeserializeStrVector(SerializeStrVector(v));
  CHECK(w.size() == v.size(), "a string vector keeps its length");
  for (size_t i = 0; i < v.size(); i++) CHECK(same(w[i], v[i]), "a string vector keeps its elements");
  auto views = MakeStrViewVectorFromValues(v); auto back = MakeStrVectorFromViews(views);
  CHECK(views.size() == v.size() && back == v, "views and values convert");
}
static void maps() {
  int n = symx_choice(3, "n"); std::map<string, string> m;
  for (int i = 0; i < n; i++) { string k = any("k", 4), v = any("v", 5); m[k] = v; }
  string s = SerializeStrMap(m); size_t sz = 0;
  for (auto& r : m) sz += SizeVarNum(r.first.size()) + r.first.size() + SizeVarNum(r.second.size()) + r.second.size();
  CHECK(s.size() == sz, "a map takes the announced size");
  auto w = DeserializeStrMap(s);
  CHECK(w.size() == m.size(), "a map keeps its size");
  auto i = w.begin(); for (auto& r : m) { CHECK(same(i->first, r.first) && same(i->second, r.second), "a map keeps its records"); ++i; }
  auto views = MakeStrViewMapFromRecords(m); auto back = MakeStrMapFromViews(views);
  CHECK(views.size() == m.size() && back == m, "views and records convert");
}
static void align() {
  int64_t x = (int64_t)symx_int(0, 8191, "x"); static const int A[] = {1, 2, 3, 4, 7, 8, 16, 40, 512, 4096}; int64_t a = A[symx_choice(10, "a")];
  int64_t y = AlignNumber(x, a);
  CHECK(y >= x && y - x < a && y % a == 0, "AlignNumber gives the least multiple not below");
  int64_t z = 1 + (int64_t)symx_int(0, 300, "z"); int64_t p = AlignNumberPowTwo(z);
  CHECK(p >= z && (p & (p - 1)) == 0 && (p == 1 || p / 2 < z), "AlignNumberPowTwo gives the least power not below");
}
extern "C" void symx_main() {
  PART();
  symx_reach("end");
}
