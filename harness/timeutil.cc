// Calendar conversions, formatting and parsing of dates.
#include "h.h"
#include "tkrzw_time_util.h"
#include <cmath>
#ifndef PART
#define PART roundtrip
#endif
#ifndef DOWY
#define DOWY 30
#endif
#ifndef SPAN
#define SPAN 86400
#endif
static int64_t civil(int64_t y, int m, int d) {   // days since the epoch, by counting leap years
  static const int cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
  bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; int64_t p = y - 1;
  return p * 365 + p / 4 - p / 100 + p / 400 + cum[m - 1] + (m > 2 && leap) + d - 1 - 719162;
}
extern "C" { extern int rt_tm_mode; extern struct tm rt_tm_f, rt_tm_seen; extern int64_t rt_tm_t, rt_tm_arg; }
static const int tds[] = {0, 32400, -18000, 20700, -12600, 60, -60, 50400};
static void fix(int y, int mo, int d, int h, int mi, int s) { memset(&rt_tm_f, 0, sizeof rt_tm_f); rt_tm_f.tm_year = y - 1900; rt_tm_f.tm_mon = mo - 1; rt_tm_f.tm_mday = d; rt_tm_f.tm_hour = h; rt_tm_f.tm_min = mi; rt_tm_f.tm_sec = s; }
static bool seen() { auto &a = rt_tm_f, &b = rt_tm_seen; return (a.tm_year == b.tm_year) & (a.tm_mon == b.tm_mon) & (a.tm_mday == b.tm_mday) & (a.tm_hour == b.tm_hour) & (a.tm_min == b.tm_min) & (a.tm_sec == b.tm_sec) & (b.tm_isdst == 0); }
static bool num(const char* p, int n, int v) { int w = 0; bool ok = true; for (int i = 0; i < n; i++) { ok &= (p[i] >= '0') & (p[i] <= '9'); w = w * 10 + p[i] - '0'; } return ok & (w == v); }
// every calendar moment and time difference: the text shows its fields and parsing gives them back
static void roundtrip() {
  static const int64_t ts[] = {0, 1, 951782399, 253402300799LL, -1, -86400}; int64_t t = ts[symx_choice(6, "t")]; int td = tds[symx_choice(8, "td")]; int z = td / 60;
  int y = (int)symx_int(1000, 9999, "year"), mo = symx_choice(12, "month") + 1, d = (int)symx_int(1, 31, "day"), h = (int)symx_int(0, 23, "hour"), mi = (int)symx_int(0, 59, "minute"), s = (int)symx_int(0, 60, "second");
  rt_tm_mode = 1; fix(y, mo, d, h, mi, s); rt_tm_f.tm_wday = mo % 7; rt_tm_t = t + td; rt_tm_arg = -999; char buf[64]; memset(buf, 0x55, sizeof buf); size_t n; const char *p, *zp;
  int f = symx_choice(3, "format"); bool frac = f < 2 && t >= 0 && symx_choice(2, "frac");
  if (f == 0) n = frac ? FormatDateSimpleWithFrac(buf, t, td, 0) : FormatDateSimple(buf, t, td); else if (f == 1) n = frac ? FormatDateW3CDTFWithFrac(buf, t, td, 0) : FormatDateW3CDTF(buf, t, td); else n = FormatDateRFC1123(buf, t, td);
  CHECK(rt_tm_arg == t + td, "the text is of the instant shifted by the time difference"); CHECK(strlen(buf) == n, "the formatter reports the length");
  if (f < 2) {
    CHECK(num(buf, 4, y) & num(buf + 5, 2, mo) & num(buf + 8, 2, d) & num(buf + 11, 2, h) & num(buf + 14, 2, mi) & num(buf + 17, 2, s), "the text shows the calendar fields"); zp = buf + 19;
    if (f == 0) CHECK(n == 19, "a simple date has 19 characters");
    else if (z == 0) CHECK(!strcmp(zp, "Z"), "a W3CDTF date of universal time ends with Z"); else CHECK(n == 25 && zp[0] == (z < 0 ? '-' : '+') && num(zp + 1, 2, abs(z) / 60) && zp[3] == ':' && num(zp + 4, 2, abs(z) % 60), "a W3CDTF date shows the time difference");
  } else {
    static const char* const wd[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}; static const char* const mn[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    CHECK(!memcmp(buf, wd[mo % 7], 3) && !memcmp(buf + 8, mn[mo - 1], 3), "an RFC 1123 date names the day and month"); CHECK(num(buf + 5, 2, d) & num(buf + 12, 4, y) & num(buf + 17, 2, h) & num(buf + 20, 2, mi) & num(buf + 23, 2, s), "an RFC 1123 date shows the calendar fields");
    zp = buf + 26; if (z == 0) CHECK(!strcmp(zp, "GMT"), "an RFC 1123 date of universal time ends with GMT"); else CHECK(n == 31 && zp[0] == (z < 0 ? '-' : '+') && num(zp + 1, 4, abs(z) / 60 * 100 + abs(z) % 60), "an RFC 1123 date shows the time difference");
  }
  double got = ParseDateStr(buf); CHECK(seen(), "parsing gives the calendar fields back"); CHECK(got == (double)(f ? t : t + td), "parsing gives the instant back");
}
static void fracs() {
  double t = (double)(symx_choice(2, "day") ? 951782399 : 1) + (int)symx_int(0, 3, "s") * 0.25; static const int tf[] = {0, 32400, -12600}; int td = tf[symx_choice(3, "td")]; int cols = symx_choice(4, "cols"); char buf[64];
  if (symx_choice(2, "format")) { FormatDateW3CDTFWithFrac(buf, t, td, cols); CHECK(cols < 2 || ParseDateStr(buf) == t, "a W3CDTF date with a fraction parses to the same instant"); }
  else { size_t n = FormatDateSimpleWithFrac(buf, t, td, cols); CHECK(n == 19u + (cols ? cols + 1 : 0), "the fraction has the requested columns"); CHECK(cols < 2 || ParseDateStr(buf) == t + td, "a simple date with a fraction parses to the same clock time"); }
}
static int two(const char* p) { return (p[0] - '0') * 10 + p[1] - '0'; }
static void digits(string& s, int at, int n) { for (int i = 0; i < n; i++) { symx_make_symbolic(&s[at + i], 1, "digit"); symx_assume(s[at + i] >= '0' && s[at + i] <= '9'); } }
static bool ref(int y, int mo, int d, int h, int mi, int s) { fix(y, mo, d, h, mi, s); return seen(); }
// every digit string of the fixed formats denotes the fields at their places
static void parse() {
  static const char* const seps[] = {"--T::", "// ::", ":: ::", "--T--"}; const char* sp = seps[symx_choice(4, "separators")];
  string s = SPrintF("2000%c01%c02%c03%c04%c05", sp[0], sp[1], sp[2], sp[3], sp[4]); static const int at[] = {0, 5, 8, 11, 14, 17}; int f = symx_choice(6, "field"); digits(s, at[f], f ? 2 : 4);
  int64_t tz = 0; int z = symx_choice(4, "zone"); string zs; if (z == 1) zs = "Z"; if (z == 2 || z == 3) { zs = z == 2 ? "+00:00" : "-00:00"; digits(zs, symx_choice(2, "zf") ? 4 : 1, 2); tz = (two(&zs[1]) * 3600 + two(&zs[4]) * 60) * (z == 2 ? 1 : -1); }
  rt_tm_mode = 1; rt_tm_t = 5000; string all = s + zs; double got = ParseDateStr(all);
  CHECK(ref(two(&s[0]) * 100 + two(&s[2]), two(&s[5]), two(&s[8]), two(&s[11]), two(&s[14]), two(&s[17])), "a date string denotes its fields"); CHECK((int64_t)got == 5000 - tz, "the zone shifts the instant");
}
static void yyyymmdd() {
  static const int ls[] = {4, 6, 8, 10, 12, 14}; int len = ls[symx_choice(6, "len")]; string full = "20000102030405"; string s = full.substr(0, len); int f = symx_choice(6, "field"); if (f == 0) digits(s, 0, 4); else if (len >= 4 + f * 2) digits(s, 2 + f * 2, 2);
  string t = s; if (symx_choice(2, "sep") && len > 6) t = s.substr(0, 4) + "-" + s.substr(4, 2) + "/" + s.substr(6); int td = tds[symx_choice(3, "td")];
  auto g = [&](int i, int dv) { return len >= i + 2 ? two(&s[i]) : dv; };
  rt_tm_mode = 1; rt_tm_t = 100000; CHECK(ParseDateStrYYYYMMDD(t, td) == 100000.0 - td, "the time difference is subtracted"); CHECK(ref(two(&s[0]) * 100 + two(&s[2]), g(4, 1), g(6, 1), g(8, 0), g(10, 0), g(12, 0)), "digits denote the fields in order");
}
static void dow() {
  static const int yb[] = {1585, 1690, 1790, 1890, 1950, 1980, 1995, 2010, 2040, 2090, 2190, 9960}; int y = (int)symx_int(1, DOWY, "year") + yb[symx_choice(12, "years")], m = symx_choice(12, "month") + 1, d = (int)symx_int(1, 31, "day");
  int64_t z = civil(y, m, d); CHECK(GetDayOfWeek(y, m, d) == (int)((z + 4 + 7 * 200000) % 7), "GetDayOfWeek counts the days");
}
// dates of RFC 822 with names of zones and two-digit years
static void rfc() {
  static const char* const mn[] = {"Jan", "fEb", "MAR", "apr", "May", "jun", "Jul", "Aug", "Sep", "Oct", "nov", "Dec", "Foo"}; static const struct { const char* z; int h; } zs[] = {{"GMT", 0}, {"JST", 9}, {"cct", 8}, {"KST", 9}, {"EDT", -4}, {"est", -5}, {"CDT", -5}, {"CST", -6}, {"MDT", -6}, {"MST", -7}, {"PDT", -7}, {"PST", -8}, {"HDT", -9}, {"HST", -10}, {"", 0}, {"+0930", 0}};
  int m = symx_choice(13, "month"), z = symx_choice(16, "zone"); bool yy = symx_choice(2, "yy"); string d = "02", y = "2000", c = "03:04:05"; digits(d, 0, 2); if (yy) y = "94"; digits(y, yy ? 0 : 2, 2); static const int ca[] = {0, 3, 6}; digits(c, ca[symx_choice(3, "clock")], 2);
  if (!yy) y[0] = '2';
  string s = "Mon, " + d + " " + mn[m] + " " + y + " " + c + (zs[z].z[0] ? " " : "") + zs[z].z; rt_tm_mode = 1; rt_tm_t = 777777; double got = ParseDateStr(s);
  if (m == 12 || two(&d[0]) < 1) { CHECK(got != got, "a date without a month or a day is not a number"); return; }
  CHECK(ref(yy ? two(&y[0]) + 1900 : two(&y[0]) * 100 + two(&y[2]), m + 1, two(&d[0]), two(&c[0]), two(&c[3]), two(&c[6])), "an RFC 822 date denotes its fields");
  CHECK(got == 777777.0 - (z == 15 ? 9 * 3600 + 30 * 60 : zs[z].h * 3600), "the zone shifts the instant");
}
static void relative() {
  int u = symx_choice(4, "unit"), n = (int)symx_int(0, 9, "n"); bool neg = symx_choice(2, "neg"); static const int k[] = {1, 60, 3600, 86400}; static const char* const nm[] = {"seconds", "minutes", "hours", "days"}; double v = (n + 1) * k[u] * (neg ? -1.0 : 1.0);
  CHECK(MakeRelativeTimeExpr(v) == SPrintF("%s%d.0 %s", neg ? "-" : "", n + 1, nm[u]), "a relative time names the largest unit");
}
// units and hexadecimal
static void units() {
  int n = (int)symx_int(0, 99, "n"); string s = SPrintF("%d", n); static const struct { const char* u; int k; } us[] = {{"", 1}, {"s", 1}, {"m", 60}, {"h", 3600}, {"d", 86400}, {"D", 86400}, {" h", 3600}, {"M ", 60}, {".5h", 0}};
  int i = symx_choice(9, "unit"); string t = s + us[i].u; std::unique_ptr<char[]> raw(new char[t.size()]); memcpy(raw.get(), t.data(), t.size());   // no byte beyond the view may be read
  double want = i == 8 ? (n + 0.5) * 3600 : (double)n * us[i].k; CHECK(ParseDateStr(string_view(raw.get(), t.size())) == want, "a number with a unit denotes seconds");
  string h = "0x" + SPrintF("%x", n); CHECK(ParseDateStr(h) == n, "a hexadecimal date denotes seconds");
}
// any bytes: a number or NaN, no byte beyond the view read
static void anybytes() {
  static const char* const tmpl[] = {"", "12", "2000-01-02", "2000-01-02T03:04:05", "2000-01-02T03:04:05.5", "2000-01-02T03:04:05+0", "Mon, 02 Jan 2000 03:04:05", "Mon, 2 Jan", "Mon, 02 Jan 2000 03:04:05 -0", "0x1"};
  string s = string(tmpl[symx_choice(10, "template")]) + symstr(symx_choice(3, "tail"), "bytes"); std::unique_ptr<char[]> raw(new char[s.size() + 1]); memcpy(raw.get(), s.data(), s.size());
  char* p = (char*)malloc(s.size()); memcpy(p, s.data(), s.size()); double v = ParseDateStr(string_view(p, s.size())); (void)v; free(p);
}
extern "C" void symx_main() { PART(); symx_reach("end"); }
