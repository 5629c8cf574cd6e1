// Models of the C library functions the code under test calls.
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <time.h>
#include <errno.h>
#include "symx.h"

static __thread int rt_errno;
int* __errno_location(void) { return &rt_errno; }
char __libc_single_threaded = 0;

size_t strlen(const char* s) { const char* p = s; while (*p) p++; return p - s; }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) return 0; } return 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { char* r = 0; for (;; s++) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (; ; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
void* memmem(const void* h, size_t hn, const void* n, size_t nn) {
  const char* p = h;
  if (nn == 0) return (void*)h;
  for (size_t i = 0; i + nn <= hn; i++) if (memcmp(p + i, n, nn) == 0) return (void*)(p + i);
  return 0;
}
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = malloc(n); memcpy(r, s, n); return r; }
void abort(void) { symx_die("abort() called"); }
lldiv_t lldiv(long long a, long long b) { lldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
int abs(int x) { return x < 0 ? -x : x; }
double modf(double x, double* ip) { double t = (x >= 9.2e18 || x <= -9.2e18) ? x : (double)(long long)x; *ip = t; return x - t; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
char* getenv(const char* n) { return 0; }

struct out { char* b; size_t n, len; };
static void oc(struct out* o, char c) { if (o->len + 1 < o->n) o->b[o->len] = c; o->len++; }
static void onum(struct out* o, unsigned long long v, int neg, int base, int upper, int width, int prec, int zero, int left, char plus) {
  char t[72]; int k = 0;
  do { int d = v % base; v /= base; t[k++] = d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10; } while (v);
  int digits = k; int pad = prec > digits ? prec - digits : 0;
  int sign = neg || plus; int total = digits + pad + sign;
  if (!left && !(zero && prec < 0)) for (int i = total; i < width; i++) oc(o, ' ');
  if (neg) oc(o, '-'); else if (plus) oc(o, plus);
  if (!left && zero && prec < 0) for (int i = total; i < width; i++) oc(o, '0');
  for (int i = 0; i < pad; i++) oc(o, '0');
  while (k) oc(o, t[--k]);
  if (left) for (int i = total; i < width; i++) oc(o, ' ');
}
int vsnprintf(char* buf, size_t n, const char* f, va_list ap) {
  struct out o = {buf, n, 0};
  for (; *f; f++) {
    if (*f != '%') { oc(&o, *f); continue; }
    const char* spec = f;
    f++;
    int zero = 0, left = 0, width = 0, prec = -1, lng = 0; char plus = 0;
    for (;; f++) { if (*f == '0') zero = 1; else if (*f == '-') left = 1; else if (*f == '+') plus = '+'; else if (*f == ' ') plus = plus ? plus : ' '; else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 'L' || *f == 't') { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; else if (*f == 'h') lng--; f++; }
    switch (*f) {
      case 'd': case 'i': { long long v = lng > 0 ? va_arg(ap, long long) : va_arg(ap, int); onum(&o, v < 0 ? 0ULL - (unsigned long long)v : (unsigned long long)v, v < 0, 10, 0, width, prec, zero, left, plus); break; }
      case 'u': { unsigned long long v = lng > 0 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned); onum(&o, v, 0, 10, 0, width, prec, zero, left, 0); break; }
      case 'x': case 'X': { unsigned long long v = lng > 0 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned); if (lng == -2) v &= 255; onum(&o, v, 0, 16, *f == 'X', width, prec, zero, left, 0); break; }
      case 'o': { unsigned long long v = lng > 0 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned); onum(&o, v, 0, 8, 0, width, prec, zero, left, 0); break; }
      case 'p': { unsigned long long v = (unsigned long long)va_arg(ap, void*); oc(&o, '0'); oc(&o, 'x'); onum(&o, v, 0, 16, 0, 0, -1, 0, 0, 0); break; }
      case 'c': oc(&o, (char)va_arg(ap, int)); break;
      case 's': { const char* s = va_arg(ap, const char*); if (!s) s = "(null)"; int l = 0; while ((prec < 0 || l < prec) && s[l]) l++; if (!left) for (int i = l; i < width; i++) oc(&o, ' '); for (int i = 0; i < l; i++) oc(&o, s[i]); if (left) for (int i = l; i < width; i++) oc(&o, ' '); break; }
      case '%': oc(&o, '%'); break;
      case 'f': case 'g': case 'e': case 'F': case 'G': case 'E': {
        char fm[32]; int k = 0; char t[400];
        fm[k++] = '%'; if (zero) fm[k++] = '0'; if (left) fm[k++] = '-'; if (plus) fm[k++] = plus;
        if (width) { struct out q = {fm + k, 20, 0}; onum(&q, width, 0, 10, 0, 0, -1, 0, 0, 0); k += q.len; }
        if (prec >= 0) { fm[k++] = '.'; struct out q = {fm + k, 20, 0}; onum(&q, prec, 0, 10, 0, 0, -1, 0, 0, 0); k += q.len; }
        fm[k++] = *f; fm[k] = 0;
        int r = symx_fmt_double(t, sizeof t, fm, va_arg(ap, double));
        for (int i = 0; i < r; i++) oc(&o, t[i]);
        break; }
      default: (void)spec; symx_unsupported("printf conversion");
    }
  }
  if (n) buf[o.len < n ? o.len : n - 1] = 0;
  return (int)o.len;
}
int snprintf(char* buf, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(buf, n, f, ap); va_end(ap); return r; }
int sprintf(char* buf, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(buf, (size_t)1 << 30, f, ap); va_end(ap); return r; }
int vsprintf(char* buf, const char* f, va_list ap) { return vsnprintf(buf, (size_t)1 << 30, f, ap); }

// ---- calendar (UTC only) ----
static int64_t days_from_civil(int64_t y, int m, int d) {
  y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400);
  unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + (int64_t)doe - 719468;
}
// A harness may fix what the conversions give, to see what they are called with.
int rt_tm_mode; struct tm rt_tm_f, rt_tm_seen; int64_t rt_tm_t, rt_tm_arg;
struct tm* gmtime_r(const time_t* t, struct tm* r) {
  if (rt_tm_mode) { rt_tm_arg = *t; *r = rt_tm_f; return r; }
  int64_t z = *t / 86400, s = *t % 86400; if (s < 0) { s += 86400; z--; }
  r->tm_hour = s / 3600; r->tm_min = s / 60 % 60; r->tm_sec = s % 60; r->tm_wday = ((z % 7) + 11) % 7;
  int64_t zz = z + 719468; int64_t era = (zz >= 0 ? zz : zz - 146096) / 146097; unsigned doe = (unsigned)(zz - era * 146097);
  unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; int64_t y = (int64_t)yoe + era * 400;
  unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100); unsigned mp = (5 * doy + 2) / 153;
  r->tm_mday = doy - (153 * mp + 2) / 5 + 1; int m = mp < 10 ? mp + 3 : mp - 9; y += m <= 2;
  r->tm_mon = m - 1; r->tm_year = y - 1900; r->tm_yday = z - days_from_civil(y, 1, 1); r->tm_isdst = 0; r->tm_gmtoff = 0; r->tm_zone = "UTC";
  return r;
}
struct tm* localtime_r(const time_t* t, struct tm* r) { return gmtime_r(t, r); }
time_t timegm(struct tm* x) {
  if (rt_tm_mode) { rt_tm_seen = *x; return rt_tm_t; }
  int64_t m = x->tm_mon, y = x->tm_year + 1900LL; y += m / 12; m %= 12; if (m < 0) { m += 12; y--; }
  int64_t d = days_from_civil(y, m + 1, 1) + x->tm_mday - 1;
  time_t t = d * 86400 + x->tm_hour * 3600LL + x->tm_min * 60LL + x->tm_sec;
  return t;
}
time_t mktime(struct tm* x) { return timegm(x); }
int rand(void) { static unsigned s = 1; s = s * 1103515245 + 12345; return s >> 1; }
