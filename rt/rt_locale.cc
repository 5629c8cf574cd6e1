// The classic locale, as much of it as std::regex needs.
#include <locale>
#include <regex>
#include "symx.h"
template <> int std::regex_traits<char>::value(char c, int radix) const {
  int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
  return v < radix ? v : -1;
}
extern "C" { void* malloc(size_t); void free(void*); }
namespace std {
locale::facet::~facet() {}
__c_locale locale::facet::_S_get_c_locale() { return nullptr; }
__c_locale locale::facet::_S_clone_c_locale(__c_locale&) noexcept { return nullptr; }
void locale::facet::_S_destroy_c_locale(__c_locale&) {}
locale::id ctype<char>::id;
template class collate<char>;
template<> int collate<char>::_M_compare(const char* a, const char* b) const noexcept { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
template<> size_t collate<char>::_M_transform(char* d, const char* s, size_t n) const noexcept { size_t i = 0; for (; s[i]; i++) if (i < n) d[i] = s[i]; if (i < n) d[i] = 0; return i; }
ctype<char>::ctype(const mask* t, bool d, size_t r) : facet(r), _M_del(d), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(t), _M_widen_ok(1), _M_narrow_ok(1) { for (int i = 0; i < 256; i++) _M_widen[i] = _M_narrow[i] = (char)i; }
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; }
const char* ctype<char>::do_toupper(char* p, const char* e) const { for (; p < e; p++) *p = do_toupper(*p); return e; }
char ctype<char>::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
const char* ctype<char>::do_tolower(char* p, const char* e) const { for (; p < e; p++) *p = do_tolower(*p); return e; }
void ctype<char>::_M_widen_init() const {}
void ctype<char>::_M_narrow_init() const {}
regex_error::regex_error(regex_constants::error_type e) : runtime_error("regex_error"), _M_code(e) {}
regex_error::~regex_error() throw() {}
void __throw_regex_error(regex_constants::error_type e) { throw regex_error(e); }
}
namespace {
struct Loc { int ref; const std::locale::facet** facets; size_t size; };
std::ctype_base::mask table[256];
const std::locale::facet* facets[2];
Loc impl{1000000, facets, 2};
}
extern "C" {
void rt_loc_ctor(void** t) __asm__("_ZNSt6localeC1Ev");
void rt_loc_ctor(void** t) {
  if (!facets[0]) {
    for (int c = 0; c < 128; c++) {
      int up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9', sp = c == ' ' || (c >= 9 && c <= 13), pr = c > 32 && c < 127;
      typedef std::ctype_base B;
      table[c] = (up ? B::upper | B::alpha : 0) | (lo ? B::lower | B::alpha : 0) | (dg ? B::digit : 0) | (dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F') ? B::xdigit : 0) | (sp ? B::space : 0) | (pr || c == ' ' ? B::print : 0) | (c < 32 || c == 127 ? B::cntrl : 0) | (pr && !up && !lo && !dg ? B::punct : 0) | (c == ' ' || c == 9 ? B::blank : 0);
    }
    facets[0] = new std::ctype<char>(table, false, 1); facets[1] = new std::collate<char>(1);
  }
  *t = &impl;
}
void rt_loc_copy(void** t, void** o) __asm__("_ZNSt6localeC1ERKS_");
void rt_loc_copy(void** t, void** o) { *t = *o; }
void* rt_loc_set(void** t, void** o) __asm__("_ZNSt6localeaSERKS_");
void* rt_loc_set(void** t, void** o) { *t = *o; return t; }
void rt_loc_dtor(void**) __asm__("_ZNSt6localeD1Ev");
void rt_loc_dtor(void**) {}
size_t rt_loc_id(const void* t) __asm__("_ZNKSt6locale2id5_M_idEv");
size_t rt_loc_id(const void* t) { return t == &std::ctype<char>::id ? 0 : 1; }
}
