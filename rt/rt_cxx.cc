// The parts of the C++ runtime that libstdc++ keeps in its binary.
#include <string>
#include <vector>
#include <map>
#include <list>
#include <unordered_map>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <future>
#include <chrono>
#include <random>
#include <stdexcept>
#include <system_error>
#include <new>
#include <cxxabi.h>
#include <typeinfo>
#include "symx.h"

template class std::__cxx11::basic_string<char>;
template class std::__cxx11::basic_string<wchar_t>;

extern "C" {
void* malloc(size_t); void free(void*); void* aligned_alloc(size_t, size_t);
void __cxa_pure_virtual() { symx_die("pure virtual call"); }
}
const std::nothrow_t std::nothrow{};
void* operator new(size_t n) { void* p = malloc(n); if (!p) symx_die("std::bad_alloc"); return p; }
void* operator new[](size_t n) { void* p = malloc(n); if (!p) symx_die("std::bad_alloc"); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n); }
void* operator new(size_t n, std::align_val_t a) { return aligned_alloc((size_t)a, n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }

namespace std {
void terminate() noexcept { symx_die("std::terminate"); }
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
void __throw_bad_alloc() { symx_die("std::bad_alloc"); }
void __throw_bad_array_new_length() { symx_die("std::bad_array_new_length"); }
void __throw_bad_cast() { symx_die("std::bad_cast"); }
void __throw_logic_error(const char* s) { symx_die(s); }
void __throw_length_error(const char* s) { symx_die(s); }
void __throw_out_of_range(const char* s) { symx_die(s); }
void __throw_invalid_argument(const char* s) { symx_die(s); }
void __throw_runtime_error(const char* s) { symx_die(s); }
void __throw_out_of_range_fmt(const char* s, ...) { symx_die(s); }
void __throw_bad_function_call() { symx_die("std::bad_function_call"); }
void __throw_system_error(int e) { symx_print_int("system_error", e); symx_die("std::system_error"); }
void __throw_future_error(int e) { symx_print_int("future_error", e); symx_die("std::future_error"); }
void __throw_bad_optional_access() { symx_die("std::bad_optional_access"); }

// StatusException derives from runtime_error
runtime_error::runtime_error(const string& s) { *(char**)((char*)this + 8) = (char*)malloc(s.size() + 1); __builtin_memcpy(*(char**)((char*)this + 8), s.c_str(), s.size() + 1); }
runtime_error::runtime_error(const char* s) : runtime_error(string(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : runtime_error(string(o.what())) {}
runtime_error::~runtime_error() noexcept { free(*(char**)((char*)this + 8)); }
const char* runtime_error::what() const noexcept { return *(char**)((char*)this + 8); }
__cow_string::__cow_string() {}
__cow_string::~__cow_string() {}

// ---- red-black tree ----
static _Rb_tree_node_base* rb_inc(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
static _Rb_tree_node_base* rb_dec(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rb_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rb_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rb_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rb_dec(const_cast<_Rb_tree_node_base*>(x)); }
static void rot_left(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rot_right(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base*& root = h._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      _Rb_tree_node_base* const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rot_left(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rot_right(xpp, root); }
    } else {
      _Rb_tree_node_base* const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rot_right(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rot_left(xpp, root); }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base*& root = h._M_parent; _Rb_tree_node_base*& leftmost = h._M_left; _Rb_tree_node_base*& rightmost = h._M_right;
  _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0; _Rb_tree_node_base* xp = 0;
  if (y->_M_left == 0) x = y->_M_right;
  else if (y->_M_right == 0) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black)) {
      if (x == xp->_M_left) {
        _Rb_tree_node_base* w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rot_left(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rot_right(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rot_left(xp, root); break;
        }
      } else {
        _Rb_tree_node_base* w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rot_right(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rot_left(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rot_right(xp, root); break;
        }
      }
    }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = _M_next; _List_node_base* const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* const t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
static bool prime(size_t n) { if (n < 4) return n > 1; if (!(n & 1)) return false; for (size_t i = 3; i * i <= n; i += 2) if (n % i == 0) return false; return true; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
  if (n < sizeof fast) { if (n == 0) return 1; _M_next_resize = (size_t)(fast[n] * (double)_M_max_load_factor); return fast[n]; }
  while (!prime(n)) n++;
  _M_next_resize = (size_t)(n * (double)_M_max_load_factor);
  return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    size_t m = ne + ni; if (!_M_next_resize && m < 11) m = 11;
    double min = m / (double)_M_max_load_factor;
    if (min >= nb) { size_t a = (size_t)min + 1, b = nb * 2; return {true, _M_next_bkt(a > b ? a : b)}; }
    _M_next_resize = (size_t)(nb * (double)_M_max_load_factor);
    return {false, 0};
  }
  return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) {
  // MurmurHash64A variant of libstdc++
  const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
  const char* buf = (const char*)ptr; const size_t al = len & ~(size_t)7; const char* end = buf + al; size_t h = seed ^ (len * mul);
  auto sm = [](size_t v) { return v ^ (v >> 47); };
  for (const char* p = buf; p != end; p += 8) { size_t d; __builtin_memcpy(&d, p, 8); d = sm(d * mul) * mul; h ^= d; h *= mul; }
  if ((len & 7) != 0) { size_t d = 0; int n = len & 7; n--; do d = (d << 8) + (unsigned char)end[n]; while (--n >= 0); h ^= d; h *= mul; }
  h = sm(h) * mul; h = sm(h); return h;
}

// ---- threads ----
thread::_State::~_State() = default;
static void rt_thread_main(void* p) { unique_ptr<thread::_State> s((thread::_State*)p); s->_M_run(); }
void thread::_M_start_thread(_State_ptr s, void (*)()) { int t = symx_thread_create(rt_thread_main, s.release()); _M_id = id((__gthread_t)(t + 1)); }
void thread::join() {
  if (_M_id == id()) symx_die("join of a thread that is not joinable");
  int t = (int)*(__gthread_t*)this - 1;
  while (!symx_thread_done(t)) symx_block(symx_thread_key(t));
  _M_id = id();
}
void thread::detach() { _M_id = id(); }
unsigned int thread::hardware_concurrency() noexcept { return 4; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait((pthread_cond_t*)this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal((pthread_cond_t*)this); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast((pthread_cond_t*)this); }
__thread void* __once_callable;
__thread void (*__once_call)();
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds ns) {
  if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != v) return true;
  if (has) { symx_block_timed(a); return !symx_timed_out(); }
  symx_block(a); return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds ns) { return _M_futex_wait_until(a, v, has, s, ns); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { symx_wake(a, 64); }
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
namespace __exception_ptr {
void exception_ptr::_M_release() noexcept {}
void exception_ptr::_M_addref() noexcept {}
exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) {}
}
void rethrow_exception(exception_ptr) { symx_die("rethrow_exception"); }
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { rt_clock_ns += rt_clock_step; return time_point(duration(rt_clock_ns)); }
steady_clock::time_point steady_clock::now() noexcept { rt_clock_ns += rt_clock_step; return time_point(duration(rt_clock_ns)); }
} }
void random_device::_M_init(const string&) {}
void random_device::_M_fini() {}
unsigned random_device::_M_getval() { static unsigned s = 12345; s = s * 1664525 + 1013904223; return s; }
}  // namespace std
extern "C" void __once_proxy() { std::__once_call(); }
extern "C" void rt_iosinit() __asm__("_ZSt21ios_base_library_initv");
extern "C" void rt_iosinit() {}

// ---- run-time type identification ----
extern "C" { extern char rt_si_vt[] __asm__("_ZTVN10__cxxabiv120__si_class_type_infoE"); extern char rt_vmi_vt[] __asm__("_ZTVN10__cxxabiv121__vmi_class_type_infoE"); }
struct TI { char* vt; const char* name; };
static const void* cast_up(const void* obj, const TI* ti, const TI* want) {
  if (ti == want) return obj;
  if (ti->vt == rt_si_vt + 16) return cast_up(obj, *(const TI* const*)(ti + 1), want);
  if (ti->vt == rt_vmi_vt + 16) {
    unsigned n = ((const unsigned*)(ti + 1))[1]; struct B { const TI* t; long off; }; const B* b = (const B*)((const char*)(ti + 1) + 8);
    for (unsigned i = 0; i < n; i++) { if (b[i].off & 1) symx_unsupported("virtual base in dynamic_cast"); const void* r = cast_up((const char*)obj + (b[i].off >> 8), b[i].t, want); if (r) return r; }
  }
  return nullptr;
}
extern "C" void* rt_dyncast(const void* p, const TI* src, const TI* dst, ptrdiff_t) __asm__("__dynamic_cast");
extern "C" void* rt_dyncast(const void* p, const TI* src, const TI* dst, ptrdiff_t) {
  const char* vp = *(const char* const*)p; long off = ((const long*)vp)[-2]; const TI* t = ((const TI* const*)vp)[-1];
  return const_cast<void*>(cast_up((const char*)p + off, t, dst));
}
