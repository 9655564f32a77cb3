// The parts of the C and C++ run-time library that live in compiled archives, in a form the symbolic executor can run.
// Everything that libstdc++ keeps in headers (containers, strings, streams, formatting, parsing) is the real code, instantiated here;
// what is re-implemented: allocation, the exception run-time, red-black tree rebalancing, the classic locale, standard exception
// classes and the C memory/string functions.
#include <string>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <map>
#include <list>
#include <locale>
#include <functional>
#include <optional>
#include <variant>
#include <unordered_map>
#include <cmath>
#include <random>
#include <memory>
#include <limits>

extern "C" {
typedef unsigned long u64;
void* vs_alloc(u64, u64 kind); void vs_free(void*, u64 kind); u64 vs_alloc_size(void*); void vs_raise(void*, const void*); void* vs_exn_adjusted(void*); void vs_check(int, const char*);
}
enum { K_NEW = 3, K_NEWARR = 4, K_MALLOC = 5, K_EXN = 6 };

// ------------------------------------------------------------------ C library
extern "C" {
size_t strlen(const char* s) noexcept { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) noexcept { while (*a && *a == *b) ++a, ++b; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) noexcept { for (; n; --n, ++a, ++b) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
char* strcpy(char* d, const char* s) noexcept { char* r = d; while ((*d++ = *s++)) ; return r; }
char* strncpy(char* d, const char* s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s) noexcept { strcpy(d + strlen(d), s); return d; }
void* malloc(size_t n) noexcept { return vs_alloc(n, K_MALLOC); }
void* calloc(size_t n, size_t m) noexcept { void* p = vs_alloc(n * m, K_MALLOC); if (p) __builtin_memset(p, 0, n * m); return p; }
void free(void* p) noexcept { if (p) vs_free(p, K_MALLOC); }
void* realloc(void* p, size_t n) noexcept { void* q = vs_alloc(n, K_MALLOC); if (!q) return q; if (p) { u64 o = vs_alloc_size(p); __builtin_memcpy(q, p, o < n ? o : n); vs_free(p, K_MALLOC); } return q; }
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isalpha(int c) noexcept { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
void* vs_memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (; n; --n, ++p) if (*p == (unsigned char)c) return (void*)p; return nullptr; }
void* memchr(const void*, int, size_t) noexcept __attribute__((alias("vs_memchr")));
void* vs_strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (void*)s; if (!*s) return nullptr; } }
void* strchr(const char*, int) noexcept __attribute__((alias("vs_strchr")));
char* setlocale(int, const char*) noexcept { static char c[] = "C"; return c; }
int abs(int x) noexcept { return x < 0 ? -x : x; }
long labs(long x) noexcept { return x < 0 ? -x : x; }
int __cxa_guard_acquire(u64* g) { if (*(char*)g) return 0; return 1; }
void __cxa_guard_release(u64* g) { *(char*)g = 1; }
void __cxa_guard_abort(u64*) {}
int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
int pthread_mutex_lock(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_unlock(pthread_mutex_t*) noexcept { return 0; }
char __libc_single_threaded = 1;
void* __dso_handle = nullptr;
int puts(const char*) { return 0; }
int printf(const char*, ...) { return 0; }
int fprintf(FILE*, const char*, ...) { return 0; }
int fflush(FILE*) { return 0; }
int* __errno_location() noexcept { static int e; return &e; }
unsigned long strtoul(const char* s, char** e, int b) noexcept { unsigned long r = 0; const char* p = s; while (isspace(*p)) ++p; bool neg = false; if (*p == '-' || *p == '+') neg = *p++ == '-'; const char* q = p; while (isdigit(*p)) r = r * 10 + (*p++ - '0'); if (e) *e = (char*)(p == q ? s : p); return neg ? -r : r; }
long strtol(const char* s, char** e, int b) noexcept { return (long)strtoul(s, e, b); }
long long strtoll(const char* s, char** e, int b) noexcept { return (long)strtoul(s, e, b); }
}

// ------------------------------------------------------------------ allocation, with one injectable failure
extern "C" { long vs_alloc_countdown = -1; void vs_fail_alloc(long k) { vs_alloc_countdown = k; } long vs_fail_left(void) { return vs_alloc_countdown; } }
static inline bool vs_fault() { if (vs_alloc_countdown < 0) return false; return vs_alloc_countdown-- == 0; }
// Blocks start on a page; with a skew, those from the plain forms start that many bytes later, as a real allocator may place them.
extern "C" { size_t vs_skew_by = 0; void vs_skew(long n) { vs_skew_by = n; } }
static void* vs_newnt(size_t n, u64 k) { if (vs_fault() || n + vs_skew_by < n) return nullptr; char* p = (char*)vs_alloc(n + vs_skew_by, k); return p ? p + vs_skew_by : nullptr; }
static void* vs_new(size_t n, u64 k) { void* p = vs_newnt(n, k); if (!p) throw std::bad_alloc(); return p; }
static inline void vs_del(void* p, u64 k) { if (p) vs_free((char*)p - vs_skew_by, k); }
static inline void vs_dels(void* p, size_t n, u64 k) { if (p) { char* b = (char*)p - vs_skew_by; vs_check(vs_alloc_size(b) == n + vs_skew_by, "sized delete matches the allocation"); vs_free(b, k); } }
static void* vs_newal(size_t n, u64 k) { void* p; if (vs_fault() || !(p = vs_alloc(n, k))) throw std::bad_alloc(); return p; }
static inline void vs_delal(void* p, u64 k) { if (p) vs_free(p, k); }
static inline void vs_delals(void* p, size_t n, u64 k) { if (p) { vs_check(vs_alloc_size(p) == n, "sized delete matches the allocation"); vs_free(p, k); } }
void* operator new(size_t n) { return vs_new(n, K_NEW); }
void* operator new[](size_t n) { return vs_new(n, K_NEWARR); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vs_newnt(n, K_NEW); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vs_newnt(n, K_NEWARR); }
void* operator new(size_t n, std::align_val_t) { return vs_newal(n, K_NEW); }
void* operator new[](size_t n, std::align_val_t) { return vs_newal(n, K_NEWARR); }
void operator delete(void* p) noexcept { vs_del(p, K_NEW); }
void operator delete[](void* p) noexcept { vs_del(p, K_NEWARR); }
void operator delete(void* p, size_t n) noexcept { vs_dels(p, n, K_NEW); }
void operator delete[](void* p, size_t n) noexcept { vs_dels(p, n, K_NEWARR); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vs_del(p, K_NEW); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { vs_del(p, K_NEWARR); }
void operator delete(void* p, std::align_val_t) noexcept { vs_delal(p, K_NEW); }
void operator delete[](void* p, std::align_val_t) noexcept { vs_delal(p, K_NEWARR); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { vs_delals(p, n, K_NEW); }
void operator delete[](void* p, size_t n, std::align_val_t) noexcept { vs_delals(p, n, K_NEWARR); }

// ------------------------------------------------------------------ exception run-time (Itanium ABI behaviour)
struct VsExn { const void* ti; void (*dtor)(void*); long refs; long handlers; VsExn* next; long pad[3]; };
static VsExn* vs_caught = nullptr; static int vs_uncaught = 0;
static inline VsExn* vs_hdr(void* p) { return (VsExn*)p - 1; }
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept { VsExn* h = (VsExn*)vs_alloc(n + sizeof(VsExn), K_EXN); if (!h) abort(); h->ti = nullptr; h->dtor = nullptr; h->refs = 0; h->handlers = 0; h->next = nullptr; return h + 1; }
void __cxa_free_exception(void* p) noexcept { vs_free(vs_hdr(p), K_EXN); }
static void vs_release(VsExn* h) { if (--h->refs == 0) { if (h->dtor) h->dtor(h + 1); vs_free(h, K_EXN); } }
void __cxa_throw(void* p, void* ti, void (*d)(void*)) { VsExn* h = vs_hdr(p); h->ti = ti; h->dtor = d; h->refs = 1; ++vs_uncaught; vs_raise(p, ti); __builtin_unreachable(); }
void* __cxa_begin_catch(void* p) noexcept { VsExn* h = vs_hdr(p); long c = h->handlers; h->handlers = c < 0 ? -c + 1 : c + 1; --vs_uncaught; if (vs_caught != h) { h->next = vs_caught; vs_caught = h; } return vs_exn_adjusted(p); }
void __cxa_end_catch() { VsExn* h = vs_caught; if (!h) return; long c = h->handlers; if (c < 0) { if (++c == 0) vs_caught = h->next; h->handlers = c; } else if (--c == 0) { vs_caught = h->next; h->handlers = 0; vs_release(h); } else h->handlers = c; }
void __cxa_rethrow() { VsExn* h = vs_caught; if (!h) std::terminate(); ++vs_uncaught; if (h->handlers > 0) h->handlers = -h->handlers; vs_raise(h + 1, nullptr); __builtin_unreachable(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void* __cxa_get_exception_ptr(void* p) noexcept { return vs_exn_adjusted(p); }
int __gxx_personality_v0(...) { return 0; }
void _Unwind_Resume(void*) { abort(); }
}
namespace std { int uncaught_exceptions() noexcept { return vs_uncaught; } bool uncaught_exception() noexcept { return vs_uncaught > 0; }
namespace __exception_ptr { exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) { if (p) ++vs_hdr(p)->refs; }
 void exception_ptr::_M_addref() noexcept { if (_M_exception_object) ++vs_hdr(_M_exception_object)->refs; } void exception_ptr::_M_release() noexcept { if (_M_exception_object) { vs_release(vs_hdr(_M_exception_object)); _M_exception_object = nullptr; } }
 void* exception_ptr::_M_get() const noexcept { return _M_exception_object; } }
exception_ptr current_exception() noexcept { return exception_ptr(vs_caught ? (void*)(vs_caught + 1) : nullptr); }
void rethrow_exception(exception_ptr p) { void* o = p._M_exception_object; ++vs_hdr(o)->refs; ++vs_uncaught; vs_raise(o, nullptr); __builtin_unreachable(); } }

// ------------------------------------------------------------------ standard exception classes
namespace std {
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
type_info::~type_info() {} bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; }
const nothrow_t nothrow = nothrow_t{};
static const char* vs_dup(const char* s, size_t n) { char* p = (char*)vs_alloc(n + 1, K_MALLOC); if (!p) abort(); __builtin_memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(vs_dup("", 0)) {} __cow_string::__cow_string(const std::string& s) : _M_p(vs_dup(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(vs_dup(s, n)) {} __cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(vs_dup(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { vs_free((void*)_M_p, K_MALLOC); _M_p = vs_dup(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = vs_dup("", 0); } __cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
__cow_string::~__cow_string() { vs_free((void*)_M_p, K_MALLOC); }
#define VS_BASE(C) C::C(const string& s) : exception(), _M_msg(s) {} C::C(const char* s) : exception(), _M_msg(s, strlen(s)) {} C::C(const C& o) noexcept : exception(o), _M_msg(o._M_msg) {} C& C::operator=(const C& o) noexcept { _M_msg = o._M_msg; return *this; } C::C(C&& o) noexcept : exception(o), _M_msg(std::move(o._M_msg)) {} C& C::operator=(C&& o) noexcept { _M_msg = std::move(o._M_msg); return *this; } C::~C() noexcept {} const char* C::what() const noexcept { return _M_msg._M_p; }
VS_BASE(logic_error) VS_BASE(runtime_error)
#define VS_DER(C, B) C::C(const string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept {}
VS_DER(domain_error, logic_error) VS_DER(invalid_argument, logic_error) VS_DER(length_error, logic_error) VS_DER(out_of_range, logic_error) VS_DER(range_error, runtime_error) VS_DER(overflow_error, runtime_error) VS_DER(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); } void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_domain_error(const char* s) { throw domain_error(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } void __throw_length_error(const char* s) { throw length_error(s); } void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_range_error(const char* s) { throw range_error(s); } void __throw_overflow_error(const char* s) { throw overflow_error(s); } void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { abort(); }

// ------------------------------------------------------------------ red-black tree (CLR insertion and deletion, header node keeps root, leftmost, rightmost)
typedef _Rb_tree_node_base* NP;
static NP rb_inc(NP x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static NP rb_dec(NP x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { NP y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { NP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return rb_inc(x); } const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return rb_inc(const_cast<NP>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return rb_dec(x); } const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return rb_dec(const_cast<NP>(x)); }
static void rotL(NP x, NP& root) { NP y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotR(NP x, NP& root) { NP y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, NP x, NP p, _Rb_tree_node_base& h) noexcept {
  NP& root = h._M_parent; x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) { NP g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) { NP y = g->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotR(g, root); } }
    else { NP y = g->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotL(g, root); } } }
  root->_M_color = _S_black; }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(NP z, _Rb_tree_node_base& h) noexcept {
  NP &root = h._M_parent, &leftmost = h._M_left, &rightmost = h._M_right; NP y = z, x = nullptr, xp = nullptr;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { NP m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { NP m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } } }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black)) {
      if (x == xp->_M_left) { NP w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; } }
      else { NP w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; } } }
    if (x) x->_M_color = _S_black; }
  return y; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t p[] = {1, 3, 5, 7, 11, 13, 17, 19, 23, 29, 37, 47, 59, 79, 97, 137, 199, 293, 409, 541, 733, 1109, 1741}; for (size_t q : p) if (q >= n && (q > 1 || n <= 1)) { _M_next_resize = q * (double)_M_max_load_factor; return q; } return n | 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { size_t m = (ne + ni) > 11 || _M_next_resize ? ne + ni : 11; if (m >= nb) return {true, _M_next_bkt(std::max(m + 1, nb * 2))}; _M_next_resize = nb; return {false, 0}; } return {false, 0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed ^ 0xcbf29ce484222325ull; for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ull; return h; }

// ------------------------------------------------------------------ the classic locale
locale::facet::~facet() {} 
__c_locale locale::facet::_S_get_c_locale() { return (__c_locale) nullptr; } const char* locale::facet::_S_get_c_name() noexcept { return "C"; } __c_locale locale::facet::_S_clone_c_locale(__c_locale& c) noexcept { return c; } void locale::facet::_S_destroy_c_locale(__c_locale&) {}
_Atomic_word locale::id::_S_refcount; 
size_t locale::id::_M_id() const noexcept { if (!_M_index) _M_index = ++_S_refcount; return _M_index - 1; }
locale::id ctype<char>::id; 
}
namespace std {
struct VsTab { ctype_base::mask t[256]; constexpr VsTab() : t() { for (int c = 0; c < 256; ++c) { ctype_base::mask m = 0; bool sp = c == ' ' || (c >= 9 && c <= 13), up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', di = c >= '0' && c <= '9', pr = c >= 32 && c < 127; if (sp) m |= ctype_base::space; if (up) m |= ctype_base::upper | ctype_base::alpha; if (lo) m |= ctype_base::lower | ctype_base::alpha; if (di) m |= ctype_base::digit; if (di || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) m |= ctype_base::xdigit; if (pr) m |= ctype_base::print; if (pr && !sp && !up && !lo && !di) m |= ctype_base::punct; if (c < 32 || c == 127) m |= ctype_base::cntrl; if (c == ' ' || c == 9) m |= ctype_base::blank; t[c] = m; } } };
static constexpr VsTab vs_tab{}; static int vs_up[256], vs_low[256];
ctype<char>::ctype(const mask* t, bool d, size_t r) : facet(r), _M_c_locale_ctype(nullptr), _M_del(false), _M_toupper(vs_up), _M_tolower(vs_low), _M_table(vs_tab.t), _M_widen_ok(0), _M_narrow_ok(0) { __builtin_memset(_M_widen, 0, sizeof _M_widen); __builtin_memset(_M_narrow, 0, sizeof _M_narrow); }
ctype<char>::~ctype() {} const ctype_base::mask* ctype<char>::classic_table() noexcept { return vs_tab.t; }
char ctype<char>::do_toupper(char c) const { return (char)toupper((unsigned char)c); } const char* ctype<char>::do_toupper(char* a, const char* b) const { for (; a < b; ++a) *a = do_toupper(*a); return b; } char ctype<char>::do_tolower(char c) const { return (char)tolower((unsigned char)c); } const char* ctype<char>::do_tolower(char* a, const char* b) const { for (; a < b; ++a) *a = do_tolower(*a); return b; }
void ctype<char>::_M_widen_init() const {} void ctype<char>::_M_narrow_init() const {}
template <> numpunct<char>::~numpunct() {} 
template <> void numpunct<char>::_M_initialize_numpunct(__c_locale) { if (!_M_data) _M_data = new __numpunct_cache<char>; _M_data->_M_grouping = ""; _M_data->_M_grouping_size = 0; _M_data->_M_use_grouping = false; _M_data->_M_decimal_point = '.'; _M_data->_M_thousands_sep = ','; for (size_t i = 0; i < __num_base::_S_oend; ++i) _M_data->_M_atoms_out[i] = __num_base::_S_atoms_out[i]; for (size_t i = 0; i < __num_base::_S_iend; ++i) _M_data->_M_atoms_in[i] = __num_base::_S_atoms_in[i]; _M_data->_M_truename = "true"; _M_data->_M_truename_size = 4; _M_data->_M_falsename = "false"; _M_data->_M_falsename_size = 5; }
const char* __num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF"; const char* __num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
void __num_base::_S_format_float(const ios_base& io, char* f, char mod) noexcept {
  ios_base::fmtflags fl = io.flags(); *f++ = '%'; if (fl & ios_base::showpos) *f++ = '+'; if (fl & ios_base::showpoint) *f++ = '#'; ios_base::fmtflags ff = fl & ios_base::floatfield;
  if (ff != (ios_base::fixed | ios_base::scientific)) { *f++ = '.'; *f++ = '*'; } if (mod) *f++ = mod; if (ff == ios_base::fixed) *f++ = 'f'; else if (ff == ios_base::scientific) *f++ = (fl & ios_base::uppercase) ? 'E' : 'e'; else if (ff == (ios_base::fixed | ios_base::scientific)) *f++ = (fl & ios_base::uppercase) ? 'A' : 'a'; else *f++ = (fl & ios_base::uppercase) ? 'G' : 'g'; *f = 0; }
bool __verify_grouping(const char*, size_t, const string&) noexcept { return true; }
template <> void __convert_to_v(const char* s, float& v, ios_base::iostate& e, const __c_locale&) noexcept { e = ios_base::failbit; v = 0; vs_check(0, "model: parsing floating-point text is not supported"); }
template <> void __convert_to_v(const char* s, double& v, ios_base::iostate& e, const __c_locale&) noexcept { bool neg = false; if (*s == '-' || *s == '+') neg = *s++ == '-'; double r = 0, k = 1; bool any = false; while (*s >= '0' && *s <= '9') { r = r * 10 + (*s++ - '0'); any = true; } if (*s == '.') { ++s; while (*s >= '0' && *s <= '9') { k /= 10; r += k * (*s++ - '0'); any = true; } } if (!any || *s) { e = ios_base::failbit; v = 0; } else v = neg ? -r : r; }
template <> void __convert_to_v(const char* s, long double& v, ios_base::iostate& e, const __c_locale&) noexcept { e = ios_base::failbit; v = 0; vs_check(0, "model: parsing floating-point text is not supported"); }

template class num_put<char>; template class num_get<char>; template class numpunct<char>;
const size_t vs_nfacets = 64;
static const locale::facet* vs_facets[vs_nfacets]; static const locale::facet* vs_caches[vs_nfacets];
locale::_Impl::~_Impl() noexcept {} 
locale::_Impl::_Impl(size_t r) noexcept : _M_refcount(r), _M_facets(vs_facets), _M_facets_size(vs_nfacets), _M_caches(vs_caches), _M_names(nullptr) {}
void locale::_Impl::_M_install_facet(const locale::id* i, const facet* f) { vs_facets[i->_M_id()] = f; } void locale::_Impl::_M_install_cache(const facet* f, size_t i) { vs_caches[i] = f; }
alignas(locale::_Impl) static char vs_impl_mem[sizeof(locale::_Impl)]; alignas(locale) static char vs_loc_mem[sizeof(locale)];
locale::_Impl* locale::_S_classic; locale::_Impl* locale::_S_global;
static bool vs_loc_ready;
static void vs_init_locale() { if (vs_loc_ready) return; vs_loc_ready = true; auto* im = new (vs_impl_mem) locale::_Impl(2); locale::_S_classic = locale::_S_global = im; for (int i = 0; i < 256; ++i) { vs_up[i] = toupper(i); vs_low[i] = tolower(i); }
  alignas(ctype<char>) static char a[sizeof(ctype<char>)]; alignas(numpunct<char>) static char b[sizeof(numpunct<char>)]; alignas(num_put<char>) static char c[sizeof(num_put<char>)]; alignas(num_get<char>) static char d[sizeof(num_get<char>)]; alignas(__numpunct_cache<char>) static char n[sizeof(__numpunct_cache<char>)];
  im->_M_install_facet(&ctype<char>::id, new (a) ctype<char>(nullptr, false, 1)); im->_M_install_facet(&numpunct<char>::id, new (b) numpunct<char>(1)); im->_M_install_facet(&num_put<char>::id, new (c) num_put<char>(1)); im->_M_install_facet(&num_get<char>::id, new (d) num_get<char>(1));
  new (vs_loc_mem) locale(im); auto* cache = new (n) __numpunct_cache<char>(1); cache->_M_cache(*(locale*)vs_loc_mem); vs_caches[numpunct<char>::id._M_id()] = cache; }
locale::locale() noexcept : _M_impl((vs_init_locale(), _S_classic)) {} locale::locale(const locale& o) noexcept : _M_impl(o._M_impl) {} locale::~locale() noexcept {} const locale& locale::operator=(const locale& o) noexcept { _M_impl = o._M_impl; return *this; } const locale& locale::classic() { vs_init_locale(); return *(locale*)vs_loc_mem; } bool locale::operator==(const locale& o) const noexcept { return _M_impl == o._M_impl; } string locale::name() const { return "C"; } locale locale::global(const locale& o) { return o; }
locale::locale(_Impl* i) noexcept : _M_impl(i) {}

// ------------------------------------------------------------------ streams
ios_base::ios_base() noexcept : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {} void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); } locale ios_base::imbue(const locale& l) noexcept { locale o = _M_ios_locale; _M_ios_locale = l; return o; } void ios_base::_M_call_callbacks(event) noexcept {} void ios_base::_M_dispose_callbacks() noexcept { _M_callbacks = 0; } int ios_base::xalloc() noexcept { static int n; return n++ + 4; } void ios_base::register_callback(event_callback, int) {} bool ios_base::sync_with_stdio(bool b) { return b; } 
void ios_base::_M_move(ios_base& r) noexcept { _M_precision = r._M_precision; _M_width = r._M_width; _M_flags = r._M_flags; _M_exception = r._M_exception; _M_streambuf_state = r._M_streambuf_state; } void ios_base::_M_swap(ios_base&) noexcept {}
ios_base::Init::Init() {} ios_base::Init::~Init() {}
error_category::~error_category() noexcept {} error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); } bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; } bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; } __cow_string error_category::_M_message(int) const { return __cow_string(); }
struct VsCat : error_category { const char* name() const noexcept override { return "iostream"; } string message(int) const override { return "iostream error"; } };
const error_category& iostream_category() noexcept { static VsCat c; return c; }
system_error::~system_error() noexcept {} ios_base::failure::~failure() {} const char* ios_base::failure::what() const noexcept { return system_error::what(); }
ios_base::failure::failure(const string& s) : system_error(io_errc::stream, s) {} ios_base::failure::failure(const char* s, const error_code& e) : system_error(e, s) {} ios_base::failure::failure(const string& s, const error_code& e) : system_error(e, s) {}
void __throw_ios_failure(const char* s) { throw ios_base::failure(string(s)); } void __throw_ios_failure(const char* s, int) { throw ios_base::failure(string(s)); }
template class allocator<char>; template class basic_string<char>; template class basic_streambuf<char>; template class basic_ios<char>; template class basic_ostream<char>; template class basic_istream<char>; template class basic_iostream<char>; template class basic_stringbuf<char>; template class basic_istringstream<char>; template class basic_ostringstream<char>; template class basic_stringstream<char>;
template ostream& operator<<(ostream&, char); template ostream& operator<<(ostream&, const char*); template ostream& operator<<(ostream&, unsigned char); template ostream& operator<<(ostream&, signed char); template ostream& operator<<(ostream&, const string&); template ostream& __ostream_insert(ostream&, const char*, streamsize); template ostream& endl(ostream&); template ostream& ends(ostream&); template ostream& flush(ostream&);
template istream& operator>>(istream&, char&); template istream& operator>>(istream&, unsigned char&); template istream& operator>>(istream&, string&); template istream& ws(istream&); template <> basic_istream<char>& getline(basic_istream<char>& in, string& str, char d) { ios_base::iostate e = ios_base::goodbit; bool got = false; istream::sentry c(in, true); if (c) { str.erase(); for (;;) { int ch = in.rdbuf()->sgetc(); if (ch == EOF) { e |= ios_base::eofbit; break; } in.rdbuf()->sbumpc(); got = true; if ((char)ch == d) break; str += (char)ch; } } if (!got) e |= ios_base::failbit; if (e) in.setstate(e); return in; }
 template istream& getline(istream&, string&);
template ostream& ostream::_M_insert(long); template ostream& ostream::_M_insert(unsigned long); template ostream& ostream::_M_insert(long long); template ostream& ostream::_M_insert(unsigned long long); template ostream& ostream::_M_insert(bool); template ostream& ostream::_M_insert(double); template ostream& ostream::_M_insert(long double); template ostream& ostream::_M_insert(const void*);
template istream& istream::_M_extract(long&); template istream& istream::_M_extract(unsigned long&); template istream& istream::_M_extract(long long&); template istream& istream::_M_extract(unsigned long long&); template istream& istream::_M_extract(bool&); template istream& istream::_M_extract(double&); template istream& istream::_M_extract(unsigned short&); template istream& istream::_M_extract(unsigned int&); template istream& istream::_M_extract(float&);
template const ctype<char>* __try_use_facet<ctype<char>>(const locale&) noexcept; template const num_put<char>* __try_use_facet<num_put<char>>(const locale&) noexcept; template const num_get<char>* __try_use_facet<num_get<char>>(const locale&) noexcept; template const numpunct<char>* __try_use_facet<numpunct<char>>(const locale&) noexcept;
template streamsize __copy_streambufs(streambuf*, streambuf*); template streamsize __copy_streambufs_eof(streambuf*, streambuf*, bool&);
void ios_base_library_init() {} void terminate() noexcept;
template bool has_facet<ctype<char>>(const locale&); template const ctype<char>& use_facet<ctype<char>>(const locale&); template const num_put<char>& use_facet<num_put<char>>(const locale&); template const num_get<char>& use_facet<num_get<char>>(const locale&); template const numpunct<char>& use_facet<numpunct<char>>(const locale&); template bool has_facet<num_put<char>>(const locale&); template bool has_facet<num_get<char>>(const locale&);
template struct __pad<char, char_traits<char>>;
template int __int_to_char(char*, unsigned long, const char*, ios_base::fmtflags, bool); template int __int_to_char(char*, unsigned long long, const char*, ios_base::fmtflags, bool);
template char* __add_grouping(char*, char, const char*, size_t, const char*, const char*);
struct VsSink : streambuf { char b[8]; int overflow(int c) override { return c == EOF ? 0 : c; } streamsize xsputn(const char*, streamsize n) override { return n; } };
static VsSink& vs_sink() { static VsSink x; return x; }
__attribute__((init_priority(101))) static struct VsBoot { VsBoot() { vs_init_locale(); } } vs_boot;
__attribute__((init_priority(102))) static VsSink vs_the_sink;
__attribute__((init_priority(103))) ostream cout(&vs_the_sink); __attribute__((init_priority(103))) ostream cerr(&vs_the_sink); __attribute__((init_priority(103))) ostream clog(&vs_the_sink); __attribute__((init_priority(103))) istream cin(&vs_the_sink);
template <> basic_istream<char>& basic_istream<char>::ignore(streamsize n, int_type d) { _M_gcount = 0; sentry c(*this, true); if (c) { int_type ch = 0; while (_M_gcount < n) { ch = rdbuf()->sbumpc(); if (ch == EOF) { setstate(ios_base::eofbit); break; } ++_M_gcount; if (ch == d) break; } } return *this; }
}
