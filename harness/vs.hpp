// Harness interface. The same source is run symbolically (engine/vsx.cpp) and natively on concrete inputs (engine/vs_native.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
unsigned long vs_sym(unsigned bits, const char* name);   // a fresh symbolic value of that many bits
void vs_assume(int c);                                   // restrict to inputs with c
void vs_check(int c, const char* msg);                   // the assertion: the solver must show c for every remaining input
void vs_reach(const char* label);                        // marks a situation the exploration has to cover
void vs_observe(unsigned long v);                        // recorded; compared with the native run of sampled paths
long vs_heap_live(void);                                 // blocks obtained from new/malloc and not released
void vs_expect_abort(int on);                            // from here on, abort() is a normal end of the run
long vs_param(const char* name, long dflt);              // bound taken from the command line
long vs_concrete(long v);                                // the same value, one path per possible value
void vs_fail_alloc(long k);                              // the k-th next allocation (0 = next) fails; -1 = never
long vs_fail_left(void);
void vs_skew(long n);                                    // from here on, new places blocks n bytes (a multiple of 16) after a page boundary
}
#define CHECK(c, msg) vs_check((c) ? 1 : 0, msg)
#define ASSUME(c) vs_assume((c) ? 1 : 0)
#define TEST(name) extern "C" void t_##name()
namespace vs {
inline bool boolean(const char* n) { return vs_sym(1, n) != 0; }
inline uint8_t u8(const char* n) { return (uint8_t)vs_sym(8, n); }
inline int i32(const char* n) { return (int)(uint32_t)vs_sym(32, n); }
inline uint32_t u32(const char* n) { return (uint32_t)vs_sym(32, n); }
inline int64_t i64(const char* n) { return (int64_t)vs_sym(64, n); }
inline uint64_t u64(const char* n) { return vs_sym(64, n); }
inline double f64(const char* n) { uint64_t x = vs_sym(64, n); double d; __builtin_memcpy(&d, &x, 8); return d; }
// a symbolic number in [lo,hi]
inline long range(long lo, long hi, const char* n) { long v = (long)vs_sym(16, n); vs_assume(v <= hi - lo); return lo + v; }
// a number in [lo,hi], one path per value
inline long pick(long lo, long hi, const char* n) { long v = (long)vs_sym(16, n); vs_assume(v <= hi - lo); return lo + vs_concrete(v); }
// a yes or no, one path each
inline bool flag(const char* n) { return vs_concrete((long)vs_sym(1, n)) != 0; }
inline long param(const char* n, long d) { return vs_param(n, d); }
// run f and tell what happened: 0 returned, 1 threw E, 2 threw something else
template <class E, class F> int outcome(F f) { try { f(); } catch (const E&) { return 1; } catch (...) { return 2; } return 0; }

// An element type with a symbolic value whose every construction, copy and destruction is checked.
struct Boom { };
struct Count { long live = 0, made = 0, copies = 0, throw_at = -1; };
inline Count& cnt() { static Count c; return c; }
struct Elem {
  static constexpr unsigned ALIVE = 0x51A11FEu, DEAD = 0xDEADDEAu, MOVED = 0x30BEDu;
  int v; unsigned st;
  static void tick() { Count& c = cnt(); if (c.throw_at >= 0 && c.throw_at-- == 0) throw Boom(); }
  Elem() : v(0), st(0) { tick(); born(); }
  Elem(int x) : v(x), st(0) { tick(); born(); }
  Elem(const Elem& o) : v(o.v), st(0) { o.usable(); tick(); ++cnt().copies; born(); }
  Elem(Elem&& o) noexcept : v(o.v), st(0) { o.usable(); born(); o.st = MOVED; }
  Elem& operator=(const Elem& o) { assignable(); o.usable(); tick(); ++cnt().copies; v = o.v; st = ALIVE; return *this; }
  Elem& operator=(Elem&& o) noexcept { assignable(); o.usable(); v = o.v; st = ALIVE; if (this != &o) o.st = MOVED; return *this; }
  ~Elem() { vs_check(st == ALIVE || st == MOVED, "every element destroyed is a live object"); st = DEAD; --cnt().live; }
  void born() { st = ALIVE; ++cnt().live; ++cnt().made; }
  void usable() const { vs_check(st == ALIVE, "only live, not moved-from elements are read"); }
  void assignable() const { vs_check(st == ALIVE || st == MOVED, "only constructed elements are assigned to"); }
  int get() const { usable(); return v; }
  friend bool operator==(const Elem& a, const Elem& b) { a.usable(); b.usable(); return a.v == b.v; }
  friend bool operator!=(const Elem& a, const Elem& b) { return !(a == b); }
  friend bool operator<(const Elem& a, const Elem& b) { a.usable(); b.usable(); return a.v < b.v; }
};
template <class OS> auto operator<<(OS& os, const Elem& e) -> decltype(os.put('c'), os) { os.put((char)e.get()); return os; }
}
