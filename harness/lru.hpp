// helpers for the LRUCache harnesses: the reference is the list of held labels, most recently used first, with their values
#pragma once
#include <sstream>
#include <stdexcept>
#include <string>
#include "vs.hpp"
#include "lru_cache.hpp"
using Helper::LRUCache; using vs::Elem;
struct Ref {
  size_t cap; int l[400], v[400]; size_t n = 0;
  explicit Ref(size_t c) : cap(c) {}
  size_t at(int x) const { for (size_t i = 0; i < n; ++i) if (l[i] == x) return i; return n; }
  bool has(int x) const { return at(x) < n; }
  void use(size_t p) { int a = l[p], b = v[p]; for (size_t i = p; i > 0; --i) { l[i] = l[i - 1]; v[i] = v[i - 1]; } l[0] = a; v[0] = b; }
  void put(int x, int y) { if (n == cap) --n; l[n] = x; v[n] = y; ++n; use(n - 1); }
};
// a label whose text is one character (writing a symbolic int would branch on its digits)
struct Lab { int x; Lab(int i = 0) : x(i) {} friend bool operator<(const Lab& a, const Lab& b) { return a.x < b.x; } friend bool operator>(const Lab& a, const Lab& b) { return a.x > b.x; } friend bool operator<=(const Lab& a, const Lab& b) { return a.x <= b.x; } friend bool operator>=(const Lab& a, const Lab& b) { return a.x >= b.x; } friend bool operator==(const Lab& a, const Lab& b) { return a.x == b.x; } friend bool operator!=(const Lab& a, const Lab& b) { return a.x != b.x; } friend std::ostream& operator<<(std::ostream& o, const Lab& a) { return o.put((char)a.x); } };
inline int num(int x) { return x; } inline int num(const Elem& e) { return e.get(); } inline int num(const std::string& s) { return s.size() == 2 ? (unsigned char)s[1] : s.size() == 9 ? (unsigned char)s[8] : -1; }
template <class T> struct Mk { static T of(int x) { return T(x); } };
template <> struct Mk<std::string> { static std::string of(int x) { std::string s(x % 2 ? "v" : "vvvvvvvv"); s.push_back((char)x); return s; } };
// what can be observed without using a label
template <class L, class V> void held(LRUCache<L, V>& c, const Ref& r, const char* m) { CHECK(c.current_size() == r.n, m); CHECK(c.maximum_size() == r.cap, "maximum_size is the size given"); bool ok = true; for (size_t i = 0; i < r.n; ++i) ok = ok & c.has_label(Mk<L>::of(r.l[i])); CHECK(ok, m); }
template <class L, class V> void ages(LRUCache<L, V>& c, const Ref& r, const char* m) { CHECK(c.current_size() == r.n, m); bool ok = true; for (size_t i = 0; i < r.n; ++i) { size_t a = 999; if (vs::outcome<std::runtime_error>([&] { a = c.age(Mk<L>::of(r.l[i])); })) ok = false; else ok = ok & (a == i); } CHECK(ok, m); }
// reads every value, oldest first, which brings the labels back in the same order
template <class L, class V> void values(LRUCache<L, V>& c, const Ref& r, const char* m) { bool ok = true; for (size_t i = r.n; i-- > 0;) { const V* p = nullptr; if (vs::outcome<std::runtime_error>([&] { p = &c.get(Mk<L>::of(r.l[i])); })) ok = false; else ok = ok & (num(*p) == r.v[i]); } CHECK(ok, m); }
template <class L, class V> void put(LRUCache<L, V>& c, Ref& r, int l, int v) { c.put(Mk<L>::of(l), Mk<V>::of(v)); r.put(l, v); }
// a cache in an arbitrary reachable state: n labels used in any order
template <class L, class V> void prefill(LRUCache<L, V>& c, Ref& r, size_t n) { int l[8]; for (size_t i = 0; i < n; ++i) { l[i] = (int)(int8_t)vs::u8("l"); for (size_t j = 0; j < i; ++j) ASSUME(l[i] != l[j]); } for (size_t i = 0; i < n; ++i) put(c, r, l[i], vs::i32("v")); }
// many labels: capacities beyond a byte; a concrete history of many calls
inline size_t big_cap(long i) { static const size_t s[] = {33, 64, 65, 127, 128, 129, 255, 256, 257, 300}; return s[i]; }
inline int scattered(size_t i) { return (int)(i * 37 % 1009) - 300; }
template <class L, class V> void fill(LRUCache<L, V>& c, Ref& r, size_t n) { for (size_t i = 0; i < n; ++i) put(c, r, scattered(i), (int)i); }
inline int label() { return (int)(int8_t)vs::u8("q"); }
