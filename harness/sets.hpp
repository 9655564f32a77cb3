// helpers for the set and map harnesses: reference sets are strictly increasing arrays of arbitrary ints
#pragma once
#include <sstream>
#include "vs.hpp"
#include "container.hpp"
using Helper::Set; using Helper::Map; using Helper::List; using Helper::Array; using vs::Elem;
struct RS { int v[1100]; size_t n = 0; bool has(int x) const { bool r = false; for (size_t i = 0; i < n; ++i) r = r | (v[i] == x); return r; } };
inline int key(int x) { return x; } inline int key(const Elem& e) { return e.get(); } inline int key(short e) { return e; }
template <class T = int> std::set<T> mk(const RS& r) { std::set<T> s; for (size_t i = 0; i < r.n; ++i) s.insert(s.end(), T(r.v[i])); return s; }
static bool wide = false; // 8-bit keys unless set: the order of keys is all that matters to the code under test
inline RS arbitrary(size_t lo, size_t hi, const char* nm) { RS r; r.n = vs::pick(lo, hi, nm); for (size_t i = 0; i < r.n; ++i) { r.v[i] = wide ? vs::i32("x") : (int)(int8_t)vs::u8("x"); if (i) ASSUME(r.v[i - 1] < r.v[i]); } return r; }
inline RS arbitrary_list(size_t lo, size_t hi, const char* nm) { RS r; r.n = vs::pick(lo, hi, nm); for (size_t i = 0; i < r.n; ++i) r.v[i] = wide ? vs::i32("y") : (int)(int8_t)vs::u8("y"); return r; }
// concrete progressions, for larger sets
inline RS progression(int from, int step, size_t n) { RS r; r.n = n; for (size_t i = 0; i < n; ++i) r.v[i] = from + (int)i * step; return r; }
// many elements: one of these sizes; the second operand is shifted and strided against the first
inline size_t many(long i) { static const size_t s[] = {33, 64, 65, 100, 128, 129, 255, 256, 257, 300, 513, 1000}; return s[i]; }
// any subset of {from, from+step, ..} of K elements, one path per subset
inline RS masked(int K, const char* nm, int from = -9, int step = 7) { RS r; long m = vs::pick(0, (1L << K) - 1, nm); for (int i = 0; i < K; ++i) if (m >> i & 1) r.v[r.n++] = from + i * step; return r; }
// any list of up to L elements of that set, one path per list
inline RS digits(int L, int K, const char* nm, int from = -9, int step = 7) { RS r; r.n = vs::pick(0, L, nm); for (size_t i = 0; i < r.n; ++i) r.v[i] = from + (int)vs::pick(0, K - 1, "d") * step; return r; }
template <class T> std::vector<T> mkl(const RS& r) { std::vector<T> l; for (size_t i = 0; i < r.n; ++i) l.push_back(T(r.v[i])); return l; }
template <class S> RS content(const S& s, const char* m) { RS r; for (auto it = s.begin(); it != s.end(); ++it) { r.v[r.n++] = key(*it); if (r.n == 1100) break; } CHECK(r.n == s.size(), m); return r; }
// s is exactly { x in a or b : keep(in a, in b) }
template <class S, class F> void is(const S& s, const RS& a, const RS& b, F keep, const char* m) {
  RS r = content(s, m); bool ok = true; for (size_t i = 1; i < r.n; ++i) ok = ok & (r.v[i - 1] < r.v[i]);
  for (size_t i = 0; i < r.n; ++i) ok = ok & (bool)keep(a.has(r.v[i]), b.has(r.v[i])) & (a.has(r.v[i]) | b.has(r.v[i]));
  for (size_t i = 0; i < a.n; ++i) ok = ok & (!keep(true, b.has(a.v[i])) | r.has(a.v[i])); for (size_t i = 0; i < b.n; ++i) ok = ok & (!keep(a.has(b.v[i]), true) | r.has(b.v[i]));
  CHECK(ok, m); }
template <class S> void same(const S& s, const RS& a, const char* m) { RS r = content(s, m); CHECK(r.n == a.n, m); if (r.n != a.n) return; bool ok = true; for (size_t i = 0; i < a.n; ++i) ok = ok & (r.v[i] == a.v[i]); CHECK(ok, m); }
inline bool u_(bool a, bool b) { return a | b; } inline bool d_(bool a, bool b) { return a & !b; } inline bool i_(bool a, bool b) { return a & b; }
