// helpers for the map harnesses: the reference is a strictly increasing key array with the values
#pragma once
#include "sets.hpp"
struct RM {
  int k[1100], v[1100]; size_t n = 0;
  // position of x or n, one path per position
  size_t at(int x) const { for (size_t i = 0; i < n; ++i) if (k[i] == x) return i; return n; }
  bool has(int x) const { return at(x) < n; }
  void put(int x, int y) { size_t p = at(x); if (p < n) { v[p] = y; return; } size_t j = n; while (j > 0 && x < k[j - 1]) { k[j] = k[j - 1]; v[j] = v[j - 1]; --j; } k[j] = x; v[j] = y; ++n; }
  void add(int x, int y) { if (!has(x)) put(x, y); }
  void del(int x) { size_t p = at(x); if (p == n) return; for (size_t i = p; i + 1 < n; ++i) { k[i] = k[i + 1]; v[i] = v[i + 1]; } --n; }
};
inline int akey(const char* nm) { return wide ? vs::i32(nm) : (int)(int8_t)vs::u8(nm); }
inline RM arbitrary_map(size_t lo, size_t hi, const char* nm) { RM r; r.n = vs::pick(lo, hi, nm); for (size_t i = 0; i < r.n; ++i) { r.k[i] = akey("k"); r.v[i] = vs::i32("v"); if (i) ASSUME(r.k[i - 1] < r.k[i]); } return r; }
inline RM progression_map(int from, int step, size_t n) { RM r; r.n = n; for (size_t i = 0; i < n; ++i) { r.k[i] = from + (int)i * step; r.v[i] = vs::i32("v"); } return r; }
// concrete values but for one arbitrary one
inline RM progression_map1(int from, int step, size_t n, size_t p, int off = 0) { RM r; r.n = n; for (size_t i = 0; i < n; ++i) { r.k[i] = from + (int)i * step; r.v[i] = (int)(i * 7 % 1000) + off; } if (p < n) r.v[p] = vs::i32("v"); return r; }
inline RM masked_map(int K, const char* nm, int from = -9, int step = 7) { RS s = masked(K, nm, from, step); RM r; r.n = s.n; for (size_t i = 0; i < s.n; ++i) { r.k[i] = s.v[i]; r.v[i] = vs::i32("v"); } return r; }
template <class K = int, class T = int> std::map<K, T> mkm(const RM& r) { std::map<K, T> m; for (size_t i = 0; i < r.n; ++i) m.insert(m.end(), std::pair<const K, T>(K(r.k[i]), T(r.v[i]))); return m; }
template <class M> void same(const M& m, const RM& r, const char* msg) { CHECK(m.size() == r.n, msg); if (m.size() != r.n) return; bool ok = true; size_t i = 0; for (auto it = m.begin(); it != m.end() && i < r.n; ++it, ++i) ok = ok & (key(it->first) == r.k[i]) & (key(it->second) == r.v[i]); CHECK(ok && i == r.n, msg); }
