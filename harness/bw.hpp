// helpers for the BinaryWord harnesses
#pragma once
#include <sstream>
#include <string>
namespace Helper { using StringType = std::string; using StringStream = std::stringstream; }
#include "vs.hpp"
#include "binary_word.hpp"
using Helper::BinaryWord;
// a word of n arbitrary bits; the bits are noted in b (storage words are set directly, which gives no path per bit)
template <class W> inline void put64(W& w, size_t k, uint64_t x, size_t r) { if constexpr (requires { w.begin()._M_p[k] = x; }) { (void)r; w.begin()._M_p[k] = x; } else for (size_t i = 0; i < r; ++i) w[64 * k + i] = (bool)((x >> i) & 1); }
inline BinaryWord word(size_t n, unsigned char* b, const char* name) { BinaryWord w; w.resize(n); for (size_t k = 0; 64 * k < n; ++k) { size_t r = n - 64 * k < 64 ? n - 64 * k : 64; uint64_t x = 0; for (size_t i = 0; i < r; ++i) { bool v = vs::boolean(name); b[64 * k + i] = v; x |= (uint64_t)v << i; } put64(w, k, x, r); } return w; }
// a word of n fixed bits with one arbitrary bit
inline BinaryWord word1(size_t n, size_t at, unsigned char* b, const char* name) { BinaryWord w; w.resize(n); unsigned h = 12345; bool x = vs::boolean(name); for (size_t i = 0; i < n; ++i) { h = h * 1103515245 + 12345; bool v = i == at ? x : (h >> 16) & 1; w[i] = v; b[i] = v; } return w; }
inline void same(const BinaryWord& w, const unsigned char* b, size_t n, const char* m) { CHECK(w.size() == n, m); CHECK(w.empty() == (n == 0), m); bool ok = true; for (size_t i = 0; i < n; ++i) ok = ok & ((unsigned char)(bool)w[i] == b[i]); CHECK(ok, m); }
// the same, built one storage word at a time (for long words)
inline BinaryWord wordp(size_t n, size_t at, unsigned char* b, const char* name, unsigned seed = 12345) { BinaryWord w; w.resize(n); unsigned h = seed; bool x = vs::boolean(name); for (size_t k = 0; 64 * k < n; ++k) { size_t r = n - 64 * k < 64 ? n - 64 * k : 64; uint64_t y = 0; for (size_t i = 0; i < r; ++i) { h = h * 1103515245 + 12345; bool v = (h >> 16) & 1; if (64 * k + i == at) v = x; b[64 * k + i] = v; y |= (uint64_t)v << i; } put64(w, k, y, r); } return w; }
inline size_t long_size(size_t lim) { static const size_t s[] = {319, 320, 321, 511, 512, 513, 600, 1023, 1024, 1025, 2049, 4097}; size_t k = vs::pick(0, lim + 12, "size"); return k <= lim ? k : s[k - lim - 1]; }
