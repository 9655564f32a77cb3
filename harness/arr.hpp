// helpers shared by the Array harnesses
#pragma once
#include <cstddef>
#include <string>
#include <list>
#include <stdexcept>
#include <vector>
#include "vs.hpp"
#include "array.hpp"
using Helper::Array; using Helper::Uninitialised; using vs::Elem;
struct Pair8 { char c; double d; int v; Pair8() : c(1), d(2.5), v(7) { } Pair8(int x) : c(2), d(0.5), v(x) { } friend bool operator==(const Pair8& a, const Pair8& b) { return (a.v == b.v) & (a.c == b.c) & (a.d == b.d); } friend bool operator!=(const Pair8& a, const Pair8& b) { return !(a == b); } friend bool operator<(const Pair8& a, const Pair8& b) { return a.v < b.v; } };
template <class T> struct El { static T mk(int x) { return T(x); } static int val(const T& t) { return (int)t; } static T dflt() { return T(); } static const char* w() { return "e"; } };
template <> struct El<Elem> { static Elem mk(int x) { return Elem(x); } static int val(const Elem& t) { return t.get(); } static Elem dflt() { return Elem(); } };
template <> struct El<bool> { static bool mk(int x) { return x & 1; } static int val(bool t) { return t; } static bool dflt() { return false; } };
template <> struct El<unsigned char> { static unsigned char mk(int x) { return x & 0xff; } static int val(unsigned char t) { return t; } static unsigned char dflt() { return 0; } };
template <> struct El<std::string> { static std::string mk(int x) { return std::string(1 + 19 * (x & 1), (char)x); } static int val(const std::string& t) { return t.size() == 1 || t.size() == 20 ? (int)(signed char)t[t.size() - 1] : t.empty() ? 0 : -999; } static std::string dflt() { return ""; } };
template <> struct El<Pair8> { static Pair8 mk(int x) { return Pair8(x); } static int val(const Pair8& t) { return t.v; } static Pair8 dflt() { return Pair8(); } };
// what El<T>::val(El<T>::mk(x)) has to be
template <class T> int norm(int x) { return El<T>::val(El<T>::mk(x)); }
template <> inline int norm<Elem>(int x) { return x; } template <> inline int norm<int>(int x) { return x; } template <> inline int norm<Pair8>(int x) { return x; } template <> inline int norm<bool>(int x) { return x & 1; } template <> inline int norm<unsigned char>(int x) { return x & 0xff; } template <> inline int norm<std::string>(int x) { return (int)(signed char)x; }
template <class T> int dval() { return El<T>::val(El<T>::dflt()); }

// the whole readable content of a, by every access path, is exp[0..n)
template <class T> void content(Array<T>& a, const int* exp, size_t n, const char* msg) {
  const Array<T>& c = a; CHECK(a.size() == n, msg); CHECK(c.empty() == (n == 0), msg);
  CHECK(a.end() - a.begin() == (std::ptrdiff_t)n && c.end() - c.begin() == (std::ptrdiff_t)n, msg);
  CHECK((const T*)a.begin() == c.begin(), msg); bool ok = true;
  for (size_t i = 0; i < n; ++i) { bool same = &a[i] == a.begin() + i && &c[i] == c.begin() + i && &a.at(i) == &a[i] && &c.at(i) == &c[i]; CHECK(same, msg); ok = ok & (El<T>::val(c[i]) == exp[i]); }
  CHECK(ok, msg);
  if (n) { CHECK(&a.front() == &a[0] && &a.back() == &a[n - 1] && &c.front() == &c[0] && &c.back() == &c[n - 1], msg); } }
struct Ref { int v[300]; size_t n = 0; };
template <class T> T fresh(int& out) { int x = std::is_same<T, std::string>::value ? (int)vs::range(1, 100, "v") : vs::i32("v"); out = norm<T>(x); return El<T>::mk(x); }
template <> inline std::string fresh<std::string>(int& out) { static const char k[] = "0123456789abcdefghijklmnopqrstuvwxyz"; static int i = 0; i = (i + 1) % 36; int x = k[i]; out = x; return El<std::string>::mk(x); }
// an array of n arbitrary elements, with its content noted in r
template <class T> Array<T> make(size_t n, Ref& r) { Array<T> a(n, Uninitialised()); for (size_t i = 0; i < n; ++i) new (a.begin() + i) T(fresh<T>(r.v[i])); r.n = n; return a; }
// a size: every one up to lim, then some around the powers of two and beyond what 8 and 16 bits count
inline size_t any_size(size_t lim) { static const size_t s[] = {511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 70001}; size_t k = vs::pick(0, lim + 18, "size"); return k <= lim ? k : s[k - lim - 1]; }
// a long array: element i is determined by i and an arbitrary number
template <class T> T pat(size_t i, int b) { return El<T>::mk((int)((unsigned)i * 7u + (unsigned)b)); }
template <class T> int pv(size_t i, int b) { return norm<T>((int)((unsigned)i * 7u + (unsigned)b)); }
template <class T, class F> void holds(const Array<T>& a, size_t n, const char* msg, F f) { CHECK(a.size() == n && a.empty() == (n == 0) && (size_t)(a.end() - a.begin()) == n, msg); if (a.size() != n) return; bool ok = true; for (size_t i = 0; i < n; ++i) ok = ok & (El<T>::val(a[i]) == f(i)); CHECK(ok, msg); if (n) CHECK(&a.back() == &a[n - 1] && &a.at(n - 1) == &a[n - 1], msg); int o = vs::outcome<std::out_of_range>([&] { a.at(n); }); CHECK(o == 1, msg); }
