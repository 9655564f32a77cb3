//@ quick
//@ thorough
//@ bounds Every code of the code type (8-bit char, 16-bit, 32-bit and 64-bit integers, an enumeration) for every number of alternatives from 1 to 16, with codes in increasing, decreasing and scattered order; visitors that return a number, nothing, a reference, a constant reference, an object, a type that cannot be copied, or throw.
//@ outside Alternatives with equal codes (rejected by the compiler).
#include <cstdlib>
#include <memory>
#include <string>
#include <utility>
#include "vs.hpp"
#include "variant.hpp"
#include "variant.inl.hpp"
using namespace Helper;
static constexpr int codes[16] = {3, -7, 0, 100, 5, 127, -128, 9, 2, -1, 1, 64, 33, -64, 7, 8};
template <int K, class C, int MODE> struct Alt { static constexpr C code() { return (C)(MODE == 0 ? K + 1 : MODE == 1 ? 16 - K : MODE == 2 ? codes[K] : (int64_t)codes[K % 4] + (int64_t)(K / 4 + 1) * (int64_t)0x100000000); } int own = 1000 + K; };
static int calls, which; 
template <class C, int MODE> struct Vis { int base; template <int K> int operator()(const Alt<K, C, MODE>& a) const { ++calls; which = K; return base + a.own; } };
struct Vd { int* n; template <int K, class C, int M> void operator()(const Alt<K, C, M>&) const { ++calls; which = K; *n += K + 1; } };
struct Vr { int* cell; template <int K, class C, int M> int& operator()(const Alt<K, C, M>&) const { ++calls; which = K; return cell[K]; } };
struct Vk { const int* cell; template <int K, class C, int M> const int& operator()(const Alt<K, C, M>&) const { ++calls; which = K; return cell[K]; } };
struct Vp { template <int K, class C, int M> std::unique_ptr<int> operator()(const Alt<K, C, M>& a) const { ++calls; which = K; return std::make_unique<int>(a.own); } };
struct Vs { template <int K, class C, int M> std::string operator()(const Alt<K, C, M>&) const { ++calls; which = K; return std::string("a result longer than the small buffer ") + (char)('A' + K); } };
struct Vt { template <int K, class C, int M> int operator()(const Alt<K, C, M>&) const { ++calls; which = K; throw K; } };
template <class T> static const void* where(T&& t) { return &t; }
template <class V> static void results(const V& v, int k) { int cells[16]; calls = 0; const void* p = where(v.accept(Vr{cells})); CHECK(p == cells + k && calls == 1 && which == k, "accept returns the reference the visitor returns"); p = where(v.accept(Vk{cells})); CHECK(p == cells + k && calls == 2 && which == k, "accept returns the constant reference the visitor returns"); CHECK((std::is_same<decltype(v.accept(Vr{cells})), int&>::value && std::is_same<decltype(v.accept(Vk{cells})), const int&>::value && std::is_same<decltype(v.accept(Vp())), std::unique_ptr<int>>::value), "accept returns what the visitor returns, of its type"); auto q = v.accept(Vp()); CHECK(*q == 1000 + k && calls == 3 && which == k, "accept returns an object that cannot be copied"); std::string t = v.accept(Vs()); CHECK(t.size() > 30 && t.back() == 'A' + k && calls == 4 && which == k, "accept returns the object the visitor returns"); int e = -1; try { v.accept(Vt()); } catch (int x) { e = x; } CHECK(e == k && calls == 5, "an exception of the visitor propagates"); }
template <class C, int MODE, int... I> static void run(C c, std::integer_sequence<int, I...>) {
  typedef CodedVariant<C, Alt<I, C, MODE>...> V; const int n = sizeof...(I); const V v(c); CHECK(v.code() == c, "the code is the one given");
  static constexpr C cs[] = {Alt<I, C, MODE>::code()...}; int k = -1; for (int i = 0; i < n; ++i) if (cs[i] == c) { k = i; break; }
  bool hold[] = {holds_alternative<Alt<I, C, MODE>>(v)...}; bool ok = true; for (int i = 0; i < n; ++i) ok = ok & (hold[i] == (i == k)); CHECK(ok, "holds_alternative is true exactly for the alternative of the code");
  calls = 0; which = -1; if (k < 0) { vs_reach("no alternative"); vs_expect_abort(1); v.accept(Vis<C, MODE>{0}); CHECK(false, "a code of no alternative aborts and never reaches the visitor"); return; }
  int b = vs::i32("base"); ASSUME(b > -1000000 && b < 1000000); const Vis<C, MODE> vis{b}; int r = v.accept(vis); CHECK(calls == 1, "accept calls the visitor once"); CHECK(which == k, "accept calls the visitor with the alternative of the code"); CHECK(r == b + 1000 + k, "accept returns the visitor's result"); int s = 0; v.accept(Vd{&s}); CHECK(calls == 2 && s == k + 1, "a visitor without a result"); results(v, k); vs_reach("visited"); }
template <class C, int MODE, int... I> static void from_alternatives(std::integer_sequence<int, I...>) { typedef CodedVariant<C, Alt<I, C, MODE>...> V; ([&] { Alt<I, C, MODE> a; V v(a); calls = 0; which = -1; CHECK(v.code() == a.code(), "a variant built from an alternative has its code"); CHECK((holds_alternative<Alt<I, C, MODE>>(v)), "it holds that alternative"); int r = v.accept(Vis<C, MODE>{0}); CHECK(calls == 1 && which == I && r == 1000 + I, "accept passes that alternative"); V w(v); CHECK(w.code() == v.code(), "a copy has the same code"); V u(Alt<0, C, MODE>{}); u = v; CHECK(u.code() == v.code(), "assignment copies the code"); }(), ...); }
template <class C, int MODE> static void all(C c, int n) { switch (n) {
#define N(k) case k: run<C, MODE>(c, std::make_integer_sequence<int, k>()); break;
  N(1) N(2) N(3) N(4) N(5) N(6) N(7) N(8) N(9) N(10) N(11) N(12) N(13) N(14) N(15) N(16) } }
template <class C, int MODE> static void alts(int n) { switch (n) {
#undef N
#define N(k) case k: from_alternatives<C, MODE>(std::make_integer_sequence<int, k>()); break;
  N(1) N(2) N(3) N(4) N(5) N(6) N(7) N(8) N(9) N(10) N(11) N(12) N(13) N(14) N(15) N(16) } }
enum class Color : short {};
TEST(char_codes) { int n = vs::pick(1, 16, "n"); all<signed char, 2>((signed char)vs::u8("code"), n); }
TEST(increasing) { int n = vs::pick(1, 16, "n"); all<int, 0>(vs::i32("code"), n); }
TEST(decreasing) { int n = vs::pick(1, 16, "n"); all<int, 1>(vs::i32("code"), n); }
TEST(scattered) { int n = vs::pick(1, 16, "n"); all<int, 2>(vs::i32("code"), n); }
TEST(wide_codes) { int n = vs::pick(1, 16, "n"); all<int64_t, 3>(vs::i64("code"), n); }
TEST(wide_unsigned_codes) { int n = vs::pick(1, 16, "n"); all<uint64_t, 2>(vs::u64("code"), n); }
TEST(enumeration) { int n = vs::pick(1, 16, "n"); all<Color, 2>((Color)(short)vs::i32("code"), n); }
TEST(constructed) { int n = vs::pick(1, 16, "n"), m = vs::pick(0, 4, "m"); if (m == 4) alts<int64_t, 3>(n); else if (m == 0) alts<int, 0>(n); else if (m == 1) alts<int, 1>(n); else if (m == 2) alts<int, 2>(n); else alts<Color, 2>(n); }
