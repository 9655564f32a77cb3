//@ quick
//@ thorough
//@ bounds Every assignment of pairs and tuples of one to nine and twelve components to references, every component value, also from the variables themselves (swaps and rotations) and into elements of containers; get_first to get_fifth on constant, mutable and temporary pairs, tuples of up to ten components and arrays of up to eight.
//@ outside Variables that are named twice in one assignment.
#include <array>
#include <concepts>
#include <string>
#include <type_traits>
#include "vs.hpp"
#include "tuple.hpp"
using namespace Helper; using vs::Elem;
TEST(pair) { int a = vs::i32("a"), x = vs::i32("x"), guard = 7; int64_t b = vs::i64("b"), y = vs::i64("y"); auto p = make_lpair(a, b); CHECK((std::is_same<decltype(p), Pair<int&, int64_t&>>::value), "a pair of references"); CHECK(&p.first == &a && &p.second == &b, "the references are to the variables given"); int a0 = a; int64_t b0 = b; p = make_pair(x, y); CHECK(a == x && b == y && guard == 7, "assigning to a pair of references stores each component in its variable"); make_lpair(a, b) = Pair<int, int64_t>(a0, b0); CHECK(a == a0 && b == b0, "assigning to the temporary"); const Pair<short, int> s((short)x, (int)y); make_lpair(a, b) = s; CHECK(a == (short)x && b == (int)y, "components are converted"); make_lpair(a, a0) = make_pair(3, 4); CHECK(a == 3 && a0 == 4 && b == (int)y, "no other variable changes"); const int c = 5; auto q = make_lpair(c, a); CHECK((std::is_same<decltype(q), Pair<const int&, int&>>::value), "constant variables stay constant"); CHECK(&q.first == &c && &q.second == &a, "references to constants"); }
TEST(swaps) { int a = vs::i32("a"), b = vs::i32("b"), c = vs::i32("c"); const int a0 = a, b0 = b, c0 = c; make_lpair(a, b) = make_pair(b, a); CHECK(a == b0 && b == a0, "a pair assigned from the variables' values exchanges them"); make_ltuple(a, b, c) = make_tuple(b, c, a); CHECK(a == a0 && b == c0 && c == b0, "a tuple assigned from the variables' values permutes them"); make_lpair(a, b) = make_lpair(c, c); CHECK(a == b0 && b == b0 && c == b0, "assignment between references copies values"); }
template <size_t... I> static void assign_(int* a, const int* v, std::index_sequence<I...>) { make_ltuple(a[I]...) = make_tuple(v[I]...); auto t = make_ltuple(a[sizeof...(I) - 1 - I]...); bool ok = true; ((ok = ok & (&std::get<I>(t) == a + (sizeof...(I) - 1 - I))), ...); CHECK(ok, "the references are to the variables given, in order"); CHECK((std::is_same<decltype(t), Tuple<std::remove_reference_t<decltype(a[I])>&...>>::value), "a tuple of references"); }
template <size_t N> static void assign(const int* a0, const int* v) { int a[12]; for (int i = 0; i < 12; ++i) a[i] = a0[i]; assign_(a, v, std::make_index_sequence<N>()); bool ok = true; for (size_t i = 0; i < 12; ++i) ok = ok & (a[i] == (i < N ? v[i] : a0[i])); CHECK(ok, "assigning to a tuple of references stores each component in its variable and no other"); }
TEST(tuples) { int a[12], v[12]; for (int i = 0; i < 12; ++i) { a[i] = vs::i32("a"); v[i] = vs::i32("v"); } assign<1>(a, v); assign<2>(a, v); assign<3>(a, v); assign<4>(a, v); assign<5>(a, v); assign<6>(a, v); assign<7>(a, v); assign<8>(a, v); assign<9>(a, v); assign<12>(a, v); }
TEST(mixed) { { std::string s = "old"; Elem e(1); double d = 0; int64_t l = 0; char c = 'x'; int v = vs::i32("v"); char k = (char)vs::u8("k"); std::string w(vs::pick(0, 20, "len"), 'z'); w += k; make_ltuple(s, e, d, l, c) = make_tuple(w, Elem(v), 2.5, (int64_t)v, k); CHECK(s == w && e.get() == v && d == 2.5 && l == v && c == k, "components of different types"); std::string t; make_lpair(t, e) = Pair<std::string, Elem>(w, Elem(v ^ 1)); CHECK(t == w && e.get() == (v ^ 1) && s == w, "a pair of objects"); int r[3] = {0, 0, 0}; for (int i = 0; i < 3; ++i) make_lpair(r[i], c) = make_pair(v + i, k); CHECK(r[0] == v && r[1] == v + 1 && r[2] == v + 2, "elements of arrays as variables"); auto f = [&](bool b) { return b ? make_tuple(v, 'y') : make_tuple(0, 'n'); }; bool b = vs::flag("b"); make_ltuple(r[1], c) = f(b); CHECK(r[1] == (b ? v : 0) && c == (b ? 'y' : 'n') && r[0] == v, "unpacking the result of a function"); } CHECK(vs::cnt().live == 0 && vs_heap_live() == 0, "nothing is leaked"); }
template <class T> static const void* at(T&& t) { return (const void*)&t; }
template <class A, class B> static bool eq(const A& a, const B& b) { if constexpr (requires { { a == b } -> std::convertible_to<bool>; }) return a == b; else return false; }
template <class A, class B> static void set(A&& a, const B& b) { if constexpr (std::is_assignable<A&&, const B&>::value) std::forward<A>(a) = b; else CHECK(false, "a component can be written"); }
#define SAME(...) CHECK((std::is_same<__VA_ARGS__>::value), "a component of a variable is a reference, constant where the variable is, and one to move from for a temporary")
template <class X> static void parts(X& x, const int* v, int n) { const X& c = x;
  CHECK(at(get_first(x)) == at(std::get<0>(x)) && at(get_first(c)) == at(std::get<0>(x)) && eq(get_first(c), v[0]), "get_first is the first component itself"); CHECK(at(get_second(x)) == at(std::get<1>(x)) && at(get_second(c)) == at(std::get<1>(x)) && eq(get_second(c), v[1]), "get_second is the second component itself");
  SAME(decltype(get_first(x)), int&); SAME(decltype(get_first(c)), const int&); SAME(decltype(get_first(std::move(x))), int&&); SAME(decltype(get_second(x)), int&); SAME(decltype(get_second(c)), const int&); SAME(decltype(get_second(std::move(x))), int&&);
  if constexpr (std::tuple_size<X>::value > 2) { CHECK(at(get_third(x)) == at(std::get<2>(x)) && at(get_third(c)) == at(std::get<2>(x)) && eq(get_third(c), v[2]), "get_third is the third component itself"); SAME(decltype(get_third(x)), int&); SAME(decltype(get_third(c)), const int&); SAME(decltype(get_third(std::move(x))), int&&); }
  if constexpr (std::tuple_size<X>::value > 3) { CHECK(at(get_fourth(x)) == at(std::get<3>(x)) && at(get_fourth(c)) == at(std::get<3>(x)) && eq(get_fourth(c), v[3]), "get_fourth is the fourth component itself"); SAME(decltype(get_fourth(x)), int&); SAME(decltype(get_fourth(c)), const int&); SAME(decltype(get_fourth(std::move(x))), int&&); }
  if constexpr (std::tuple_size<X>::value > 4) { CHECK(at(get_fifth(x)) == at(std::get<4>(x)) && at(get_fifth(c)) == at(std::get<4>(x)) && eq(get_fifth(c), v[4]), "get_fifth is the fifth component itself"); SAME(decltype(get_fifth(x)), int&); SAME(decltype(get_fifth(c)), const int&); SAME(decltype(get_fifth(std::move(x))), int&&); }
  int w = vs::i32("w"); set(get_second(x), w); CHECK(std::get<1>(x) == w && std::get<0>(x) == v[0], "writing a component changes that one"); if constexpr (std::tuple_size<X>::value > 4) { set(get_fifth(x), w); set(get_third(x), w + 1); CHECK(std::get<4>(x) == w && std::get<2>(x) == w + 1 && std::get<3>(x) == v[3], "writing a component changes that one"); } }
TEST(components) { int v[10]; for (int& i : v) i = vs::i32("v"); { Pair<int, int> x(v[0], v[1]); parts(x, v, 2); } { Tuple<int, int> x(v[0], v[1]); parts(x, v, 2); } { Tuple<int, int, int> x(v[0], v[1], v[2]); parts(x, v, 3); } { Tuple<int, int, int, int> x(v[0], v[1], v[2], v[3]); parts(x, v, 4); } { Tuple<int, int, int, int, int> x(v[0], v[1], v[2], v[3], v[4]); parts(x, v, 5); } { Tuple<int, int, int, int, int, int> x(v[0], v[1], v[2], v[3], v[4], v[5]); parts(x, v, 6); } { Tuple<int, int, int, int, int, int, int> x(v[0], v[1], v[2], v[3], v[4], v[5], v[6]); parts(x, v, 7); } { Tuple<int, int, int, int, int, int, int, int, int, int> x(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]); parts(x, v, 10); } { std::array<int, 2> x{v[0], v[1]}; parts(x, v, 2); } { std::array<int, 3> x{v[0], v[1], v[2]}; parts(x, v, 3); } { std::array<int, 5> x{v[0], v[1], v[2], v[3], v[4]}; parts(x, v, 5); } { std::array<int, 8> x{v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]}; parts(x, v, 8); } }
TEST(large_mixed) { struct S { int q; }; int a = vs::i32("a"), b = vs::i32("b"); Tuple<char, Elem, std::string, double, S, int, char, int64_t> t('c', Elem(a), "text", 1.5, S{b}, a, 'd', (int64_t)b); const auto& c = t; CHECK(eq(get_first(c), 'c') && at(get_second(c)) == at(std::get<1>(t)) && eq(get_third(c), "text") && eq(get_fourth(c), 1.5) && at(get_fifth(c)) == at(std::get<4>(t)), "components of different types"); SAME(decltype(get_fifth(c)), const S&); SAME(decltype(get_second(t)), Elem&); SAME(decltype(get_third(std::move(t))), std::string&&); std::string s(get_third(std::move(t))); CHECK(s == "text" && std::get<1>(t).get() == a, "a component can be moved out, alone"); auto f = [&] { return make_tuple(1, 2, 3, 4, b, 6); }; CHECK(eq(get_fifth(f()), b), "a component of a function's result"); int64_t r = 0; char k = 0; int z = 0; Elem e; std::string w; double d = 0; S q{0}; char k2 = 0; make_ltuple(k, e, w, d, q, z, k2, r) = Tuple<char, Elem, std::string, double, S, int, char, int64_t>('x', Elem(b), s, 2.5, S{a}, b, 'y', (int64_t)a); CHECK(k == 'x' && e.get() == b && w == "text" && d == 2.5 && q.q == a && z == b && k2 == 'y' && r == a, "eight variables of different types"); }
TEST(through_references) { int a = vs::i32("a"), b = vs::i32("b"), w = vs::i32("w"); auto t = make_ltuple(a, b); get_second(t) = w; CHECK(b == w && &get_first(t) == &a && &get_second(t) == &b, "components of a tuple of references are the variables"); CHECK(&get_second(make_lpair(a, b)) == &b, "also of a temporary"); { Pair<Elem, Elem> p{Elem(a), Elem(w)}; Elem e(get_first(std::move(p))); CHECK(e.get() == a && p.first.st == Elem::MOVED && p.second.get() == w, "a component of a temporary can be moved out, alone"); } CHECK(vs::cnt().live == 0, "nothing is leaked"); }
TEST(compile_time) { constexpr Tuple<int, char> t(4, 'c'); CHECK(std::get<0>(t) == 4, "constant"); static int x, y; constexpr auto p = make_lpair(x, y); constexpr auto q = make_ltuple(x, y); CHECK(&p.first == &x && &std::get<1>(q) == &y, "references made at compile time"); }
