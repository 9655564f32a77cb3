//@ quick N=4 L=40 D=6 Q=9
//@ thorough N=5 L=70 D=7 Q=11
//@ bounds Lists of up to N arbitrary 8-bit values and of up to 3 arbitrary 32-bit values; lists of up to L elements with one repeated element at every position; conversions of up to L arbitrary elements; int, bool, string and a lifetime-checked class. Every list of up to D elements over four values. Lists and sets of up to 300 elements (1000 in thorough) with no, one, two or all elements repeated; conversions of 22 sizes up to 70000. Lists of 15 sizes up to 300 of bool, characters and 16-bit integers: all different (as far as the type allows), one repeated, or ending in an arbitrary value. Sets from initialiser lists with any repetition, from sets of other element types, and from lists whose elements differ by less than the target type resolves.
//@ outside Longer lists with more than one repetition; orders that are not strict weak orders.
#include "sets.hpp"
#include <string>
static int okey(const Elem& e) { return e.get(); } static int okey(int x) { return x; }
template <class T> static void dup(const RS& a) { const std::vector<T> l = mkl<T>(a); bool u = true; for (size_t i = 0; i < a.n; ++i) for (size_t j = 0; j < i; ++j) u = u & (a.v[i] != a.v[j]); bool got = Helper::unique_elements(l); CHECK(got == u, "unique_elements is true exactly when no two elements are equal"); vs_reach(got ? "unique" : "repeated");
  Set<T> d = Helper::duplicate_elements(l); size_t n = 0; bool ok = true; int prev = 0; for (auto& e : d) { int x = okey(e); int c = 0; for (size_t i = 0; i < a.n; ++i) c += a.v[i] == x; ok = ok & (c >= 2) & (n == 0 || prev < x); prev = x; ++n; } CHECK(ok, "duplicate_elements has only values occurring at least twice, once each");
  for (size_t i = 0; i < a.n; ++i) { int c = 0; for (size_t j = 0; j < a.n; ++j) c += a.v[j] == a.v[i]; bool in = false; for (auto& e : d) in = in | (okey(e) == a.v[i]); ok = ok & ((c >= 2) == in); } CHECK(ok, "duplicate_elements has every value occurring at least twice"); same(l, a, "the list is unchanged"); }
TEST(small) { dup<int>(arbitrary_list(0, vs::param("N", 4), "n")); }
TEST(wide_values) { wide = true; dup<int>(arbitrary_list(0, 3, "n")); }
TEST(elem) { long h = vs_heap_live(); { dup<Elem>(arbitrary_list(0, 3, "n")); } CHECK(vs::cnt().live == 0 && vs_heap_live() == h, "nothing leaks"); }
TEST(one_repetition) { int L = vs::param("L", 40); RS a = progression(vs::flag("down") ? L : 0, 1, L); if (a.v[0]) for (int i = 0; i < L; ++i) a.v[i] = L - i; int i = vs::pick(0, 9, "i") * (L - 1) / 9, j = vs::pick(0, 9, "j") * (L - 1) / 9; a.v[i] = a.v[j]; dup<int>(a); }
TEST(helper_list) { RS a = arbitrary_list(0, 3, "n"); List<int> l(mkl<int>(a)); bool u = true; for (size_t i = 0; i < a.n; ++i) for (size_t j = 0; j < i; ++j) u = u & (a.v[i] != a.v[j]); CHECK(Helper::unique_elements(l) == u, "unique_elements of a List"); CHECK(Helper::duplicate_elements(l).empty() == u, "duplicate_elements of a List"); }
template <class S, class T> static void seq(const S& s, const T* v, size_t n, const char* m) { CHECK(s.size() == n, m); if (s.size() != n) return; bool ok = true; size_t i = 0; for (auto it = s.begin(); it != s.end(); ++it, ++i) ok = ok & (*it == v[i]); CHECK(ok, m); }
template <class T, class F> static void conv(F gen, size_t n) { T v[100]; std::vector<T> l; for (size_t i = 0; i < n; ++i) { v[i] = gen(); l.push_back(v[i]); } const std::vector<T> cl(l); Array<T> a = Helper::make_array(cl); seq(a, v, n, "make_array of a vector keeps the elements in order"); List<T> k = Helper::make_list(cl); seq(k, v, n, "make_list of a vector keeps the elements in order"); const Array<T> ca(a); Array<T> b = Helper::make_array(ca); seq(b, v, n, "make_array of an array copies it"); List<T> m = Helper::make_list(ca); seq(m, v, n, "make_list of an array keeps the elements in order"); T x = gen(); Array<T> o = Helper::make_array(x); seq(o, &x, 1, "make_array of a value has that one element"); List<T> p = Helper::make_list(x); seq(p, &x, 1, "make_list of a value has that one element"); seq(cl, v, n, "the vector is unchanged"); seq(ca, v, n, "the array is unchanged"); }
TEST(conversion_int) { conv<int>([] { return vs::i32("x"); }, vs::pick(0, vs::param("L", 40), "n")); }
TEST(conversion_char) { conv<char>([] { return (char)vs::u8("x"); }, vs::pick(0, 5, "n")); }
TEST(conversion_double) { conv<double>([] { double d = vs::f64("x"); ASSUME(d == d); return d; }, vs::pick(0, 3, "n")); }
TEST(conversion_elem) { long h = vs_heap_live(); { conv<Elem>([] { return Elem(vs::i32("x")); }, vs::pick(0, 5, "n")); } CHECK(vs::cnt().live == 0 && vs_heap_live() == h, "nothing leaks"); }
TEST(conversion_string) { conv<std::string>([] { return std::string(1, (char)vs::u8("x")); }, vs::pick(0, 3, "n")); }
TEST(sets) { RS a = arbitrary(0, vs::param("N", 4), "n"); const Set<int> s(mk(a)); List<int> l = Helper::make_list(s); seq(l, a.v, a.n, "make_list of a set lists the elements in order"); RS b = arbitrary_list(0, 3, "m"); const std::vector<int> v = mkl<int>(b); Set<int> t = Helper::make_set(v); RS none; is(t, b, none, [](bool x, bool) { return x; }, "make_set has exactly the elements of the vector"); same(v, b, "the vector is unchanged"); List<int> e(s); same(s, a, "the set is unchanged"); seq(static_cast<List<int>>(s), a.v, a.n, "a set converts to the list of its elements"); }
TEST(large_sets) { RS a = progression(-5, 2, vs::pick(0, vs::param("L", 40), "n")); const Set<int> s(mk(a)); List<int> l = Helper::make_list(s); seq(l, a.v, a.n, "make_list of a set lists the elements in order"); Set<int> t = Helper::make_set(l); same(t, a, "make_set of the list gives the set back"); std::vector<int> twice(l); twice.insert(twice.end(), l.rbegin(), l.rend()); Set<int> u = Helper::make_set(twice); same(u, a, "make_set of a list with repetitions"); }
TEST(every_short_list) { dup<int>(digits(vs::param("D", 6), 4, "n")); }
TEST(conversions_of_short_lists) { RS b = digits(vs::param("D", 6), 4, "n"), none; const std::vector<int> v = mkl<int>(b); Set<int> t = Helper::make_set(v); is(t, b, none, [](bool x, bool) { return x; }, "make_set has exactly the elements of the vector"); List<int> l = Helper::make_list(v); same(l, b, "make_list keeps the elements in order"); Array<int> a = Helper::make_array(v); same(a, b, "make_array keeps the elements in order"); same(v, b, "the vector is unchanged"); }
TEST(many_elements) { size_t n = many(vs::pick(0, vs::param("Q", 8), "n")); long s = vs::pick(0, 7, "shape"); RS a; a.n = n; for (size_t i = 0; i < n; ++i) a.v[i] = (int)(i * 37 % 1009) - 300; if (s == 1) a.v[n - 1] = a.v[0]; if (s == 2) a.v[n - 1] = a.v[n - 2]; if (s == 3) a.v[1] = a.v[0]; if (s == 4) { a.v[n / 2] = a.v[n / 2 + 1]; a.v[n - 1] = a.v[3]; } if (s == 5) for (size_t i = 0; i < n; ++i) a.v[i] = (int)(i % 16); if (s == 6) for (size_t i = 0; i < n; ++i) a.v[i] = 5; if (s == 7) a.v[n / 3] = a.v[2 * n / 3]; dup<int>(a); std::vector<int> v = mkl<int>(a); RS none; Set<int> t = Helper::make_set(v); is(t, a, none, [](bool x, bool) { return x; }, "make_set has exactly the elements of the vector"); List<int> k = Helper::make_list(t); size_t i = 0; bool ok = k.size() == t.size(); for (int x : t) ok = ok && k[i++] == x; CHECK(ok, "make_list of a set lists the elements in order"); }
TEST(many_conversions) { static const int s[] = {63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 513, 1000, 1024, 1025, 4096, 4097, 10000, 32768, 65537, 70000}; size_t n = s[vs::pick(0, 21, "n")]; size_t p = vs::pick(0, 3, "p"); p = p == 0 ? 0 : p == 1 ? n - 1 : p == 2 ? n / 2 : n - 2; std::vector<int> v(n); for (size_t i = 0; i < n; ++i) v[i] = (int)(i * 2654435761u >> 7); v[p] = vs::i32("x"); const std::vector<int> cv(v); Array<int> a = Helper::make_array(cv); List<int> l = Helper::make_list(cv), m = Helper::make_list(a); Array<int> b = Helper::make_array(a); CHECK(a.size() == n && l.size() == n && m.size() == n && b.size() == n, "conversions keep the number of elements"); bool ok = true; for (size_t i = 0; i < n; ++i) { bool e = (a[i] == v[i]) & (l[i] == v[i]) & (m[i] == v[i]) & (b[i] == v[i]) & (cv[i] == v[i]); if (i == p) CHECK(e, "conversions keep every element"); else ok = ok & e; } CHECK(ok, "conversions keep every element"); }
// types with few values: a list can hold all of them
template <class T> static void few(size_t n) { long s = vs::pick(0, 2, "shape"); std::vector<T> v(n); int c[65536] = {}; for (size_t i = 0; i < n; ++i) v[i] = (T)(i * 77 + 5); if (s == 1 && n > 1) v[n - 1] = v[n / 2]; int x = 0; if (s == 2 && n) { x = (int)vs::pick(0, 3, "x") * 67 % 256; v[n / 3] = (T)x; }
  const std::vector<T> l(v); bool u = true; size_t d = 0; for (size_t i = 0; i < n; ++i) { int k = (int)l[i] + 32768; int y = ++c[k & 65535]; if (y > 1) u = false; if (y == 2) ++d; } CHECK(Helper::unique_elements(l) == u, "unique_elements is true exactly when no two elements are equal"); Set<T> r = Helper::duplicate_elements(l); bool ok = r.size() == d; for (const T& t : r) ok = ok && c[((int)t + 32768) & 65535] > 1; CHECK(ok, "duplicate_elements has exactly the values occurring at least twice"); Set<T> m = Helper::make_set(l); size_t k = 0; for (int i = 0; i < 65536; ++i) k += c[i] > 0; ok = m.size() == k; for (const T& t : m) ok = ok && c[((int)t + 32768) & 65535] > 0; CHECK(ok, "make_set has exactly the elements of the vector"); List<T> w = Helper::make_list(l); ok = w.size() == n; for (size_t i = 0; i < n && ok; ++i) ok = w[i] == l[i]; Array<T> a = Helper::make_array(l); ok = ok && a.size() == n; for (size_t i = 0; i < n && ok; ++i) ok = a[i] == l[i]; CHECK(ok, "conversions keep every element"); }
TEST(few_values) { static const size_t z[] = {0, 1, 2, 3, 8, 60, 127, 128, 129, 254, 255, 256, 257, 258, 300}; size_t n = z[vs::pick(0, 14, "n")]; few<unsigned char>(n); }
TEST(few_values_signed) { static const size_t z[] = {1, 2, 127, 128, 129, 254, 255, 256, 257, 300}; size_t n = z[vs::pick(0, 9, "n")]; few<signed char>(n); few<short>(n); few<bool>(n); }
// conversions between sets and to sets of another type, also when different values become equal
template <class S, class T, class F> static void conv_set(const S& s, const T* v, size_t n, F f, const char* m) { bool ok = true; size_t k = 0; int64_t prev = 0; for (auto& e : s) { int64_t x = f(e); ok = ok & (k == 0 || prev < x); prev = x; bool in = false; for (size_t i = 0; i < n; ++i) in = in | (v[i] == x); ok = ok & in; ++k; } for (size_t i = 0; i < n; ++i) { bool in = false; for (auto& e : s) in = in | (f(e) == v[i]); ok = ok & in; } CHECK(ok && k == s.size(), m); }
struct XE { int x; explicit XE(int i) : x(i & ~1) {} bool operator<(const XE& o) const { return x < o.x; } };
TEST(converted_sets) { size_t n = vs::pick(0, 3, "n"); int v[3], y[3]; short z[3]; int64_t w[3]; std::vector<int> l; std::set<int> s; for (size_t i = 0; i < n; ++i) { v[i] = vs::i32("x"); w[i] = v[i]; y[i] = v[i] & ~1; z[i] = (short)v[i]; l.push_back(v[i]); s.insert(v[i]); } const std::set<int> cs(s); const std::vector<int> cl(l); auto id = [](auto x) { return (int64_t)x; };
  long k = vs::pick(0, 3, "to"); if (k == 0) { Set<int64_t> a(cs), b(cl); conv_set(a, w, n, id, "Set from a set of another type"); conv_set(b, w, n, id, "Set from a vector of another type"); } else if (k == 1) { Set<short> a(cs), b(cl); conv_set(a, z, n, id, "Set from a set of a wider type"); conv_set(b, z, n, id, "Set from a vector of a wider type"); } else if (k == 2) { Set<XE> a(cs); conv_set(a, y, n, [](const XE& e) { return (int64_t)e.x; }, "Set from a set by explicit conversion"); } else { Set<int> a(cs), b(cl.begin(), cl.end()), c(std::move(s)); conv_set(a, w, n, id, "Set from a std::set"); conv_set(b, w, n, id, "Set from a range"); conv_set(c, w, n, id, "Set from a std::set about to go"); } conv_set(cs, w, n, id, "the set is unchanged"); bool ok = cl.size() == n; for (size_t i = 0; i < n; ++i) ok = ok & (cl[i] == v[i]); CHECK(ok, "the vector is unchanged"); }
TEST(set_initialiser_lists) { int64_t w[3]; for (auto& x : w) x = vs::i32("x"); auto id = [](auto x) { return (int64_t)x; }; std::initializer_list<int> il = {(int)w[0], (int)w[1], (int)w[2]}; Set<int64_t> a(il); conv_set(a, w, 3, id, "Set from an initialiser list of another type"); Set<int> b{(int)w[0], (int)w[1], (int)w[2]}; conv_set(b, w, 3, id, "Set from an initialiser list"); Set<int> c(il); conv_set(c, w, 3, id, "Set from an initialiser list"); Set<int> d; CHECK(d.empty(), "a default Set is empty"); }
// elements that are ordered more finely than they are equal, and the other way: conversions keep every one of them
struct Fi { int a, b; friend bool operator<(const Fi& x, const Fi& y) { return x.a < y.a || (x.a == y.a && x.b < y.b); } friend bool operator>(const Fi& x, const Fi& y) { return y < x; } friend bool operator<=(const Fi& x, const Fi& y) { return !(y < x); } friend bool operator>=(const Fi& x, const Fi& y) { return !(x < y); } friend bool operator==(const Fi& x, const Fi& y) { return x.a == y.a; } friend bool operator!=(const Fi& x, const Fi& y) { return x.a != y.a; } };
TEST(finely_ordered) { size_t n = vs::pick(0, 4, "n"); std::vector<Fi> v; int x = vs::i32("x"), p = vs::i32("p"); for (size_t i = 0; i < n; ++i) { Fi f; f.a = vs::flag("same") ? x : p; f.b = (int)vs::pick(0, 1, "b"); v.push_back(f); } ASSUME(x < p); const std::vector<Fi> l(v); auto eq = [&](const auto& s) { bool ok = s.size() == n; size_t i = 0; for (auto& e : s) { if (i < n) ok = ok & (e.a == l[i].a) & (e.b == l[i].b); ++i; } return ok; }; CHECK(eq(Helper::make_array(l)), "make_array of a vector keeps the elements in order"); CHECK(eq(Helper::make_list(l)), "make_list of a vector keeps the elements in order"); CHECK(eq(Helper::make_list(Helper::make_array(l))), "make_list of an array keeps the elements in order"); CHECK(eq(Helper::make_array(Helper::make_array(l))), "make_array of an array copies it");
  Set<Fi> s = Helper::make_set(l); bool ok = true; for (size_t i = 0; i < n; ++i) { size_t c = 0; for (auto& e : s) c += (e.a == l[i].a) & (e.b == l[i].b); ok = ok & (c == 1); } for (auto& e : s) { bool in = false; for (size_t i = 0; i < n; ++i) in = in | ((e.a == l[i].a) & (e.b == l[i].b)); ok = ok & in; } CHECK(ok, "make_set has exactly the elements of the vector"); List<Fi> k = Helper::make_list(s); ok = k.size() == s.size(); size_t i = 0; for (auto& e : s) { if (i < k.size()) ok = ok & (e.a == k[i].a) & (e.b == k[i].b); ++i; } CHECK(ok, "make_list of a set lists the elements in order"); }
