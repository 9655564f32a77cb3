//@ quick N=34 B=300
//@ thorough N=140 B=1100
//@ bounds Array sizes 0..N (initializer lists 0..6), arbitrary 32-bit (or narrower) element values, element types int, bool, unsigned char, std::string, a padded struct and a lifetime-checked class; at(i) for every 64-bit i. Long arrays of every size up to B and eighteen sizes around powers of two up to 70001 (contents fixed by one arbitrary number).
//@ outside Other sizes; element types with overloaded operator& or over-alignment.
#include <memory>
#include <stdexcept>
#include "arr.hpp"
using namespace Helper;
template <class T> static void sizes(size_t n) { int e[300]; for (size_t i = 0; i < n; ++i) e[i] = dval<T>(); Array<T> a(n); content(a, e, n, "Array(n): n value-initialised elements"); Array<T> d; content(d, e, 0, "Array(): empty"); }
template <class T> static void filled(size_t n) { int e[300], x; T t = fresh<T>(x); for (size_t i = 0; i < n; ++i) e[i] = x; Array<T> a(n, t); content(a, e, n, "Array(n,x): n copies of x"); CHECK(El<T>::val(t) == x, "Array(n,x): x unchanged"); }
template <class T> static void ranges(size_t n) { Ref r; std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(fresh<T>(r.v[i])); Array<T> a(v.begin(), v.end()); content(a, r.v, n, "Array(first,last): the range"); std::list<T> l(v.begin(), v.end()); Array<T> b(l.begin(), l.end()); content(b, r.v, n, "Array(first,last): the range of a list");
  Array<T> c(a); content(c, r.v, n, "copy construction: same content"); content(a, r.v, n, "copy construction: source unchanged"); if (n >= 3) { Array<T> m(a.begin() + 1, a.end() - 1); content(m, r.v + 1, n - 2, "Array(first,last) of pointers"); } }
TEST(size) { size_t n = vs::pick(0, vs::param("N", 34), "n"); sizes<int>(n); sizes<Elem>(n); sizes<bool>(n); sizes<unsigned char>(n); sizes<std::string>(n); sizes<Pair8>(n); }
TEST(fill) { size_t n = vs::pick(0, vs::param("N", 34), "n"); filled<int>(n); filled<Elem>(n); filled<bool>(n); filled<unsigned char>(n); filled<std::string>(n); filled<Pair8>(n); }
TEST(range) { size_t n = vs::pick(0, vs::param("N", 34), "n"); ranges<int>(n); ranges<Elem>(n); ranges<unsigned char>(n); ranges<std::string>(n); ranges<Pair8>(n); vs_observe(n); }
template <class T> static void list6() { Ref r; T a = fresh<T>(r.v[0]), b = fresh<T>(r.v[1]), c = fresh<T>(r.v[2]), d = fresh<T>(r.v[3]), e = fresh<T>(r.v[4]), f = fresh<T>(r.v[5]);
  Array<T> a0(std::initializer_list<T>{}), a1{a}, a2{a, b}, a3{a, b, c}, a4 = {a, b, c, d}, a5{a, b, c, d, e}, a6{a, b, c, d, e, f}; Array<T>* q[] = {&a0, &a1, &a2, &a3, &a4, &a5, &a6}; for (size_t n = 0; n <= 6; ++n) content(*q[n], r.v, n, "initializer list: its elements in order"); }
TEST(ilist) { list6<int>(); list6<Elem>(); list6<std::string>(); list6<Pair8>(); Array<int> s{5}; int e[] = {5}; content(s, e, 1, "one-element initializer list is not a size"); }
TEST(generate) { size_t n = vs::pick(0, vs::param("N", 34), "n"); int k = vs::i32("k"); Ref r; for (size_t i = 0; i < n; ++i) r.v[i] = (int)i * 3 + k; size_t calls = 0, last = 0; bool order = true;
  auto g = [&](size_t i) { order = order && i == calls; ++calls; last = i; return (int)i * 3 + k; }; Array<int> a(n, g); content(a, r.v, n, "Array(n,g): element i is g(i)"); CHECK(calls == n && order, "Array(n,g): g is called once per index");
  Array<Elem> b(n, [&](size_t i) { return Elem((int)i * 3 + k); }); content(b, r.v, n, "Array(n,g): element i is g(i), class type"); }
struct From { int v; }; struct To { int v; int p; To() : v(0), p(0) { } explicit To(const From& f) : v(f.v + 1), p(0) { } To(int x, short q) : v(x), p(q) { } To(const From& f, short q) : v(f.v), p(q) { } To(double d, long q) : v((int)d), p((int)q) { } };
struct Imp { int v; Imp(int x) : v(x) { } };
TEST(convert) { size_t n = vs::pick(0, vs::param("N", 34), "n"); Ref r; Array<int> a = make<int>(n, r); Array<Imp> b = a; CHECK(b.size() == n, "implicit conversion: size"); bool ok = true; for (size_t i = 0; i < n; ++i) ok = ok & (b[i].v == r.v[i]); CHECK(ok, "implicit conversion: elements in order");
  Array<long> l(a); ok = l.size() == n; for (size_t i = 0; i < n; ++i) ok = ok & (l[i] == (long)r.v[i]); CHECK(ok, "conversion int to long");
  Array<From> f(n, [&](size_t i) { return From{r.v[i]}; }); Array<To> t(f); CHECK(t.size() == n, "explicit conversion: size"); ok = true; for (size_t i = 0; i < n; ++i) ok = ok & (t[i].v == (int)((unsigned)r.v[i] + 1u)); CHECK(ok, "explicit conversion: elements in order");
  short p = (short)vs::i32("p"); Array<To> u(f, p); CHECK(u.size() == n, "conversion with parameter: size"); ok = true; for (size_t i = 0; i < n; ++i) ok = ok & (u[i].v == r.v[i] && u[i].p == p); CHECK(ok, "conversion with parameter: elements and parameter");
  Array<To> w({1.0, 2.0, 3.0, 4.0}, (long)p); CHECK(w.size() == 4 && w[0].v == 1 && w[1].v == 2 && w[2].v == 3 && w[3].v == 4 && w[0].p == p && w[3].p == p && w[2].p == p, "list of doubles with parameter"); content(a, r.v, n, "conversion leaves the source unchanged"); }
// parameters of class types: every element gets the parameter given
struct Par { int v; std::string s; Elem e; Par(const int& x, std::string q) : v(x), s(std::move(q)), e(x) { } Par(double d, std::string q) : v((int)d), s(std::move(q)), e(1) { } Par(const int& x, Elem q) : v(x), e(std::move(q)) { } Par(const int& x, std::shared_ptr<int> q) : v(x), e(*q) { } };
TEST(parameters) { { size_t n = vs::pick(0, 9, "n"); Ref r; Array<int> a = make<int>(n, r); std::string q(vs::pick(0, 1, "long") ? 40 : 3, 'q'); Array<Par> b(a, q); CHECK(b.size() == n, "conversion with parameter: size"); bool ok = true; for (size_t i = 0; i < n; ++i) ok = ok & (b[i].v == r.v[i]) & (b[i].s == q); CHECK(ok, "every element gets the parameter"); CHECK(q.size() >= 3, "the parameter is unchanged"); int x = vs::i32("x"); Elem y(x); Array<Par> c(a, y); ok = c.size() == n; for (size_t i = 0; i < n; ++i) ok = ok & (c[i].v == r.v[i]) & (c[i].e.get() == x); CHECK(ok, "every element gets the parameter"); CHECK(y.get() == x, "the parameter is unchanged"); Array<Par> d(a, std::make_shared<int>(x)); ok = d.size() == n; for (size_t i = 0; i < n; ++i) ok = ok & (d[i].e.get() == x); CHECK(ok, "every element gets the parameter"); Array<Par> l({1.0, 2.0, 3.0}, q); CHECK(l.size() == 3 && l[0].s == q && l[1].s == q && l[2].s == q && l[2].v == 3, "list of doubles with parameter"); } CHECK(vs::cnt().live == 0 && vs_heap_live() == 0, "nothing is leaked"); }
TEST(uninit) { size_t n = vs::pick(0, vs::param("N", 34), "n"); Ref r; Array<Elem> a = make<Elem>(n, r); content(a, r.v, n, "Array(n,Uninitialised): holds what is placed in it"); }
TEST(at) { size_t n = vs::pick(0, 8, "n"); Ref r; Array<int> a = make<int>(n, r); const Array<int>& c = a; size_t i = vs::u64("i"); int x = 0, y = 0; int o = vs::outcome<std::out_of_range>([&] { x = a.at(i); }), p = vs::outcome<std::out_of_range>([&] { y = c.at(i); });
  CHECK(o == (i >= n ? 1 : 0) && p == o, "at(i) throws out_of_range exactly when i>=size"); if (o == 0) { int e = 0; for (size_t k = 0; k < n; ++k) if (k == i) e = r.v[k]; CHECK(x == e && y == e, "at(i) is element i"); vs_reach("at in range"); a.at(i) = 17; CHECK(c[i] == 17, "at(i) is a reference"); } else vs_reach("at out of range"); content(a, a.begin(), n, "at leaves the size alone"); }
TEST(write) { size_t n = vs::pick(1, vs::param("N", 34), "n"); Ref r; Array<int> a = make<int>(n, r); size_t i = vs::u8("i"); ASSUME(i < n); int x = vs::i32("x"); a[i] = x; for (size_t k = 0; k < n; ++k) if (k == i) r.v[k] = x; content(a, r.v, n, "writing one element changes that element only"); a.front() = 1; r.v[0] = 1; a.back() = 2; r.v[n - 1] = 2; content(a, r.v, n, "front and back are the first and last element"); }
struct Wid { int v; Wid() : v(0) { } Wid(unsigned char c) : v(c + 1) { } Wid(unsigned char c, short q) : v(c + q) { } Wid(const Pair8& p) : v(p.v + 1) { } Wid(const Pair8& p, short q) : v(p.v + q) { } Wid(int x) : v(x + 1) { } Wid(int x, short q) : v(x + q) { } };
template <class T> static void large(size_t n) { int b = 5; if (n < (sizeof(T) == 1 ? 70u : 2000u)) b = vs::i32("b"); std::vector<T> v; v.reserve(n); for (size_t i = 0; i < n; ++i) v.push_back(pat<T>(i, b)); auto f = [b](size_t i) { return pv<T>(i, b); };
  { Array<T> a(v.begin(), v.end()); holds(a, n, "Array(first,last): the range", f); Array<T> c(a); holds(c, n, "copy construction: same content", f); Array<Wid> w(a); bool ok = w.size() == n; for (size_t i = 0; i < n && ok; ++i) ok = ok & (w[i].v == (int)((unsigned)f(i) + 1u)); CHECK(ok, "conversion: elements in order"); short p = 3; Array<Wid> u(a, p); ok = u.size() == n; for (size_t i = 0; i < n && ok; ++i) ok = ok & (u[i].v == (int)((unsigned)f(i) + 3u)); CHECK(ok, "conversion with parameter: elements in order"); }
  if (n < 5000) { std::list<T> l(v.begin(), v.end()); Array<T> a(l.begin(), l.end()); holds(a, n, "Array(first,last): the range of a list", f); }
  { Array<T> a(n); int d = dval<T>(); holds(a, n, "Array(n): n value-initialised elements", [d](size_t) { return d; }); } { T t = pat<T>(1, b); int x = pv<T>(1, b); Array<T> a(n, t); holds(a, n, "Array(n,x): n copies of x", [x](size_t) { return x; }); }
  { size_t calls = 0; bool order = true; Array<T> a(n, [&](size_t i) { order = order && i == calls; ++calls; return pat<T>(i, b); }); holds(a, n, "Array(n,g): element i is g(i)", f); CHECK(calls == n && order, "Array(n,g): g is called once per index"); Array<T> m(std::move(a)); holds(m, n, "move construction: the content", f); } }
TEST(large_char) { large<unsigned char>(any_size(vs::param("B", 300))); }
TEST(large_int) { large<int>(any_size(vs::param("B", 300))); }
TEST(large_pair) { size_t n = any_size(vs::param("B", 300)); if (n < 20000) large<Pair8>(n); }
